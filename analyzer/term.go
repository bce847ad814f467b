package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the kind of an abstract value.
type Kind int

const (
	KConst     Kind = iota // constant, nil or zero value of a leaf type
	KParam                 // parameter of the entry function
	KGlobal                // address of a package variable
	KFunc                  // function value
	KClosure               // closure: Fn + bindings
	KBuiltin               // builtin function value
	KAlloc                 // address of a variable allocated on this path
	KFieldAddr             // address of a field
	KIndexAddr             // address of an element
	KField                 // field of a struct value
	KIndex                 // element of an array/slice value
	KLoad                  // content of memory not written on this path
	KHavoc                 // content of memory after unknown code may have written it (Args: addr, previous value)
	KRet                   // result of a call that was not inlined
	KPure                  // result of a pure function of its arguments
	KBin                   // binary operation
	KUn                    // unary operation
	KIface                 // interface value with known content
	KAssert                // type assertion of an unknown interface value
	KIsType                // "dynamic type of Args[0] is T"
	KMakeChan              // channel made on this path, Args[0] = capacity
	KMakeSlice             // Args[0] len, Args[1] cap
	KMakeMap               //
	KSlice                 // x[lo:hi]
	KList                  // slice with known elements
	KAppend                // append(base, elems...): Args[0] base, rest elements, KSpread for xs...
	KSpread                // xs... inside KAppend or KList
	KLen                   //
	KCap                   //
	KLookup                // m[k]
	KLookupOK              // _, ok := m[k]
	KLoopVar               // loop-carried value at a loop head
	KStruct                // struct value with known fields
	KTuple                 // multiple results
	KUnknown               // anything
	KCtxErr                // the error of a cancelled context
	KStr                   // abstract string: concatenation of Args
	KConv                  // conversion that is not an identity
	KRangeIt               // iterator over Args[0]
)

// Term is a hash-consed abstract value.
type Term struct {
	K    Kind
	Op   string // operator, constant text, site or function name
	Idx  int
	Args []*Term
	T    types.Type
	Fn   *ssa.Function
	Ref  any // *types.Var for fields, ssa.Value for allocs...
	id   int
}

// Interner creates terms.
type Interner struct {
	tab  map[string]*Term
	list []*Term
}

func newInterner() *Interner { return &Interner{tab: map[string]*Term{}} }

var in = newInterner()

func (n *Interner) mk(t Term, extra string) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.K)))
	b.WriteByte('|')
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.Idx))
	b.WriteByte('|')
	b.WriteString(extra)
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if x, ok := n.tab[k]; ok {
		return x
	}
	x := new(Term)
	*x = t
	x.id = len(n.list)
	n.tab[k] = x
	n.list = append(n.list, x)
	return x
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mkConst(s string, t types.Type) *Term {
	return in.mk(Term{K: KConst, Op: s, T: t}, "")
}

var (
	tNil   = mkConst("nil", nil)
	tTrue  = mkConst("true", nil)
	tFalse = mkConst("false", nil)
)

func mkInt(i int64) *Term { return mkConst(strconv.FormatInt(i, 10), types.Typ[types.Int]) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term { return mkConst(strconv.Quote(s), types.Typ[types.String]) }

func mkParam(name string, t types.Type) *Term {
	return in.mk(Term{K: KParam, Op: name, T: t}, typeKey(t))
}
func mkUnknown(site string, t types.Type) *Term {
	return in.mk(Term{K: KUnknown, Op: site, T: t}, "")
}
func mkRet(site string, idx int, t types.Type) *Term {
	return in.mk(Term{K: KRet, Op: site, Idx: idx, T: t}, "")
}
func mkPure(name string, t types.Type, args ...*Term) *Term {
	return in.mk(Term{K: KPure, Op: name, Args: args, T: t}, "")
}
func mkTuple(args ...*Term) *Term { return in.mk(Term{K: KTuple, Args: args}, "") }

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if s, ok := u.(*types.Struct); ok {
		return s
	}
	return nil
}

// opaque reports whether values of the struct type are kept whole.
func opaque(t types.Type) bool {
	if structOf(t) == nil {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil {
			switch p.Path() {
			case "sync", "sync/atomic", "time", "reflect", "regexp":
				return true
			}
		}
	}
	return false
}

// expandable reports whether memory of type t is kept per field.
func expandable(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	return structOf(t) != nil && !opaque(t)
}

func fieldVar(t types.Type, i int) *types.Var {
	s := structOf(t)
	if s == nil || i >= s.NumFields() {
		return nil
	}
	return s.Field(i).Origin()
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func mkFieldAddr(base *Term, i int, st types.Type) *Term {
	v := fieldVar(st, i)
	var ft types.Type
	if v != nil {
		ft = structOf(st).Field(i).Type()
	}
	return in.mk(Term{K: KFieldAddr, Idx: i, Args: []*Term{base}, T: ft, Ref: v}, "")
}

func mkField(x *Term, i int, st types.Type) *Term {
	switch x.K {
	case KStruct:
		if i < len(x.Args) {
			return x.Args[i]
		}
	case KConst:
		// zero value of a struct
		if s := structOf(st); s != nil {
			return zeroOf(s.Field(i).Type())
		}
	case KLoad:
		// the field of what is stored at an address is what is stored at the field's address
		return mkLoad(mkFieldAddr(x.Args[0], i, st))
	}
	var ft types.Type
	if s := structOf(st); s != nil {
		ft = s.Field(i).Type()
	}
	return in.mk(Term{K: KField, Idx: i, Args: []*Term{x}, T: ft, Ref: fieldVar(st, i)}, "")
}

func mkStruct(t types.Type, fields []*Term) *Term {
	// eta: a struct of all fields of x is x
	if len(fields) > 0 {
		var base *Term
		ok := true
		for i, f := range fields {
			if f.K == KField && f.Idx == i {
				if base == nil {
					base = f.Args[0]
				}
				if base != f.Args[0] {
					ok = false
				}
			} else {
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok && base != nil && base.T != nil && structOf(base.T) != nil && structOf(base.T).NumFields() == len(fields) {
			return base
		}
	}
	return in.mk(Term{K: KStruct, Args: fields, T: t}, typeKey(t))
}

func mkLoad(addr *Term) *Term {
	return in.mk(Term{K: KLoad, Args: []*Term{addr}, T: addr.T}, "")
}

// zeroOf returns the zero value of a type.
func zeroOf(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return mkConst("zero:"+tp.String(), t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return mkConst("0", t)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		}
		return tNil
	case *types.Struct:
		if opaque(t) {
			return mkConst("zero:"+typeKey(t), t)
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(t, fs)
	case *types.Array:
		return mkConst("zero:"+typeKey(t), t)
	}
	return tNil
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		return mkConst(c.Value.ExactString(), c.Type())
	}
	return mkConst(c.Value.ExactString(), c.Type())
}

// intConst returns the value of an integer constant.
func (t *Term) intConst() (int64, bool) {
	if t.K != KConst {
		return 0, false
	}
	v, err := strconv.ParseInt(t.Op, 10, 64)
	return v, err == nil
}

func (t *Term) strConst() (string, bool) {
	if t.K != KConst || !strings.HasPrefix(t.Op, "\"") {
		return "", false
	}
	s, err := strconv.Unquote(t.Op)
	return s, err == nil
}

// neverNil are the package variables that are set once, before anything runs, to what is not nil.
var neverNil = map[any]bool{}

// nonNil reports terms that are never nil.
func (t *Term) nonNil() bool {
	switch t.K {
	case KAlloc, KFieldAddr, KIndexAddr, KGlobal, KFunc, KClosure, KMakeChan, KMakeMap, KIface, KCtxErr, KBuiltin:
		return true
	case KLoad:
		return t.Args[0].K == KGlobal && neverNil[t.Args[0].Ref]
	case KAppend:
		return false
	case KPure:
		switch t.Op {
		case "newerr", "join2", "newptr", "withvalue", "spanof", "newspan":
			return true
		case "(reflect.Value).Interface":
			return isMethodFunc(t.Args[0])
		}
	}
	return false
}

func mkBin(op string, x, y *Term, t types.Type) *Term {
	if a, ok := x.intConst(); ok {
		if b, ok := y.intConst(); ok {
			switch op {
			case "+":
				return mkConst(strconv.FormatInt(a+b, 10), t)
			case "-":
				return mkConst(strconv.FormatInt(a-b, 10), t)
			case "*":
				return mkConst(strconv.FormatInt(a*b, 10), t)
			case "<":
				return mkBool(a < b)
			case "==":
				return mkBool(a == b)
			}
		}
	}
	switch op {
	case "!=":
		return mkNot(mkBin("==", x, y, t))
	case ">":
		return mkBin("<", y, x, t)
	case "<=":
		return mkNot(mkBin("<", y, x, t))
	case ">=":
		return mkNot(mkBin("<", x, y, t))
	case "==":
		if x == y && x.K != KUnknown {
			return tTrue
		}
		if x.K == KConst || (y.K != KConst && x.id > y.id) {
			x, y = y, x
		}
		if y == tTrue {
			return x
		}
		if y == tFalse {
			return mkNot(x)
		}
		if y == tNil && x.nonNil() {
			return tFalse
		}
		if x.K == KConst && y.K == KConst && x != y {
			return tFalse
		}
		if s, ok := y.strConst(); ok && x.K == KStr {
			if b, known := strEq(x, s); known {
				return mkBool(b)
			}
		}
		if x.K == KIface && y.K == KIface && len(x.Args) == 1 && len(y.Args) == 1 {
			if types.Identical(x.T, y.T) {
				return mkBin("==", x.Args[0], y.Args[0], t)
			}
			return tFalse
		}
	case "+":
		if isStringType(t) {
			return mkConcat(x, y)
		}
		// normalise constants to the right and fold them
		if _, ok := x.intConst(); ok {
			x, y = y, x
		}
		if b, ok := y.intConst(); ok {
			if b == 0 {
				return x
			}
			if x.K == KBin && x.Op == "+" {
				if a, ok := x.Args[1].intConst(); ok {
					return mkBin("+", x.Args[0], mkConst(strconv.FormatInt(a+b, 10), y.T), t)
				}
			}
		} else if y.K == KBin && y.Op == "+" && y.Args[1].K == KConst {
			return mkBin("+", mkBin("+", x, y.Args[0], t), y.Args[1], t)
		} else if x.K == KBin && x.Op == "+" && x.Args[1].K == KConst {
			return mkBin("+", mkBin("+", x.Args[0], y, t), x.Args[1], t)
		} else if x.id > y.id {
			x, y = y, x
		}
	case "-":
		if b, ok := y.intConst(); ok {
			return mkBin("+", x, mkConst(strconv.FormatInt(-b, 10), y.T), t)
		}
		if x == y {
			return mkConst("0", t)
		}
		if x.K == KBin && x.Op == "+" { // (a+b)-a
			if x.Args[0] == y {
				return x.Args[1]
			}
			if x.Args[1] == y {
				return x.Args[0]
			}
		}
	case "*":
		if x.id > y.id {
			x, y = y, x
		}
	}
	return in.mk(Term{K: KBin, Op: op, Args: []*Term{x, y}, T: t}, "")
}

func mkNot(x *Term) *Term {
	switch {
	case x == tTrue:
		return tFalse
	case x == tFalse:
		return tTrue
	case x.K == KUn && x.Op == "!":
		return x.Args[0]
	}
	return in.mk(Term{K: KUn, Op: "!", Args: []*Term{x}}, "")
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mkLen(x *Term) *Term {
	switch x.K {
	case KMakeSlice:
		return x.Args[0]
	case KConst:
		if s, ok := x.strConst(); ok {
			return mkInt(int64(len(s)))
		}
		if x == tNil {
			return mkInt(0)
		}
	case KList:
		for _, a := range x.Args {
			if a.K == KSpread {
				return in.mk(Term{K: KLen, Args: []*Term{x}, T: types.Typ[types.Int]}, "")
			}
		}
		return mkInt(int64(len(x.Args)))
	}
	return in.mk(Term{K: KLen, Args: []*Term{x}, T: types.Typ[types.Int]}, "")
}

func mkCap(x *Term) *Term {
	switch x.K {
	case KMakeChan:
		return x.Args[0]
	case KMakeSlice:
		return x.Args[1]
	case KConst:
		if x == tNil {
			return mkInt(0)
		}
	}
	return in.mk(Term{K: KCap, Args: []*Term{x}, T: types.Typ[types.Int]}, "")
}

// mkAppend builds append(base, elems...), flattening known lists.
func mkAppend(base *Term, elems ...*Term) *Term {
	var args []*Term
	switch {
	case base == tNil:
		args = []*Term{tNil}
	case base.K == KAppend:
		args = append(args, base.Args...)
	case base.K == KList:
		args = append([]*Term{tNil}, base.Args...)
	case base.K == KMakeSlice && base.Args[0] == mkInt(0):
		args = []*Term{tNil}
	default:
		args = []*Term{base}
	}
	for _, e := range elems {
		if e.K == KSpread && e.Args[0].K == KList {
			args = append(args, e.Args[0].Args...)
			continue
		}
		if e.K == KSpread && e.Args[0] == tNil {
			continue
		}
		args = append(args, e)
	}
	return in.mk(Term{K: KAppend, Args: args, T: base.T}, "")
}

func mkSpread(x *Term) *Term { return in.mk(Term{K: KSpread, Args: []*Term{x}}, "") }

// ---------------------------------------------------------------- abstract strings

// mkConcat concatenates strings: KStr is a flat list of constant, base and number pieces.
func mkConcat(xs ...*Term) *Term {
	var parts []*Term
	for _, x := range xs {
		if x.K == KStr {
			parts = append(parts, x.Args...)
		} else {
			parts = append(parts, x)
		}
	}
	var out []*Term
	for _, p := range parts {
		s, ok := p.strConst()
		if ok && s == "" {
			continue
		}
		if ok && len(out) > 0 {
			if q, ok2 := out[len(out)-1].strConst(); ok2 {
				out[len(out)-1] = mkStr(q + s)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return in.mk(Term{K: KStr, Args: out, T: types.Typ[types.String]}, "")
}

func strEq(x *Term, s string) (bool, bool) {
	if s == "" {
		for _, a := range x.Args {
			if c, ok := a.strConst(); ok && c != "" {
				return false, true
			}
		}
	}
	return false, false
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 6 {
		return "..."
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.K {
	case KConst:
		return t.Op
	case KParam:
		return t.Op
	case KGlobal:
		return "&" + t.Op
	case KFunc:
		return "func " + t.Fn.Name()
	case KClosure:
		return "closure " + t.Fn.Name()
	case KAlloc:
		if v, ok := t.Ref.(*ssa.Alloc); ok && v.Comment != "" {
			return "&" + v.Comment
		}
		return "&new"
	case KFieldAddr:
		return "&" + strings.TrimPrefix(t.Args[0].str(d+1), "&") + "." + t.fieldName()
	case KField:
		return t.Args[0].str(d+1) + "." + t.fieldName()
	case KIndexAddr:
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KIndex:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KLoad:
		s := t.Args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case KHavoc:
		s := t.Args[0].str(d + 1)
		return strings.TrimPrefix(s, "&") + "'"
	case KRet:
		return fmt.Sprintf("result#%d(%s)", t.Idx, shortSite(t.Op))
	case KPure:
		return t.Op + "(" + args() + ")"
	case KBin:
		return "(" + t.Args[0].str(d+1) + " " + t.Op + " " + t.Args[1].str(d+1) + ")"
	case KUn:
		return t.Op + t.Args[0].str(d+1)
	case KIface:
		return t.Args[0].str(d + 1)
	case KAssert:
		return t.Args[0].str(d+1) + ".(" + typeKey(t.T) + ")"
	case KIsType:
		return t.Args[0].str(d+1) + " is " + typeKey(t.T)
	case KMakeChan:
		return "make(chan, " + args() + ")"
	case KMakeSlice:
		return "make([], " + args() + ")"
	case KMakeMap:
		return "make(map)"
	case KSlice:
		return "slice(" + args() + ")"
	case KList:
		return "[" + args() + "]"
	case KAppend:
		return "append(" + args() + ")"
	case KSpread:
		return args() + "..."
	case KLen:
		return "len(" + args() + ")"
	case KCap:
		return "cap(" + args() + ")"
	case KLookup:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KLookupOK:
		return t.Args[1].str(d+1) + " in " + t.Args[0].str(d+1)
	case KLoopVar:
		return "loopvar(" + shortSite(t.Op) + ")"
	case KStruct:
		return shortType(t.T) + "{" + args() + "}"
	case KTuple:
		return "(" + args() + ")"
	case KUnknown:
		return "?" + shortSite(t.Op)
	case KCtxErr:
		return "Err(" + args() + ")"
	case KStr:
		return "str(" + args() + ")"
	case KConv:
		return typeKey(t.T) + "(" + args() + ")"
	}
	return fmt.Sprintf("k%d(%s)", t.K, args())
}

func shortType(t types.Type) string {
	s := typeKey(t)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func shortSite(s string) string {
	if i := strings.LastIndex(s, ">"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (t *Term) fieldName() string {
	if v, ok := t.Ref.(*types.Var); ok && v != nil {
		return v.Name()
	}
	return strconv.Itoa(t.Idx)
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

// root returns the base of an address.
func (t *Term) root() *Term {
	for t.K == KFieldAddr || t.K == KIndexAddr {
		t = t.Args[0]
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
