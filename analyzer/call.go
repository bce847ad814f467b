package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function and arguments of a call. For interface calls the function
// is nil and the receiver is the first argument.
func (e *Engine) callee(fr *frame, st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(fr, c.Value))
		for _, a := range c.Args {
			args = append(args, e.val(fr, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return e.val(fr, c.Value), args
}

func (e *Engine) call(fr *frame, st *State, ins ssa.Instruction, fn *Term, args []*Term, com *ssa.CallCommon, rt types.Type) []callOut {
	return e.callTerm(fr, st, ins, fn, args, com, rt, e.site(fr, ins))
}

// callD runs a deferred call.
func (e *Engine) callD(fr *frame, st *State, ins ssa.Instruction, fn *Term, args []*Term, com *ssa.CallCommon, rt types.Type, k int) []callOut {
	return e.callTerm(fr, st, ins, fn, args, com, rt, e.site(fr, ins)+"/defer")
}

func sigResults(t types.Type) *types.Tuple {
	if s, ok := t.Underlying().(*types.Signature); ok {
		return s.Results()
	}
	return nil
}

// resultTerm makes unknown results for a call that is not inlined.
func resultTerm(site string, rt *types.Tuple) (*Term, []*Term) {
	if rt == nil || rt.Len() == 0 {
		return tNil, nil
	}
	var rs []*Term
	for i := 0; i < rt.Len(); i++ {
		rs = append(rs, mkRet(site, i, rt.At(i).Type()))
	}
	if len(rs) == 1 {
		return rs[0], rs
	}
	return mkTuple(rs...), rs
}

func pack(rs []*Term) *Term {
	if len(rs) == 1 {
		return rs[0]
	}
	return mkTuple(rs...)
}

// inModule reports functions whose bodies are analysed.
func (e *Engine) inModule(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, p := range []string{"bound method wrapper", "thunk for", "wrapper for"} {
		if strings.HasPrefix(fn.Synthetic, p) {
			return true
		}
	}
	if fn.Pkg != nil {
		return e.L.isModPkg(fn.Pkg.Pkg.Path())
	}
	// wrappers ($bound, thunks) and generic instances
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return e.L.isModPkg(fn.Object().Pkg().Path())
	}
	return fn.Synthetic != ""
}

func (e *Engine) onStack(fr *frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if o, ok := fn.Object().(*types.Func); ok {
		if strings.HasSuffix(fn.Name(), "$bound") || strings.HasSuffix(fn.Name(), "$thunk") {
			return fn.String()
		}
		return o.Origin().FullName()
	}
	return fn.String()
}

// callTerm calls a function value.
func (e *Engine) callTerm(fr *frame, st *State, ins ssa.Instruction, fn *Term, args []*Term, com *ssa.CallCommon, rt types.Type, site string) []callOut {
	if fn == nil {
		return e.invoke(fr, st, ins, args, com, site)
	}
	switch fn.K {
	case KBuiltin:
		return e.builtin(fr, st, ins, fn.Op, args, site, rt)
	case KFunc, KClosure:
		f := fn.Fn
		if o := f.Origin(); o != nil {
			f = o
		}
		return e.callFunc(fr, st, ins, f, fn, args, site)
	case KPure:
		if fn.Op == "cancelfunc" {
			st.ev(&Event{Kind: "cancel", Args: []*Term{fn.Args[0]}, Fn: fr.fn, Instr: ins, Site: site})
			st.assume(mkPure("cancelled", types.Typ[types.Bool], ctxRoot(fn.Args[0])), true)
			return []callOut{{st: st, res: tNil}}
		}
	}
	// unknown function value: user code
	var res *types.Tuple
	if com != nil {
		res = com.Signature().Results()
	} else if fn.T != nil {
		res = sigResults(fn.T)
	}
	r, rs := resultTerm(site, res)
	r, rs = e.carry(args, r, rs, res)
	st.ev(&Event{Kind: "invoke", Name: "", Args: append([]*Term{fn}, args...), Res: rs, Fn: fr.fn, Instr: ins, Site: site})
	seen := map[*Term]bool{}
	for _, a := range args {
		e.havoc(st, a, site, seen)
	}
	return []callOut{{st: st, res: r}}
}

// carry applies Config.Carry to the result of a user function.
func (e *Engine) carry(args []*Term, r *Term, rs []*Term, res *types.Tuple) (*Term, []*Term) {
	if e.cfg.Carry == nil || res == nil || res.Len() != 1 || len(rs) != 1 || structOf(res.At(0).Type()) == nil {
		return r, rs
	}
	t := res.At(0).Type()
	if !e.cfg.Carry(t) {
		return r, rs
	}
	for _, a := range args {
		if a.T == nil || !types.Identical(a.T, t) && !sameGeneric(a.T, t) {
			continue
		}
		s := structOf(t)
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = mkField(a, i, t)
			if s.Field(i).Exported() {
				fs[i] = mkField(rs[0], i, t)
			}
		}
		v := mkStruct(t, fs)
		return v, []*Term{v}
	}
	return r, rs
}

// sameGeneric: both are instances of one generic type, in code that is analysed for no particular type arguments.
func sameGeneric(a, b types.Type) bool {
	x, ok := a.(*types.Named)
	y, ok2 := b.(*types.Named)
	return ok && ok2 && x.Origin() == y.Origin()
}

// callFunc calls a known function.
func (e *Engine) callFunc(fr *frame, st *State, ins ssa.Instruction, f *ssa.Function, fn *Term, args []*Term, site string) []callOut {
	name := fullName(f)
	if e.cfg.Model != nil {
		if o := e.cfg.Model(e, fr, st, name, args, site, ins); o != nil {
			return o
		}
	}
	if e.inModule(f) && !(e.cfg.Opaque != nil && e.cfg.Opaque(f)) {
		if e.onStack(fr, f) || fr.depth > e.cfg.MaxDepth {
			e.Unsup["recursion or depth at "+name] = true
			r, rs := resultTerm(site, f.Signature.Results())
			st.ev(&Event{Kind: "call", Name: name, Args: args, Res: rs, Fn: fr.fn, Instr: ins, Site: site})
			return []callOut{{st: st, res: r}}
		}
		var bind []*Term
		if fn != nil && fn.K == KClosure {
			bind = fn.Args
		}
		outs := e.callFn(f, bind, args, st, fr, site)
		var res []callOut
		for _, o := range outs {
			res = append(res, callOut{st: o.st, res: pack(o.res), kind: o.kind, end: o.end})
		}
		return res
	}
	if o := e.model(fr, st, ins, f, name, args, site); o != nil {
		return o
	}
	r, rs := resultTerm(site, f.Signature.Results())
	if !purePkg(f) {
		st.ev(&Event{Kind: "call", Name: name, Args: args, Res: rs, Fn: fr.fn, Instr: ins, Site: site})
		seen := map[*Term]bool{}
		for _, a := range args {
			e.havoc(st, a, site, seen)
		}
	}
	return []callOut{{st: st, res: r}}
}

// purePkg: packages whose functions have no effect the rules look at.
func purePkg(f *ssa.Function) bool {
	var p string
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	switch p {
	case "fmt", "errors", "strings", "strconv", "time", "runtime", "reflect", "regexp", "math", "unicode", "unicode/utf8",
		"bytes", "log", "sort", "slices", "maps", "cmp", "path", "path/filepath", "internal/abi",
		"go.opentelemetry.io/otel/codes", "go.opentelemetry.io/otel/attribute", "go.opentelemetry.io/otel/trace",
		"github.com/go-json-experiment/json", "encoding/json", "github.com/gostdlib/internals/otel/span", "context":
		return true
	}
	return false
}

// invoke calls an interface method.
func (e *Engine) invoke(fr *frame, st *State, ins ssa.Instruction, args []*Term, com *ssa.CallCommon, site string) []callOut {
	recv := args[0]
	if recv.K == KIface {
		if f := e.L.Prog.LookupMethod(recv.T, com.Method.Pkg(), com.Method.Name()); f != nil {
			a := append([]*Term{recv.Args[0]}, args[1:]...)
			return e.callFunc(fr, st, ins, f, nil, a, site)
		}
	}
	name := com.Method.FullName()
	if e.cfg.Model != nil {
		if o := e.cfg.Model(e, fr, st, name, args, site, ins); o != nil {
			return o
		}
	}
	switch name {
	case "(context.Context).Done":
		return []callOut{{st: st, res: mkPure("ctxdone", com.Method.Type().(*types.Signature).Results().At(0).Type(), ctxRoot(recv))}}
	case "(context.Context).Err":
		return e.ctxErr(fr, st, ins, recv, site)
	case "(context.Context).Value", "(context.Context).Deadline":
		r, _ := resultTerm(site, com.Signature().Results())
		return []callOut{{st: st, res: r}}
	case "(error).Error":
		return []callOut{{st: st, res: mkPure("Error", types.Typ[types.String], recv)}}
	case "(go.opentelemetry.io/otel/trace.Span).IsRecording":
		return []callOut{{st: st, res: e.recording(st, recv)}}
	}
	if ai, ok := e.cfg.Async[name]; ok {
		return e.async(fr, st, ins, name, args, ai, com, site)
	}
	r, rs := resultTerm(site, com.Signature().Results())
	if strings.HasPrefix(name, "(go.opentelemetry.io/otel/trace.Span).") && !e.cfg.Spans {
		return []callOut{{st: st, res: r}}
	}
	r, rs = e.carry(args[1:], r, rs, com.Signature().Results())
	st.ev(&Event{Kind: "invoke", Name: name, Args: args, Res: rs, Fn: fr.fn, Instr: ins, Site: site})
	seen := map[*Term]bool{}
	for _, a := range args[1:] {
		e.havoc(st, a, site, seen)
	}
	return []callOut{{st: st, res: r}}
}

// async models an interface method that, if it returns nil, runs its function argument
// exactly once, with the Context it was given, and otherwise never.
func (e *Engine) async(fr *frame, st *State, ins ssa.Instruction, name string, args []*Term, ai [2]int, com *ssa.CallCommon, site string) []callOut {
	f, ctx := args[ai[0]], args[ai[1]]
	s2 := st.clone()
	bs, start := e.bodies(fr, st, site, f, []*Term{ctx}, nil)
	st.ev(&Event{Kind: "async", Name: name, Args: args, Res: []*Term{tNil}, Bodies: bs, Fn: fr.fn, Instr: ins, Site: site})
	e.absorb(st, bs, start, site)
	er := mkPure("newerr", com.Signature().Results().At(0).Type(), mkConst("submiterr:"+site, nil))
	s2.ev(&Event{Kind: "asyncerr", Name: name, Args: args, Res: []*Term{er}, Fn: fr.fn, Instr: ins, Site: site})
	return []callOut{{st: st, res: tNil}, {st: s2, res: er}}
}

// ctxErr forks on whether the context is cancelled.
func (e *Engine) ctxErr(fr *frame, st *State, ins ssa.Instruction, ctx *Term, site string) []callOut {
	r := ctxRoot(ctx)
	er := in.mk(Term{K: KCtxErr, Args: []*Term{r}}, "")
	ev := func(st *State, res *Term) {
		st.ev(&Event{Kind: "ctxerr", Args: []*Term{r}, Res: []*Term{res}, Fn: fr.fn, Instr: ins, Site: site})
	}
	if st.facts.cancelled(r) {
		ev(st, er)
		return []callOut{{st: st, res: er}}
	}
	s2 := st.clone()
	ev(st, er)
	ev(s2, tNil)
	st.assume(mkPure("cancelled", types.Typ[types.Bool], r), true)
	return []callOut{{st: st, res: er}, {st: s2, res: tNil}}
}

func (e *Engine) builtin(fr *frame, st *State, ins ssa.Instruction, name string, args []*Term, site string, rt types.Type) []callOut {
	one := func(t *Term) []callOut { return []callOut{{st: st, res: t}} }
	switch name {
	case "len":
		return one(mkLen(args[0]))
	case "cap":
		return one(mkCap(args[0]))
	case "append":
		base := args[0]
		t := base
		if len(args) == 2 {
			// ssa always passes a slice
			t = mkAppend(base, mkSpread(args[1]))
			if t.T == nil || t.T == types.Typ[types.UntypedNil] {
				t.T = rt
			}
		}
		return one(t)
	case "close":
		st.ev(&Event{Kind: "close", Args: args, Fn: fr.fn, Instr: ins, Site: site})
		return one(tNil)
	case "copy":
		st.ev(&Event{Kind: "copy", Args: args, Fn: fr.fn, Instr: ins, Site: site})
		return one(mkRet(site, 0, types.Typ[types.Int]))
	case "delete":
		st.ev(&Event{Kind: "mapdel", Args: args, Fn: fr.fn, Instr: ins, Site: site})
		return one(tNil)
	case "clear":
		st.ev(&Event{Kind: "clear", Args: args, Fn: fr.fn, Instr: ins, Site: site})
		return one(tNil)
	case "recover":
		return one(tNil)
	case "print", "println":
		return one(tNil)
	case "min", "max":
		return one(mkPure(name, rt, args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	e.Unsup["builtin "+name] = true
	return one(mkUnknown(site, rt))
}

var fmtVerb = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`)

// fmtArgs returns the variadic arguments of a formatting call if they are known.
func listArgs(t *Term) ([]*Term, bool) {
	switch t.K {
	case KList:
		for _, a := range t.Args {
			if a.K == KSpread {
				return nil, false
			}
		}
		return t.Args, true
	case KConst:
		return nil, true
	}
	return nil, false
}

func unIface(t *Term) *Term {
	if t.K == KIface && len(t.Args) == 1 {
		return t.Args[0]
	}
	return t
}

// model gives the effect of functions outside the module.
func (e *Engine) model(fr *frame, st *State, ins ssa.Instruction, f *ssa.Function, name string, args []*Term, site string) []callOut {
	one := func(t *Term) []callOut { return []callOut{{st: st, res: t}} }
	ev := func(kind string, as []*Term, rs ...*Term) {
		st.ev(&Event{Kind: kind, Name: name, Args: as, Res: rs, Fn: fr.fn, Instr: ins, Site: site, Blocking: kind == "wg.wait" || kind == "sleep"})
	}
	bt := types.Typ[types.Bool]
	switch name {
	case "time.AfterFunc", "context.AfterFunc":
		// the function runs on a goroutine of its own, if at all
		if len(args) == 2 {
			bs, start := e.bodies(fr, st, site, args[1], nil, nil)
			st.ev(&Event{Kind: "go", Name: name, Args: []*Term{args[1]}, Bodies: bs, Fn: fr.fn, Instr: ins, Site: site})
			e.absorb(st, bs, start, site)
			r, _ := resultTerm(site, f.Signature.Results())
			return one(r)
		}
	case "(*sync.WaitGroup).Add":
		ev("wg.add", args)
		return one(tNil)
	case "(*sync.WaitGroup).Done":
		ev("wg.add", []*Term{args[0], mkInt(-1)})
		return one(tNil)
	case "(*sync.WaitGroup).Wait":
		ev("wg.wait", args)
		return one(tNil)
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		ev("lock", args)
		return one(tNil)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		ev("unlock", args)
		return one(tNil)
	case "(*sync.RWMutex).RLock":
		ev("rlock", args)
		return one(tNil)
	case "(*sync.RWMutex).RUnlock":
		ev("runlock", args)
		return one(tNil)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		s2 := st.clone()
		k := "lock"
		if strings.HasSuffix(name, "TryRLock") {
			k = "rlock"
		}
		ev(k, args)
		return []callOut{{st: st, res: tTrue}, {st: s2, res: tFalse}}
	case "(*sync.Once).Do":
		s2 := st.clone()
		s2.ev(&Event{Kind: "once.skip", Args: args[:1], Fn: fr.fn, Instr: ins, Site: site})
		ev("once.run", args[:1])
		outs := e.callTerm(fr, st, ins, args[1], nil, nil, nil, site+"/once")
		for i := range outs {
			outs[i].res = tNil
			if e.cfg.OnceEnd {
				outs[i].st.ev(&Event{Kind: "once.end", Args: args[:1], Fn: fr.fn, Instr: ins, Site: site})
			}
		}
		return append(outs, callOut{st: s2, res: tNil})
	case "errors.New":
		return one(mkPure("newerr", f.Signature.Results().At(0).Type(), args[0], mkConst("site:"+site, nil)))
	case "fmt.Errorf":
		as := []*Term{mkConst("site:"+site, nil)}
		if fs, ok := args[0].strConst(); ok {
			if la, ok := listArgs(args[1]); ok {
				i := 0
				for _, v := range fmtVerb.FindAllString(fs, -1) {
					if v == "%%" {
						continue
					}
					if i < len(la) && strings.HasSuffix(v, "w") {
						as = append(as, unIfaceErr(la[i]))
					}
					i++
				}
			}
		}
		return one(mkPure("newerr", f.Signature.Results().At(0).Type(), as...))
	case "errors.Join":
		if la, ok := listArgs(args[0]); ok {
			op := "join"
			for _, a := range la {
				if st.facts.nonNil(a) {
					op = "join2"
				}
			}
			return one(mkPure(op, f.Signature.Results().At(0).Type(), la...))
		}
		return one(mkPure("join", f.Signature.Results().At(0).Type(), args...))
	case "errors.Is":
		return one(mkPure("errors.Is", bt, args...))
	case "time.Sleep":
		ev("sleep", args)
		return one(tNil)
	case "runtime.Gosched":
		return one(tNil)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
		ev("exit", args)
		return []callOut{{st: st, kind: OExit}}
	case "log.Panicf", "log.Panic", "log.Panicln":
		ev("panic", args)
		return []callOut{{st: st, kind: OPanic}}
	case "context.Background", "context.TODO":
		return one(mkPure("ctxbackground", f.Signature.Results().At(0).Type()))
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "context.WithTimeoutCause", "context.WithDeadlineCause":
		c := mkPure("withcancel", f.Signature.Results().At(0).Type(), args[0], mkConst("site:"+site, nil), mkConst(name, nil))
		return one(mkTuple(c, mkPure("cancelfunc", f.Signature.Results().At(1).Type(), c)))
	case "context.WithoutCancel":
		return one(mkPure("withoutcancel", f.Signature.Results().At(0).Type(), args[0]))
	case "context.WithValue":
		return one(mkPure("valuectx", f.Signature.Results().At(0).Type(), args[0], mkConst("site:"+site, nil)))
	case "go.opentelemetry.io/otel/trace.ContextWithSpan":
		return one(mkPure("valuectx", f.Signature.Results().At(0).Type(), args[0], mkConst("withspan", nil), args[1]))
	case "github.com/gostdlib/internals/otel/span.New":
		stt := f.Signature.Results().At(1).Type()
		ct := f.Signature.Results().At(0).Type()
		start := func(st *State) callOut {
			c := mkPure("valuectx", ct, args[0], mkConst("newspan:"+site, nil))
			sp := e.spanOf(c)
			if e.cfg.Spans {
				st.ev(&Event{Kind: "span.new", Args: args, Res: []*Term{c, sp}, Fn: fr.fn, Instr: ins, Site: site})
			}
			return callOut{st: st, res: mkTuple(c, mkStruct(stt, []*Term{sp}))}
		}
		if !e.cfg.Spans || e.cfg.Recording != nil {
			return []callOut{start(st)}
		}
		// a new span if the one of the Context is recording, else that one
		sp := e.spanOf(args[0])
		same := func(st *State) callOut {
			return callOut{st: st, res: mkTuple(args[0], mkStruct(stt, []*Term{sp}))}
		}
		r := e.recording(st, sp)
		if v, ok := st.facts.Eval(r); ok {
			if v {
				return []callOut{start(st)}
			}
			return []callOut{same(st)}
		}
		s2 := st.clone()
		st.assume(r, true)
		s2.assume(r, false)
		return []callOut{start(st), same(s2)}
	case "github.com/gostdlib/internals/otel/span.Get":
		return one(mkStruct(f.Signature.Results().At(0).Type(), []*Term{e.spanOf(args[0])}))
	case "go.opentelemetry.io/otel/trace.SpanFromContext":
		return one(e.spanOf(args[0]))
	case "(github.com/gostdlib/internals/otel/span.Span).IsRecording":
		return one(e.recording(st, mkField(args[0], 0, f.Signature.Recv().Type())))
	case "(github.com/gostdlib/internals/otel/span.Span).End", "(github.com/gostdlib/internals/otel/span.Span).Event",
		"(github.com/gostdlib/internals/otel/span.Span).Error", "(github.com/gostdlib/internals/otel/span.Span).Status":
		if e.cfg.Spans {
			ev("span."+f.Name(), append([]*Term{mkField(args[0], 0, f.Signature.Recv().Type())}, args[1:]...))
		}
		r, _ := resultTerm(site, f.Signature.Results())
		return one(r)
	case "strings.Split":
		if o := strSplit(args[0], args[1]); o != nil {
			return one(o)
		}
	case "strings.Cut":
		if o := strSplit(args[0], args[1]); o != nil {
			if len(o.Args) == 1 {
				return one(mkTuple(o.Args[0], mkStr(""), tFalse))
			}
			if len(o.Args) == 2 {
				return one(mkTuple(o.Args[0], o.Args[1], tTrue))
			}
		}
	case "strings.SplitN":
		if n, ok := args[2].intConst(); ok && n >= 2 {
			if o := strSplit(args[0], args[1]); o != nil && int64(len(o.Args)) <= n {
				return one(o)
			}
		}
	case "strings.LastIndex", "strings.Index", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
		if o := strSplit(args[0], args[1]); o != nil {
			if len(o.Args) == 1 {
				return one(mkInt(-1))
			}
			if len(o.Args) == 2 {
				return one(mkLen(o.Args[0]))
			}
		}
	case "strings.Join":
		if la, ok := listArgs(args[0]); ok {
			var ts []*Term
			for i, a := range la {
				if i > 0 {
					ts = append(ts, args[1])
				}
				ts = append(ts, a)
			}
			return one(mkConcat(ts...))
		}
	case "strings.ContainsAny", "strings.IndexAny":
		any := f.Name() == "ContainsAny"
		if cs, ok := args[1].strConst(); ok {
			v, known := someChar(args[0], func(r rune) bool { return strings.ContainsRune(cs, r) }, strings.IndexFunc(cs, func(r rune) bool { return !forbiddenRune(r) }) < 0)
			if known && any {
				return one(mkBool(v))
			}
			if known && !v {
				return one(mkInt(-1))
			}
			if any {
				return one(mkPure("containsAny", types.Typ[types.Bool], args[0], args[1]))
			}
			return one(mkPure("indexAny", types.Typ[types.Int], args[0], args[1]))
		}
	case "strings.Contains", "strings.ContainsRune":
		if o := strSplit(args[0], args[1]); o != nil {
			return one(mkBool(len(o.Args) > 1))
		}
	case "strconv.Itoa", "strconv.FormatInt":
		return one(mkPure("itoa", types.Typ[types.String], args[0]))
	case "strconv.Atoi":
		if args[0].K == KPure && args[0].Op == "itoa" {
			return one(mkTuple(args[0].Args[0], tNil))
		}
		if s, ok := args[0].strConst(); ok {
			if n, err := strconv.Atoi(s); err == nil {
				return one(mkTuple(mkInt(int64(n)), tNil))
			}
		}
	case "fmt.Sprintf":
		if t := sprintf(args[0], args[1]); t != nil {
			return one(t)
		}
		return one(mkPure("sprintf", types.Typ[types.String], mkConst("site:"+site, nil)))
	case "fmt.Sprint":
		if la, ok := listArgs(args[0]); ok && len(la) == 1 {
			if t := verbArg(la[0]); t != nil {
				return one(t)
			}
		}
	case "(*regexp.Regexp).MatchString":
		return one(e.matchString(args[0], args[1]))
	case "slices.Clone":
		return one(mkAppend(tNil, mkSpread(args[0])))
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		return e.atomic(fr, st, ins, f, name, args, site)
	}
	return nil
}

// spanOf is the span a Context carries.
func (e *Engine) spanOf(ctx *Term) *Term {
	c := ctx
	for {
		switch {
		case c.K == KIface && len(c.Args) == 1:
			c = c.Args[0]
			continue
		case c.K == KPure && (c.Op == "withcancel" || c.Op == "withoutcancel"):
			c = c.Args[0]
			continue
		case c.K == KPure && c.Op == "valuectx":
			if len(c.Args) == 3 {
				return c.Args[2]
			}
			if tag := c.Args[1]; strings.HasPrefix(tag.Op, "newspan:") {
				return mkPure("newspan", nil, tag, c.Args[0])
			}
			c = c.Args[0]
			continue
		}
		break
	}
	if e.cfg.SpanOf != nil {
		if t := e.cfg.SpanOf(c); t != nil {
			return t
		}
	}
	return mkPure("spanof", nil, c)
}

// recording: whether the span records, which it does no more once it has been ended.
func (e *Engine) recording(st *State, span *Term) *Term {
	if e.cfg.Recording != nil {
		return e.cfg.Recording
	}
	if span == tNil {
		return tFalse
	}
	if e.cfg.Spans {
		for t := st.trace; t != nil; t = t.prev {
			if isEnd(t.ev) && t.ev.Args[0] == span {
				return tFalse
			}
		}
	}
	return mkPure("recording", types.Typ[types.Bool], span)
}

// isEnd: the event ends a span.
func isEnd(e *Event) bool {
	return e.Kind == "span.End" || e.Kind == "invoke" && e.Name == "(go.opentelemetry.io/otel/trace.Span).End"
}

func unIfaceErr(t *Term) *Term {
	// an error passed as any
	return unIface(t)
}

func (e *Engine) atomic(fr *frame, st *State, ins ssa.Instruction, f *ssa.Function, name string, args []*Term, site string) []callOut {
	m := f.Name()
	op := ""
	for _, o := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap", "And", "Or"} {
		if strings.HasPrefix(m, o) {
			op = o
			break
		}
	}
	mkEv := func(st *State, kind string, rs ...*Term) {
		st.ev(&Event{Kind: kind, Name: name, Args: args, Res: rs, Fn: fr.fn, Instr: ins, Site: site})
	}
	var rt types.Type
	if f.Signature.Results().Len() > 0 {
		rt = f.Signature.Results().At(0).Type()
	}
	r := mkPure("atomic", rt, args[0], mkConst("site:"+site, nil))
	switch op {
	case "Load":
		mkEv(st, "atomic.load", r)
		return []callOut{{st: st, res: r}}
	case "Store":
		mkEv(st, "atomic.store")
		return []callOut{{st: st, res: tNil}}
	case "Add":
		mkEv(st, "atomic.add", r)
		return []callOut{{st: st, res: r}}
	case "Swap":
		mkEv(st, "atomic.swap", r)
		return []callOut{{st: st, res: r}}
	case "CompareAndSwap":
		s2 := st.clone()
		mkEv(st, "atomic.cas", tTrue)
		mkEv(s2, "atomic.cas", tFalse)
		return []callOut{{st: st, res: tTrue}, {st: s2, res: tFalse}}
	}
	mkEv(st, "atomic.other", r)
	return []callOut{{st: st, res: r}}
}

// ---------------------------------------------------------------- abstract strings

// A base string is a parameter term marked "base:": it contains no digit, hyphen or space.
func isBase(t *Term) bool { return t.K == KParam && strings.HasPrefix(t.Op, "base:") }

func isNum(t *Term) bool { return t.K == KPure && t.Op == "itoa" }

// pieces returns the parts of an abstract string made of constants, base strings and
// non-negative numbers, or nil.
func pieces(t *Term) []*Term {
	ps := []*Term{t}
	if t.K == KStr {
		ps = t.Args
	}
	for _, p := range ps {
		if _, ok := p.strConst(); ok || isBase(p) || isNum(p) {
			continue
		}
		return nil
	}
	return ps
}

// strSlice is part of an abstract string, if its ends lie where that is known.
func strSlice(t, lo, hi *Term) *Term {
	ps := pieces(t)
	if ps == nil {
		return nil
	}
	var cut func(at *Term) (n, off int)
	cut = func(at *Term) (int, int) { // the piece and the byte of a constant piece where at is
		var sum *Term = mkInt(0)
		for i, p := range ps {
			if sum == at {
				return i, 0
			}
			if c, ok := p.strConst(); ok {
				for k := 1; k < len(c); k++ {
					if mkBin("+", sum, mkInt(int64(k)), types.Typ[types.Int]) == at {
						return i, k
					}
				}
				sum = mkBin("+", sum, mkInt(int64(len(c))), types.Typ[types.Int])
			} else if z, ok := sum.intConst(); ok && z == 0 {
				sum = mkLen(p)
			} else {
				sum = mkBin("+", sum, mkLen(p), types.Typ[types.Int])
			}
		}
		if sum == at || at == mkLen(t) {
			return len(ps), 0
		}
		return -1, 0
	}
	a, ao, b, bo := 0, 0, len(ps), 0
	none := mkConst("-", nil)
	if lo != none {
		a, ao = cut(lo)
	}
	if hi != none {
		b, bo = cut(hi)
	}
	if a < 0 || b < 0 || a > b || a == b && ao > bo {
		return nil
	}
	var out []*Term
	for i := a; i <= b && i < len(ps); i++ {
		c, ok := ps[i].strConst()
		if !ok {
			if i < b {
				out = append(out, ps[i])
			}
			continue
		}
		f, u := 0, len(c)
		if i == a {
			f = ao
		}
		if i == b {
			u = bo
		}
		out = append(out, mkStr(c[f:u]))
	}
	return mkConcat(out...)
}

// strSplit splits an abstract string at a constant separator of hyphens.
func strSplit(t, sep *Term) *Term {
	s, ok := sep.strConst()
	if !ok {
		if c, ok := sep.intConst(); ok { // byte
			s = string(rune(c))
		} else {
			return nil
		}
	}
	if s != "-" {
		return nil
	}
	ps := pieces(t)
	if ps == nil {
		return nil
	}
	var parts []*Term
	cur := []*Term{}
	for _, p := range ps {
		c, ok := p.strConst()
		if !ok {
			cur = append(cur, p)
			continue
		}
		fs := strings.Split(c, s)
		for i, f := range fs {
			if i > 0 {
				parts = append(parts, mkConcat(cur...))
				cur = nil
			}
			cur = append(cur, mkStr(f))
		}
	}
	parts = append(parts, mkConcat(cur...))
	return in.mk(Term{K: KList, Args: parts}, "")
}

func verbArg(a *Term) *Term {
	if a.K == KIface && len(a.Args) == 1 {
		if isStringType(a.T) {
			return a.Args[0]
		}
		if numeric(a.T) {
			if c, ok := a.Args[0].intConst(); ok {
				return mkStr(strconv.FormatInt(c, 10))
			}
			return mkPure("itoa", types.Typ[types.String], a.Args[0])
		}
	}
	return nil
}

func sprintf(format, list *Term) *Term {
	fs, ok := format.strConst()
	if !ok {
		return nil
	}
	la, ok := listArgs(list)
	if !ok {
		return nil
	}
	var parts []*Term
	i := 0
	for len(fs) > 0 {
		loc := fmtVerb.FindStringIndex(fs)
		if loc == nil {
			parts = append(parts, mkStr(fs))
			break
		}
		parts = append(parts, mkStr(fs[:loc[0]]))
		v := fs[loc[0]:loc[1]]
		fs = fs[loc[1]:]
		if v == "%%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if v != "%s" && v != "%d" && v != "%v" || i >= len(la) {
			return nil
		}
		t := verbArg(la[i])
		i++
		if t == nil {
			return nil
		}
		parts = append(parts, t)
	}
	return mkConcat(parts...)
}

// matchString decides a regular expression on an abstract string if it is a class of
// single characters.
func (e *Engine) matchString(re, s *Term) *Term {
	unk := mkPure("match", types.Typ[types.Bool], re, s)
	pat, ok := e.L.regexpOf(re)
	if !ok {
		return unk
	}
	r, err := regexp.Compile(pat)
	if err != nil {
		return unk
	}
	if !charClass(pat) {
		return unk
	}
	if v, ok := someChar(s, func(c rune) bool { return r.MatchString(string(c)) }, subsetOfForbidden(pat)); ok {
		return mkBool(v)
	}
	return unk
}

// someChar: whether a character of an abstract string is one of a class; sub: the class has only characters that no
// base name has.
func someChar(s *Term, is func(rune) bool, sub bool) (val, known bool) {
	ps := pieces(s)
	if ps == nil {
		return false, false
	}
	undecided := false
	for _, p := range ps {
		if c, ok := p.strConst(); ok {
			if strings.IndexFunc(c, is) >= 0 {
				return true, true
			}
			continue
		}
		if isNum(p) {
			all, some := true, is('-')
			for d := '0'; d <= '9'; d++ {
				all = all && is(d)
				some = some || is(d)
			}
			if all {
				return true, true
			}
			undecided = undecided || some
			continue
		}
		undecided = undecided || !sub
	}
	return false, !undecided
}

func (e *Engine) unsup() []string {
	var s []string
	for k := range e.Unsup {
		s = append(s, k)
	}
	return s
}

var _ = fmt.Sprint
