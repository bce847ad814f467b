package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cycle detection: the worker walk asks here whether a stage was looked up among the ones the request has visited and
// was added to them.

// named is the model for rules about the names of stages: what reflection and the runtime tell about a function
// depends on the function alone.
func named(s *staged) func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
	str, bl, num := types.Typ[types.String], types.Typ[types.Bool], types.Typ[types.Int]
	return func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
		one := func(t *Term) []callOut { return []callOut{{st: st, res: t}} }
		switch name {
		case "reflect.ValueOf", "reflect.TypeOf":
			if x := unIface(args[0]); name == "reflect.ValueOf" && x.K == KPure && x.Op == "(reflect.Value).Interface" {
				return one(x.Args[0])
			}
			return one(mkPure(name, nil, unIface(args[0])))
		case "(reflect.Value).Kind":
			if isMethodFunc(args[0]) {
				return one(mkInt(19))
			}
			if v := args[0]; v.K == KPure && v.Op == "reflect.ValueOf" && v.Args[0].T != nil {
				if _, ok := v.Args[0].T.Underlying().(*types.Signature); ok {
					return one(mkInt(19)) // reflect.Func
				}
			}
			return one(mkPure(name, num, args...))
		case "(reflect.Type).Kind":
			return one(mkPure(name, num, args...))
		case "(reflect.Type).MethodByName":
			return one(mkTuple(mkPure(name, nil, args...), mkPure(name+".ok", bl, args...)))
		case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).Interface", "(reflect.Type).Elem",
			"(reflect.Value).MethodByName", "(reflect.Value).Type", "(reflect.Value).Elem":
			return one(mkPure(name, nil, args...))
		case "runtime.FuncForPC", "(*runtime.Func).Name":
			return one(mkPure(name, str, args...))
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "slices.Contains":
			return one(mkPure(name, bl, args...))
		case "slices.Index", "strings.LastIndex", "strings.Index":
			return one(mkPure(name, num, args...))
		case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimRight", "strings.TrimLeft", "strings.ReplaceAll", "strings.ToLower", "strings.ToUpper":
			return one(mkPure(name, str, args...))
		}
		return nil
	}
}

// isMethodFunc: the Func of a reflect.Method.
func isMethodFunc(t *Term) bool {
	return t.K == KField && t.Args[0].K == KPure && t.Args[0].Op == "(reflect.Type).MethodByName" && t.T != nil && strings.HasSuffix(t.T.String(), "reflect.Value")
}

// searches: the loop compares strings.
func searches(blocks map[*ssa.BasicBlock]bool) bool {
	for b := range blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) && (isStringType(x.X.Type()) || types.IsInterface(x.X.Type())) {
				return true
			}
			if x, ok := i.(*ssa.BinOp); ok && x.Op == token.EQL {
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					return true
				}
			}
		}
	}
	return false
}

// visitFact: a fact about what was visited.
func visitFact(t *Term) bool {
	if aboutCtx(t) {
		return true
	}
	if t.K == KBin && t.Op == "==" {
		for _, a := range t.Args {
			if _, _, ok := elemOf(a); ok {
				return true
			}
		}
	}
	if t.K == KBin && t.Op == "==" && t.Args[0].K == KPure && t.Args[0].Op == "(reflect.Type).Kind" {
		return true
	}
	return t.K == KPure && (t.Op == "slices.Contains" || t.Op == "(reflect.Type).MethodByName.ok") || t.K == KLookupOK || t.K == KLookup
}

// dagInfo is what the rules know about the detection of cycles.
type dagInfo struct {
	on    *Term // what is true when the DAG option was given
	cuts  map[string][]*Path
	gets  map[*Term]*Event // results of Pool.Get
	init  map[*Term]bool
	names bool // stages are told apart by the names of functions
}

func (s *staged) dagInfo() *dagInfo {
	c := s.c
	d := &dagInfo{cuts: map[string][]*Path{}, gets: map[*Term]*Event{}}
	var v *types.Var
	s.optionSets("DAG", func(f *types.Var, load, val *Term, args []*Term, at string) {
		c.ob(val == tTrue && (v == nil || v == f), "DAG sets one switch of the Pipelines", at, "%s becomes %s", f.Name(), val)
		v = f
	})
	c.need(v != nil, "role: DAG", "the DAG option changes the Pipelines")
	st := structOf(s.pipT)
	for i := 0; i < st.NumFields(); i++ {
		if fieldVar(s.pipT, i) != v {
			continue
		}
		d.on = s.base.heapVal(mkFieldAddr(s.base.Results[0], i, s.pipT))
	}
	for _, f := range c.L.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.Store); ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldVar(deref(fa.X.Type()), fa.Field).Origin() == v.Origin() {
						_, isC := x.Val.(*ssa.Const)
						opt := isC || strings.HasPrefix(topFn(f).Name(), "DAG")
						c.ob(opt, "only the DAG option switches the detection on", c.at(f), "%s is set at %s", v.Name(), c.L.pos(x))
						if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
							c.ob(strings.HasPrefix(topFn(f).Name(), "DAG"), "only the DAG option switches the detection on", c.at(f), "%s is set at %s", v.Name(), c.L.pos(x))
						}
					}
				}
			}
		}
	}
	for _, g := range s.workers {
		for _, b := range g.Bodies {
			for _, e := range b.Events {
				switch {
				case e.Kind == "cut":
					d.cuts[e.Name] = append(d.cuts[e.Name], b)
				case e.Kind == "call" && e.Name == "(*sync.Pool).Get":
					d.gets[e.Res[0]] = e
				}
			}
		}
	}
	for _, e := range d.gets {
		s.poolNew(e)
	}
	return d
}

func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f
}

// poolNew: what the pool makes is new each time.
func (s *staged) poolNew(get *Event) {
	c := s.c
	a := get.Args[0]
	if a.K != KGlobal {
		return
	}
	for _, f := range c.L.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				g, ok := fa.X.(*ssa.Global)
				if al, isA := fa.X.(*ssa.Alloc); isA {
					// a literal copied into the variable
					for _, r := range *al.Referrers() {
						u, isU := r.(*ssa.UnOp)
						if !isU || u.Referrers() == nil {
							continue
						}
						for _, r2 := range *u.Referrers() {
							if st, isS := r2.(*ssa.Store); isS && st.Val == ssa.Value(u) {
								if y, isG := st.Addr.(*ssa.Global); isG {
									g, ok = y, true
								}
							}
						}
					}
				}
				if !ok || a.Ref != any(g) {
					continue
				}
				fn, ok := x.Val.(*ssa.Function)
				if !ok {
					if mc, isC := x.Val.(*ssa.MakeClosure); isC {
						fn, ok = mc.Fn.(*ssa.Function)
					}
				}
				if !ok {
					continue
				}
				e := c.eng(Config{})
				for _, p := range e.Run(fn, e.params(fn), nil) {
					if p.Kind != OReturn {
						continue
					}
					r := unIface(p.Results[0])
					c.ob(r.K == KAlloc || r == tNil, "the pool makes a new object each time", c.at(fn), "it returns %s", r)
				}
			}
		}
	}
}

// dagOn: whether the path knows the option to be given.
func (w *walker) dagOn() (on, known bool) {
	t := w.s.norm(w.d.on)
	if b, ok := constBool(t); ok {
		return b, true
	}
	if b, ok := w.p.Facts.Eval(w.d.on); ok {
		return b, true
	}
	return w.p.Facts.Eval(t)
}

// possible: the facts of the path do not contradict what is known about values loops leave alone.
func (w *walker) possible(b *Path) bool {
	for f := b.Facts; f != nil; f = f.prev {
		t, v := f.t, f.v
		for t.K == KUn && t.Op == "!" {
			t, v = t.Args[0], !v
		}
		if t.K != KBin || t.Op != "==" || t.Args[1] != tNil {
			continue
		}
		if v && w.got(t.Args[0]) {
			return false // what the pool holds is not nil
		}
		n := w.s.norm(t.Args[0])
		if n == t.Args[0] {
			continue
		}
		if n.nonNil() && v || n == tNil && !v {
			return false
		}
		if n.K == KConst && isZeroTerm(n) && !v {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- searches

// absent: on the path the key was compared with all elements of the list and equals none.
func (w *walker) absent(list, key *Term, before []*Event) bool {
	p := w.p
	if v, ok := p.Facts.Eval(mkPure("slices.Contains", types.Typ[types.Bool], list, key)); ok && !v {
		return true
	}
	ix := mkPure("slices.Index", types.Typ[types.Int], list, key)
	for _, t := range []*Term{mkBin("<", ix, mkInt(0), nil), mkBin("==", ix, mkInt(-1), nil)} {
		if v, ok := p.Facts.Eval(t); ok && v {
			return true
		}
	}
	if v, ok := w.lookup(list, key); ok && !v {
		return true
	}
	for _, e := range before {
		if e.Kind != "loopexit" || p.trip(e.Name) == nil {
			continue
		}
		whole, found, known := w.search(e.Name, list, key)
		if whole && p.trip(e.Name) == mkLen(list) && (!known || !found) {
			return true
		}
	}
	return false
}

// lookup: what a map said about the key.
func (w *walker) lookup(m, key *Term) (found, known bool) {
	for f := w.p.Facts; f != nil; f = f.prev {
		t, v := f.t, f.v
		for t.K == KUn && t.Op == "!" {
			t, v = t.Args[0], !v
		}
		if (t.K == KLookupOK || t.K == KLookup) && len(t.Args) == 2 && t.Args[0] == m && t.Args[1] == key {
			return v, true
		}
	}
	return false, false
}

// search: the loop compares the key with every element of the list and goes on where they differ, or notes in a
// variable that they do not. found tells what that variable says on this path.
func (w *walker) search(loop string, list, key *Term) (whole, found, known bool) {
	s := w.s
	cuts := w.d.cuts[loop]
	if len(cuts) == 0 {
		return false, false, false
	}
	var flag *Term
	for _, q := range cuts {
		eq, cmp := false, false
		for f := q.Facts; f != nil; f = f.prev {
			t, v := f.t, f.v
			for t.K == KUn && t.Op == "!" {
				t, v = t.Args[0], !v
			}
			if t.K != KBin || t.Op != "==" {
				continue
			}
			for i := range t.Args {
				l, idx, ok := elemOf(t.Args[i])
				if !ok || l != list || t.Args[1-i] != key || s.countsUp(loop, idx) != "" && !s.countsDown(loop, idx, list) {
					continue
				}
				cmp, eq = true, v
			}
		}
		if !cmp {
			return false, false, false
		}
		var end *Event
		for _, e := range q.Events {
			if e.Kind == "cut" && e.Name == loop {
				end = e
			}
		}
		changed := (*Term)(nil)
		for j := 0; j+1 < len(end.Args); j += 2 {
			lv := s.lv(end.Args[j].Op)
			if lv == nil || len(lv.Init) != 1 {
				continue
			}
			b0, ok0 := constBool(lv.Init[0])
			b1, ok1 := constBool(end.Args[j+1])
			if ok0 && ok1 && b0 != b1 {
				changed = end.Args[j]
			}
		}
		if eq {
			if changed == nil || flag != nil && flag != changed {
				return false, false, false
			}
			flag = changed
		} else if changed != nil {
			return false, false, false
		}
	}
	if flag == nil {
		return true, false, false
	}
	lv := s.lv(flag.Op)
	b0, _ := constBool(lv.Init[0])
	v, ok := w.p.Facts.Eval(flag)
	if !ok {
		return false, false, false
	}
	return true, v != b0, true
}

// countsDown: the index runs from the last element down.
func (s *staged) countsDown(key string, idx, list *Term) bool {
	base, off := stripAdd(idx)
	lv := s.lv(base.Op)
	if base.K != KLoopVar || !strings.HasPrefix(base.Op, key+"/") || lv == nil || len(lv.Init) != 1 || len(lv.Back) != 1 {
		return false
	}
	if y, step := stripAdd(lv.Back[0]); y.K != KLoopVar || y.Op != base.Op || step != -1 {
		return false
	}
	b, o := stripAdd(lv.Init[0])
	return b == mkLen(list) && o+off == -1
}

// found: the path knows the key to equal an element of the list.
func (w *walker) found(key func(*Term) bool, e *Event, before []*Event) bool {
	for f := w.p.Facts; f != nil; f = f.prev {
		t, v := f.t, f.v
		for t.K == KUn && t.Op == "!" {
			t, v = t.Args[0], !v
		}
		switch {
		case t.K == KBin && t.Op == "==" && v:
			for i := range t.Args {
				if l, _, ok := elemOf(t.Args[i]); ok && key(t.Args[1-i]) && w.visited(l) {
					return true
				}
			}
		case t.K == KPure && t.Op == "slices.Contains" && v && key(t.Args[1]) && w.visited(t.Args[0]):
			return true
		case (t.K == KLookupOK || t.K == KLookup) && v && key(t.Args[1]) && w.visited(t.Args[0]):
			return true
		case t.K == KBin && t.Op == "<" && !v && t.Args[0].K == KPure && t.Args[0].Op == "slices.Index" && t.Args[1] == mkInt(0),
			t.K == KBin && t.Op == "==" && !v && t.Args[0].K == KPure && t.Args[0].Op == "slices.Index" && t.Args[1] == mkInt(-1):
			if x := t.Args[0]; key(x.Args[1]) && w.visited(x.Args[0]) {
				return true
			}
		}
	}
	for _, x := range before {
		if x.Kind != "loopexit" {
			continue
		}
		for _, q := range w.d.cuts[x.Name] {
			for f := q.Facts; f != nil; f = f.prev {
				if f.t.K != KBin || f.t.Op != "==" {
					continue
				}
				for i := range f.t.Args {
					l, _, ok := elemOf(f.t.Args[i])
					if !ok || !key(f.t.Args[1-i]) || !w.visited(l) {
						continue
					}
					if whole, found, known := w.search(x.Name, l, f.t.Args[1-i]); whole && known && found {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- what was visited

// visited: the list holds what this request has visited: it starts empty, grows by one at a time and belongs to the
// request.
func (w *walker) visited(list *Term) bool { return w.listWhy(list) == "" }

func (w *walker) listWhy(list *Term) string {
	if why, ok := w.lists[list]; ok {
		return why
	}
	w.lists[list] = "" // while looking
	why := w.listWhy1(list)
	w.lists[list] = why
	return why
}

func (w *walker) listWhy1(t *Term) string {
	s := w.s
	switch {
	case t == tNil || isZeroTerm(t):
		return ""
	case t.K == KMakeSlice:
		if t.Args[0] == mkInt(0) {
			return ""
		}
		return "it does not start empty"
	case t.K == KMakeMap:
		if strings.Contains(t.Op, "/go@") {
			return ""
		}
		return "it is shared"
	case t.K == KList:
		if len(t.Args) == 0 {
			return ""
		}
		return "it does not start empty"
	case t.K == KSlice:
		if t.Args[2] == mkInt(0) {
			return w.owned(t.Args[0], 0)
		}
		return "a part of it is taken"
	case t.K == KAppend:
		if len(t.Args) != 2 || t.Args[1].K == KSpread {
			return "it does not grow by the stage"
		}
		return w.listWhy(t.Args[0])
	case t.K == KHavoc && len(t.Args) > 1:
		return w.listWhy(t.Args[1])
	case t.K == KLoopVar:
		lv := s.lv(t.Op)
		if lv == nil {
			return "it is unknown"
		}
		for _, i := range lv.Init {
			if why := w.listWhy(i); why != "" {
				return why
			}
		}
		for _, b := range lv.Back {
			for b.K == KHavoc && len(b.Args) > 1 {
				b = b.Args[1]
			}
			if b.K == KAppend && len(b.Args) == 2 && b.Args[1].K != KSpread {
				b = b.Args[0]
			}
			if b.K == KLoopVar && b != t {
				// a loop within
				if in := s.lv(b.Op); in != nil && len(in.Init) == 1 {
					if why := w.listWhy(b); why != "" {
						return why
					}
					b = t
				}
			}
			if b != t {
				return "it is replaced while a request is processed"
			}
		}
		return ""
	}
	return "it does not start empty"
}

// got: a result of the pool.
func (w *walker) got(t *Term) bool {
	for len(t.Args) == 1 && w.d.gets[t] == nil {
		t = t.Args[0]
	}
	return w.d.gets[t] != nil
}

// owned: the memory belongs to this request alone.
func (w *walker) owned(t *Term, d int) string {
	if d > 12 {
		return "it is unknown whose it is"
	}
	switch t.K {
	case KConst:
		return ""
	case KAlloc:
		if strings.Contains(t.Op, "/go@") {
			return ""
		}
		return "it is shared"
	case KLoopVar:
		lv := w.s.lv(t.Op)
		if lv == nil {
			return "it is unknown whose it is"
		}
		if lv.Cell != nil && w.got(lv.Cell.root()) {
			return "" // in what the pool gave
		}
		for _, x := range append(append([]*Term{}, lv.Init...), lv.Back...) {
			if x != t {
				if why := w.owned(x, d+1); why != "" {
					return why
				}
			}
		}
		return ""
	case KParam, KGlobal, KFunc:
		return "it is shared"
	}
	if w.d.gets[t] != nil {
		return ""
	}
	n := 0
	for _, a := range t.Args {
		if a.K == KConst {
			continue
		}
		n++
		if t.K == KAppend && n > 1 {
			break
		}
		if why := w.owned(a, d+1); why != "" {
			return why
		}
	}
	if n == 0 {
		return "it is unknown whose it is"
	}
	return ""
}

// ---------------------------------------------------------------- keys

// trimmed removes what the compiler adds to the name of a method value.
func trimmed(t *Term) *Term {
	for t.K == KPure && t.Op == "strings.TrimSuffix" {
		s, ok := t.Args[1].strConst()
		if !ok || s != "-fm" && s != "[...]" {
			return t
		}
		t = t.Args[0]
	}
	return t
}

// codeOf is the function whose code a key tells.
func (w *walker) codeOf(t *Term) (x *Term, name bool) {
	t = trimmed(w.s.norm(t))
	if t.K == KPure && t.Op == "(*runtime.Func).Name" {
		t, name = t.Args[0], true
		if t.K != KPure || t.Op != "runtime.FuncForPC" {
			return nil, false
		}
		t = t.Args[0]
	}
	if t.K != KPure || t.Op != "(reflect.Value).Pointer" && t.Op != "(reflect.Value).UnsafePointer" {
		return nil, false
	}
	t = t.Args[0]
	if isMethodFunc(t) {
		return t, name
	}
	if t.K != KPure || t.Op != "reflect.ValueOf" {
		return nil, false
	}
	return t.Args[0], name
}

// isKey: t is the key of the stage to be run next.
func (w *walker) isKey(t *Term, c *pos) bool {
	if c.keys[t] {
		return true
	}
	x, name := w.codeOf(t)
	if x == nil {
		if n := w.s.norm(t); c.stage[tStart] && n.K == KConst && isStringType(n.T) {
			// where Start was not found, which cannot be
			for f := w.p.Facts; f != nil; f = f.prev {
				if y := f.t; !f.v && y.K == KPure && y.Op == "(reflect.Type).MethodByName.ok" && w.typeOfSM(y.Args[0]) != 0 && isStr(y.Args[1], "Start") {
					return true
				}
			}
		}
		return false
	}
	if name {
		w.d.names = true
	}
	if isMethodFunc(x) {
		// the method of the StateMachine's type
		m := x.Args[0]
		if !c.stage[tStart] || !isStr(m.Args[1], "Start") {
			return false
		}
		switch w.typeOfSM(m.Args[0]) {
		case 2: // of what it points to
			return true
		case 1:
			// the pointer's method has another name than the value's
			for f := w.p.Facts; f != nil; f = f.prev {
				t, v := f.t, f.v
				if t.K == KPure && t.Op == "(reflect.Type).MethodByName.ok" && !v && w.typeOfSM(t.Args[0]) == 2 {
					return true
				}
				if t.K == KBin && t.Op == "==" && !v && t.Args[0].K == KPure && t.Args[0].Op == "(reflect.Type).Kind" && w.typeOfSM(t.Args[0].Args[0]) == 1 && t.Args[1] == mkInt(22) {
					return true
				}
			}
		}
		return false
	}
	if w.isStart(x) {
		return false // the interface's method, which has another name
	}
	return w.inStage(x, c)
}

func isStr(t *Term, want string) bool {
	s, ok := t.strConst()
	return ok && s == want
}

// typeOfSM: 1 for the StateMachine's type, 2 for what it points to.
func (w *walker) typeOfSM(t *Term) int {
	t = w.s.norm(t)
	if t.K != KPure || len(t.Args) == 0 {
		return 0
	}
	switch t.Op {
	case "reflect.TypeOf":
		if w.isSM(t.Args[0]) {
			return 1
		}
	case "(reflect.Value).Type":
		if v := t.Args[0]; v.K == KPure && v.Op == "reflect.ValueOf" && w.isSM(v.Args[0]) {
			return 1
		}
	case "(reflect.Type).Elem":
		if w.typeOfSM(t.Args[0]) == 1 {
			return 2
		}
	}
	return 0
}

// ---------------------------------------------------------------- the walk

// note: a stage is added to what was visited.
func (w *walker) note(c *pos, list, key *Term, e *Event, before []*Event) {
	at := w.s.c.L.pos(e.Instr)
	why := w.listWhy(list)
	w.ob("C35", why == "", "what a request has visited is its own, from nothing on", "%s, at %s", why, at)
	k := w.isKey(key, c)
	w.ob("C35", k, "what is noted is the stage about to be entered, under the one name it always has", "%s at %s", key, at)
	abs := w.absent(list, key, before)
	w.ob("C35", abs, "a stage is noted when it was compared with all visited ones", "not known to differ from them at %s", at)
	if why == "" && k && abs {
		c.flag[flSeen] = true
	}
}

// noted handles events about visited stages.
func (w *walker) noted(c *pos, e *Event, before []*Event) {
	if w.d == nil || !c.on {
		return
	}
	switch e.Kind {
	case "store":
		if v := e.Args[1]; v.K == KAppend && len(v.Args) == 2 && v.Args[1].K != KSpread && w.keyLike(v.Args[1], c) {
			w.note(c, v.Args[0], v.Args[1], e, before)
		}
	case "mapset":
		if w.keyLike(e.Args[1], c) {
			w.note(c, e.Args[0], e.Args[1], e, before)
		}
	case "call":
		if e.Name == "(*sync.Pool).Put" {
			x := w.s.norm(unIface(e.Args[1]))
			w.ob("C35", x.nonNil() || w.got(x), "the pool gets no nil", "%s at %s", x, w.s.c.L.pos(e.Instr))
			w.ob("C35", !c.put, "an object is put back once", "again at %s", w.s.c.L.pos(e.Instr))
			c.put = true
		}
	}
}

func (w *walker) keyLike(t *Term, c *pos) bool {
	if x, _ := w.codeOf(t); x != nil {
		return true
	}
	return c.keys[t] || isStringType(t.T)
}

// notedArg: what was visited is kept in the Request itself.
func (w *walker) notedArg(c *pos, v *Term, e *Event, before []*Event) {
	if w.d == nil {
		return
	}
	for i := range c.f {
		x := w.s.field(v, i)
		if x.K == KAppend && len(x.Args) == 2 && !w.in(x, c.f[i]) && w.keyLike(x.Args[1], c) && w.inField(x.Args[0], c, i) {
			w.note(c, x.Args[0], x.Args[1], e, before)
		}
	}
}

func (w *walker) dagInvoke(c *pos, v *Term, e *Event, before []*Event) {
	if w.d == nil {
		return
	}
	at := w.s.c.L.pos(e.Instr)
	w.notedArg(c, v, e, before)
	on, known := w.dagOn()
	if !(c.flag[flSeen] || known && !on) {
		debugPath(at, w.p, before)
	}
	w.ob("C35", c.flag[flSeen] || known && !on, "with DAG a stage is looked up and noted before it or its pre-processors are called", "not at %s", at)
	w.ob("C35", !c.put || known && !on, "nothing is called once what was visited was given away", "called at %s", at)
}

func (w *walker) dagSend(c *pos, er *Term, cyc bool, e *Event, before []*Event) {
	if w.d == nil {
		return
	}
	at := w.s.c.L.pos(e.Instr)
	on, known := w.dagOn()
	f := w.found(func(t *Term) bool { return w.isKey(t, c) }, e, before)
	w.ob("C35", !cyc || on && known, "without DAG no request gets a cyclic error", "at %s", at)
	w.ob("C35", !cyc || f, "a cyclic error is given only to a request that comes back to a stage", "the stage is not known to be visited at %s", at)
	w.ob("C35", !f || cyc, "a request that comes back to a stage leaves with a cyclic error", "Err is %s at %s", er, at)
}

func rC35(s *staged) {
	c := s.c
	d := s.dagInfo()
	w := s.walkWith(d)
	_ = w
	c.ob(!d.names, "a stage has one name, wherever it is taken as a value", "stage names", "the name of the function value's code")
}

func init() {
	reg("C35", stagedProp(rC35), "On every path of a worker with the DAG option a stage and its pre-processors are called only after the stage's name was compared with all elements of a list that starts empty, belongs to the request and grows by each stage entered; a hit leads to the cyclic error and nothing else does.")
}
