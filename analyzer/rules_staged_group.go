package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- numbers drawn from a counter

// wrap64 reads an integer constant, large unsigned ones as the negative number they add.
func wrap64(t *Term) (int64, bool) {
	if n, ok := t.intConst(); ok {
		return n, true
	}
	if t.K != KConst {
		return 0, false
	}
	b, ok := new(big.Int).SetString(t.Op, 10)
	if !ok || !b.IsUint64() {
		return 0, false
	}
	return int64(b.Uint64()), true
}

// ticket is a number drawn from a counter.
type ticket struct {
	cell   *Term
	cellV  *types.Var
	rel    int64 // the number relative to the counter's value when the path began
	net    int64 // what the counter is changed by in the end
	atomic bool
	split  bool // read in one step and counted in another
	ops    []*Event
}

// drawn finds the counter a number comes from. why is what is wrong with it.
func (s *staged) drawn(p *Path, v *Term) (t *ticket, why string) {
	base, off := stripAdd(v)
	t = &ticket{}
	for _, e := range p.Events {
		if e.Kind == "atomic.add" && len(e.Res) == 1 {
			b, o := stripAdd(e.Res[0])
			if b == base {
				t.cell, t.atomic, off = e.Args[0], true, off-o
			}
		}
	}
	if !t.atomic {
		sum := map[*Term]int64{}
		for _, e := range p.Events {
			switch {
			case e.Kind == "atomic.add":
				d, ok := wrap64(e.Args[1])
				if !ok {
					return nil, "the counter is changed by an unknown amount"
				}
				sum[e.Args[0]] += d
			case e.Kind == "atomic.load" && len(e.Res) == 1 && e.Res[0] == base:
				t.cell, t.atomic, t.split, t.rel = e.Args[0], true, true, off+sum[e.Args[0]]
			}
		}
	}
	if !t.atomic {
		if base.K != KLoad {
			return nil, "it is not drawn from a counter"
		}
		t.cell, t.rel = base.Args[0], off
		end, net := stripAdd(p.heapVal(t.cell))
		if end != base {
			return nil, "the counter is not counted"
		}
		t.net = net
	}
	v2, ok := t.cell.Ref.(*types.Var)
	if t.cell.K != KFieldAddr || !ok {
		return nil, "the counter is not a field"
	}
	t.cellV = v2
	sum := int64(0)
	for _, e := range p.Events {
		if !strings.HasPrefix(e.Kind, "atomic.") || len(e.Args) == 0 || e.Args[0] != t.cell {
			continue
		}
		if e.Kind != "atomic.add" {
			if e.Kind != "atomic.load" {
				return nil, "the counter is changed by other means than adding"
			}
			continue
		}
		d, ok := wrap64(e.Args[1])
		if !ok {
			return nil, "the counter is changed by an unknown amount"
		}
		sum += d
		t.ops = append(t.ops, e)
		if b, o := stripAdd(e.Res[0]); b == base && !t.split {
			t.rel = sum - o + off + o
		}
	}
	if t.atomic {
		t.net = sum
	}
	return t, ""
}

// netOf is what a path changes a counter by.
func (s *staged) netOf(p *Path, cell *Term, atomic bool) (int64, bool) {
	if !atomic {
		b, n := stripAdd(p.heapVal(cell))
		return n, b == mkLoad(cell)
	}
	n := int64(0)
	for _, e := range allEvs(p.Events, "atomic.add") {
		if e.Args[0] == cell {
			d, ok := wrap64(e.Args[1])
			if !ok {
				return 0, false
			}
			n += d
		}
	}
	return n, true
}

// counterOnly: besides the given functions nothing but reads the counter, and atomics are only added to or read.
func (s *staged) counterOnly(v *types.Var, what string, roots ...*ssa.Function) {
	c := s.c
	for _, f := range c.L.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || fieldVar(deref(fa.X.Type()), fa.Field) != v || fa.Referrers() == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					ok := false
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						ok = true
					case *ssa.Store:
						ok = r.Addr == ssa.Value(fa) && c.L.onlyFrom(f, roots...)
					case ssa.CallInstruction:
						if g := r.Common().StaticCallee(); g != nil && len(r.Common().Args) > 0 && r.Common().Args[0] == ssa.Value(fa) {
							n := g.Name()
							ok = strings.HasPrefix(n, "Load") || strings.HasPrefix(n, "Add") && c.L.onlyFrom(f, roots...)
						}
					}
					c.ob(ok, what, c.at(f), "%s is used otherwise at %s", v.Name(), c.L.pos(r))
				}
			}
		}
	}
}

// ---------------------------------------------------------------- ordered groups

// unordered: what the path of Submit knows about the group excludes that its output is ordered.
func (s *staged) unordered(p *Path) bool {
	for _, fw := range s.fwd {
		if fw.order == nil {
			continue
		}
		if !s.excluded(p, fw) {
			return false
		}
	}
	return true
}

func (s *staged) excluded(p *Path, fw *forwarder) bool {
	G := fw.p.Results[0]
	for f := p.Facts; f != nil; f = f.prev {
		t, v := f.t, f.v
		for t.K == KUn && t.Op == "!" {
			t, v = t.Args[0], !v
		}
		// a field of the group compared with nil, or a boolean one
		cmp := t
		if t.K == KBin && t.Op == "==" && len(t.Args) == 2 && t.Args[1] == tNil {
			cmp = t.Args[0]
		}
		if cmp.K != KLoad && cmp.K != KParam {
			continue
		}
		n := s.sym(cmp)
		switch {
		case strings.HasPrefix(n, "G.") && strings.HasSuffix(n, "*") && strings.Count(n, "*") == 1:
			val := fw.p.heapVal(s.groupField(G, n))
			if t != cmp {
				if v && (val == fw.order.Res[0] || val.nonNil() || fw.p.Facts.nonNil(val)) {
					return true
				}
				if !v && (val == tNil || fw.p.Facts.isNil(val)) {
					return true
				}
				continue
			}
			b, known := constBool(val)
			if !known {
				b, known = fw.p.Facts.Eval(val)
			}
			if known && b != v {
				return true
			}
		case strings.HasPrefix(n, "P.") && t == cmp:
			for g := fw.p.Facts; g != nil; g = g.prev {
				if s.sym(g.t) == n && g.v != v {
					return true
				}
			}
		}
	}
	return false
}

// orderNumbers checks the numbers ordered output is sorted by.
func (s *staged) orderNumbers(tag string) {
	c := s.c
	c.need(s.k >= 0, "role: order", "a group can order its output")
	var cell *Term
	var cv *types.Var
	atomic := false
	type acc struct {
		p  *Path
		t  *ticket
		ok bool
		at string
	}
	var todo []acc
	s.submits(func(p *Path, sent *Event, ok bool, at string) {
		if s.unordered(p) {
			return
		}
		if sent == nil {
			todo = append(todo, acc{p, nil, ok, at})
			return
		}
		t, why := s.drawn(p, s.field(sent.Args[1], s.k))
		if !c.ob(t != nil, "the order number is drawn from the group's counter", at, "%s", orOK(why)) {
			return
		}
		c.ob(strings.HasPrefix(s.sym(t.cell), "G."), "the counter belongs to the group", at, "it is %s", s.sym(t.cell))
		c.ob(cv == nil || cv == t.cellV, "one counter numbers the requests of a group", at, "also %s", s.sym(t.cell))
		cell, cv, atomic = t.cell, t.cellV, t.atomic
		todo = append(todo, acc{p, t, ok, at})
	})
	c.need(cell != nil, "role: order", "an ordered Submit draws a number")
	for _, a := range todo {
		n, ok := s.netOf(a.p, cell, atomic)
		if a.t == nil {
			c.ob(ok && n == 0, "a refused request leaves no gap in the numbers", a.at, "the counter changes by %+d", n)
		} else {
			c.ob(ok && n == 1, "an accepted request takes one number", a.at, "the counter changes by %+d", n)
			c.ob(a.t.rel == 0, "numbers are given out without gaps from 0", a.at, "the number is the counter's value %+d", a.t.rel)
		}
		// one hold of one lock from the counter's first use to its last, and over the send
		var first, last int = -1, -1
		for i, e := range a.p.Events {
			use := e.Kind == "send" && s.sym(e.Args[0]) == s.in || strings.HasPrefix(e.Kind, "atomic.") && len(e.Args) > 0 && e.Args[0] == cell ||
				(e.Kind == "store" || e.Kind == "load") && len(e.Args) > 0 && e.Args[0] == cell
			if use {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		if first < 0 {
			continue
		}
		var lk *Term
		for i, e := range a.p.Events {
			if e.Kind == "lock" && i < first {
				held := true
				for j := i + 1; j <= last; j++ {
					if x := a.p.Events[j]; x.Kind == "unlock" && x.Args[0] == e.Args[0] {
						held = false
					}
				}
				if held && strings.HasPrefix(s.sym(e.Args[0]), "G.") {
					lk = e.Args[0]
				}
			}
		}
		c.ob(lk != nil, "numbering a request and handing it over, or giving the number back, is one step for other Submits", a.at, "no lock of the group is held from the first use of the counter to the last")
	}
	roots := []*ssa.Function{s.subF}
	s.counterOnly(cv, "only Submit changes the order counter", roots...)
	for _, fw := range s.fwd {
		if fw.order == nil {
			continue
		}
		a := s.groupField(fw.p.Results[0], s.sym(cell))
		v := fw.p.heapVal(a)
		n, ok := wrap64(v)
		c.ob(ok && n == 0 || isZeroTerm(v), "numbering starts at 0", c.pathAt(s.nrgF, fw.p), "the counter starts as %s", v)
	}
}

// optionSets runs an option constructor and visits the fields of the Pipelines it changes.
func (s *staged) optionSets(name string, f func(v *types.Var, load, val *Term, args []*Term, at string)) {
	c := s.c
	opt := c.fn(relStaged, name)
	e := c.eng(s.cfg())
	args, ps := c.run(e, opt)
	for _, p := range ps {
		at := c.pathAt(opt, p)
		if p.Kind != OReturn || len(p.Results) != 1 || p.Results[0].K != KClosure && p.Results[0].K != KFunc {
			c.ob(false, name+" returns an option", at, "it returns %v", p.Results)
			continue
		}
		cl := p.Results[0]
		fn := cl.Fn
		if o := fn.Origin(); o != nil {
			fn = o
		}
		as := e.params(fn)
		for _, q := range e.RunClosure(fn, cl.Args, as, p.StateOf()) {
			if q.Kind != OReturn {
				c.ob(false, name+" does not panic", at, "a path ends in a panic")
				continue
			}
			if isNil, known := isErrNil(q, q.Results[0]); !known || !isNil {
				continue // a failing option makes New fail
			}
			st := structOf(s.pipT)
			for i := 0; i < st.NumFields(); i++ {
				a := mkFieldAddr(as[0], i, s.pipT)
				v := q.heapVal(a)
				if v == mkLoad(a) || expandable(st.Field(i).Type()) {
					continue
				}
				f(fieldVar(s.pipT, i), mkLoad(a), v, args, at)
			}
		}
	}
}

// orderedOption: groups made with the Ordered option order their output.
func (s *staged) orderedOption() {
	c := s.c
	var set *types.Var
	s.optionSets("Ordered", func(v *types.Var, load, val *Term, args []*Term, at string) {
		if val == tTrue {
			set = v
		}
	})
	c.need(set != nil, "role: option", "Ordered sets a field of the Pipelines")
	for _, fw := range s.fwd {
		if fw.order != nil {
			continue
		}
		ok := false
		for f := fw.p.Facts; f != nil; f = f.prev {
			if s.sym(f.t) == "P."+set.Name()+"*" && !f.v {
				ok = true
			}
		}
		c.ob(ok, "with Ordered the output of a group is put in order", c.pathAt(s.nrgF, fw.p), "this path does not, whether or not %s is set", set.Name())
	}
	for _, w := range c.L.storesTo(set) {
		cst, isC := w.Val.(*ssa.Const)
		c.ob(isC && cst.Value != nil && cst.Value.String() == "true", "nothing takes the Ordered option back", c.at(w.Parent()), "stores %s at %s", w.Val, c.L.pos(w))
	}
	s.optionsApplied()
}

// optionsApplied: New calls every option given, in order, and fails with what an option fails with.
func (s *staged) optionsApplied() {
	c := s.c
	c.need(len(s.newA) == 4, "role: parameters", "New takes options")
	opts := s.newA[3]
	for _, p := range s.newP {
		at := c.pathAt(s.newF, p)
		if p.Kind == OPanic || p.Kind == OExit {
			c.ob(false, "New returns", at, "a path ends in a panic or exit")
			continue
		}
		failed := false
		is := func(e *Event) bool {
			if e.Kind != "invoke" || e.Name != "" {
				return false
			}
			l, _, ok := elemOf(e.Args[0])
			return ok && l == opts
		}
		n := 0
		for _, e := range allEvs(p.Events, "invoke") {
			if !is(e) {
				continue
			}
			n++
			c.ob(len(e.Res) > 0, "options return errors", at, "no result")
			isNil, known := isErrNil(p, e.Res[0])
			c.ob(known, "New looks whether an option failed", at, "it does not, for the one called at %s", c.L.pos(e.Instr))
			if known && !isNil {
				failed = true
				if p.Kind == OReturn {
					en, kn := isErrNil(p, p.Results[1])
					c.ob(p.Results[0] == tNil && kn && !en, "New fails when an option fails", at, "returns %s, %s", p.Results[0], p.Results[1])
				}
			}
			c.ob(len(e.Args) == 2 && s.isNewP(e.Args[1]), "options are applied to the Pipelines New returns", at, "applied to %s", e.Args[1:])
		}
		if p.Kind != OReturn || failed || p.Results[0] == tNil {
			continue
		}
		// on success all were called, before the workers got anything from the Pipelines
		key := ""
		for _, q := range s.newP {
			for i, e := range q.Events {
				if is(e) {
					for _, l := range loopsAround(q.Events, i) {
						key = l
					}
				}
			}
		}
		if !c.ob(key != "", "New applies the options in a loop", at, "none is called in a loop") {
			continue
		}
		ok, why := s.wholeLoop(p, key, is, opts)
		c.ob(ok, "New applies every option, in order", at, "%s", orOK(why))
		var exit, work int = -1, -1
		for i, e := range p.Events {
			if e.Kind == "loopexit" && e.Name == key && exit < 0 {
				exit = i
			}
			if (e.Kind == "go" || e.Kind == "call" && isDemuxFn(e.Name, "New")) && work < 0 {
				work = i
			}
		}
		_, most := p.Facts.bounds(mkLen(opts))
		c.ob(exit >= 0 && (work < 0 || exit < work) || exit < 0 && most <= 0, "options are applied before the workers start", at, "they are not")
	}
}

func (s *staged) isNewP(t *Term) bool {
	t = s.norm(t)
	return s.base != nil && t == s.base.Results[0]
}

// wholeLoop: the loop calls is once per iteration with the index it counts from 0 by 1, and is left after as many
// iterations as list has elements.
func (s *staged) wholeLoop(p *Path, key string, is func(*Event) bool, list *Term) (bool, string) {
	n := 0
	for _, q := range s.newP {
		for i, e := range q.Events {
			if e.Kind != "cut" || e.Name != key {
				continue
			}
			m := 0
			var idx *Term
			for j := i - 1; j >= 0; j-- {
				if x := q.Events[j]; x.Kind == "loop" && x.Name == key {
					break
				} else if is(x) {
					m++
					_, idx, _ = elemOf(x.Args[0])
				}
			}
			if m != 1 {
				return false, "an iteration calls none, or more than one"
			}
			n++
			if why := s.countsUp(key, idx); why != "" {
				return false, why
			}
		}
	}
	if n == 0 {
		return false, "the loop is left in its first iteration"
	}
	in := false
	for _, e := range p.Events {
		in = in || e.Kind == "loop" && e.Name == key
	}
	if !in {
		// not entered as there is nothing in the list
		if _, hi := p.Facts.bounds(mkLen(list)); hi <= 0 {
			return true, ""
		}
	}
	t, last := p.trip(key), int64(0)
	for _, e := range tail(p.Events, key) {
		if is(e) {
			last++
		}
	}
	if t == nil || last > 1 || mkBin("+", t, mkInt(last), types.Typ[types.Int]) != mkLen(list) {
		return false, "the loop may be left before its end"
	}
	return true, ""
}

// countsUp: the index goes through 0, 1, 2, … in the iterations of a loop.
func (s *staged) countsUp(key string, idx *Term) string {
	base, off := stripAdd(idx)
	lv := s.lv(base.Op)
	if base.K != KLoopVar || !strings.HasPrefix(base.Op, key+"/") || lv == nil || len(lv.Init) != 1 || len(lv.Back) != 1 {
		return "the index is not counted by the loop"
	}
	if y, step := stripAdd(lv.Back[0]); y.K != KLoopVar || y.Op != base.Op || step != 1 {
		return "the index is not stepped by one"
	}
	if first, ok := mkBin("+", lv.Init[0], mkInt(off), idx.T).intConst(); !ok || first != 0 {
		return "the index does not start at 0"
	}
	return ""
}

// ---------------------------------------------------------------- C29

func rC29(s *staged) {
	c := s.c
	s.counted(s.groupWG, "RequestGroup.Close")
	s.counted(s.pipWG, "Pipelines.Close")
	if s.k >= 0 {
		s.orderNumbers("C29")
	}
	c.lockDiscipline(s.subF, s.subP)
	in := s.subA[1]
	root := ctxRoot(s.field(in, s.fCtx))
	refused := false
	s.submits(func(p *Path, sent *Event, ok bool, at string) {
		if sent != nil {
			alt := false
			for _, a := range sent.Alts {
				if !a.Send && a.Ch.K == KPure && a.Ch.Op == "ctxdone" && ctxRoot(a.Ch.Args[0]) == root {
					alt = true
				}
			}
			c.ob(alt || !sent.Blocking, "a waiting Submit ends when its Context is cancelled", at, "the send at %s has no such alternative", c.L.pos(sent.Instr))
		}
		for _, e := range p.Events {
			if blockingOp(e) && e != sent {
				ok := e.Kind == "recv" && e.Args[0].K == KPure && e.Args[0].Op == "ctxdone" && ctxRoot(e.Args[0].Args[0]) == root
				c.ob(ok, "Submit waits for nothing but the pipelines and its Context", at, "%s at %s", e.Kind, c.L.pos(e.Instr))
				refused = refused || ok
			}
		}
		if ok || sent != nil {
			return
		}
		// why it failed
		r := p.Results[0]
		nilCtx := p.Facts.isNil(s.field(in, s.fCtx))
		if nilCtx {
			for _, e := range allEvs(p.Events, "wg.add", "send", "atomic.add", "once.run", "go", "lock") {
				c.ob(false, "a request without a Context has no effect", at, "%s at %s", e.Kind, c.L.pos(e.Instr))
			}
			return
		}
		for i, e := range p.Events {
			switch e.Kind {
			case "store", "atomic.store", "atomic.swap":
				if n := s.sym(e.Args[0]); e.Args[1] == tNil && (strings.HasPrefix(n, "G.") || strings.HasPrefix(n, "P.")) && !startedOnce(p.Events, i, s.groupOnce) {
					c.ob(false, "a refused Submit forgets nothing that others need", at, "%s is set to nil at %s", n, c.L.pos(e.Instr))
				}
			}
		}
		c.ob(matchesCtx(p, r, root), "a request refused because its Context was cancelled gets the Context's error", at, "returns %s", r)
	})
	c.ob(refused, "a waiting Submit ends when its Context is cancelled", c.at(s.subF), "no path does")
}

// matchesCtx: the error is the context's, or wraps it.
func matchesCtx(p *Path, r, root *Term) bool {
	if r.K == KCtxErr {
		return ctxRoot(r.Args[0]) == root
	}
	for _, e := range evs(p.Events, "ctxerr") {
		if ctxRoot(e.Args[0]) == root && (r == e.Res[0] || wraps(r, e.Res[0])) {
			return true
		}
	}
	if x := unIface(r); x.K == KPure && strings.Contains(x.Op, "Cause") {
		return true
	}
	return false
}

// ---------------------------------------------------------------- C30

func rC30(s *staged) {
	s.orderNumbers("C30")
	s.orderedOption()
	s.delivered()
	s.walkWorkers()
	s.endings()
}

// ---------------------------------------------------------------- C31

// endings: the forwarder closes the user's channel when it ends, and nobody else does.
func (s *staged) endings() {
	c := s.c
	closes := func(fw *forwarder, es []*Event) (n int) {
		for _, e := range es {
			switch {
			case e.Kind == "close" && e.Args[0] == fw.user:
				n++
			case e.Kind == "call" && isDemuxMethod(e.Name, "Close") && fw.order != nil && e.Args[0] == fw.order.Res[0]:
				n++
			}
		}
		return n
	}
	s.forward(func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string) {
		c.ob(closes(fw, rest) == 0, "Out is closed after the last request only", at, "it is closed after a request")
		c.ob(closes(fw, before(b.Events, recv)) == 0, "Out is closed after the last request only", at, "it is closed before a request")
		for i, e := range rest {
			if e.Kind != "go" || len(evs(rest[i:], "recv", "wg.wait")) > 0 {
				continue
			}
			for _, g := range e.Bodies {
				for _, x := range allEvs(g.Events, "send") {
					c.ob(x.Args[0] != fw.user, "Out is closed after the last request only", at, "a goroutine that nobody waits for sends at %s", c.L.pos(x.Instr))
				}
			}
		}
	}, func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string) {
		n := closes(fw, rest)
		c.ob(n == 1, "Out is closed once when all requests were passed on", at, "%d times", n)
		for _, e := range rest {
			c.ob(!blockingOp(e), "the forwarder ends when its channel is closed", at, "%s at %s", e.Kind, c.L.pos(e.Instr))
		}
	})
	s.nobody("close", "only the forwarder closes Out", s.groupChans())
}

// groupChans are the names of the channels of a group.
func (s *staged) groupChans() map[string]bool {
	chans := map[string]bool{s.user: true}
	st := structOf(s.grpT)
	for _, fw := range s.fwd {
		for i := 0; i < st.NumFields(); i++ {
			if fw.p.heapVal(mkFieldAddr(fw.p.Results[0], i, s.grpT)) == fw.ch {
				chans["G."+st.Field(i).Name()+"*"] = true
			}
		}
	}
	return chans
}

// nobody but the forwarders does this to one of the channels.
func (s *staged) nobody(kind, rule string, chans map[string]bool) {
	c := s.c
	scan := func(es []*Event, skip *Event, fw *forwarder) {
		var rec func(es []*Event)
		rec = func(es []*Event) {
			for _, e := range es {
				if e == skip {
					continue
				}
				if e.Kind == kind {
					own := chans[s.sym(e.Args[0])] || fw != nil && (e.Args[0] == fw.ch || e.Args[0] == fw.user)
					c.ob(!own, rule, c.evAt(e), "%s of %s at %s", kind, s.sym(e.Args[0]), c.L.pos(e.Instr))
				}
				if e.Kind == "call" && kind == "close" && fw != nil && fw.order != nil && isDemuxMethod(e.Name, "Close") && e.Args[0] == fw.order.Res[0] {
					c.ob(false, rule, c.evAt(e), "closed at %s", c.L.pos(e.Instr))
				}
				for _, b := range e.Bodies {
					rec(b.Events)
				}
			}
		}
		rec(es)
	}
	for _, p := range s.subP {
		scan(p.Events, nil, nil)
	}
	s.others(func(f *ssa.Function, p *Path) { scan(p.Events, nil, nil) })
	for _, fw := range s.fwd {
		scan(fw.p.Events, fw.ev, fw)
	}
}

// discounted: the forwarder takes each request it received off the WaitGroup once.
func (s *staged) discounted(wg string) {
	c := s.c
	s.forward(func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string) {
		n := s.wgNet(rest, wg)
		c.ob(n == -1, "each request that left the pipelines is discounted once", at, "%s is %+d", wg, n)
		c.ob(s.wgNet(before(b.Events, recv), wg) <= 0 && s.wgNet(before(b.Events, recv), wg) == -int64(len(onChan(before(b.Events, recv), "recv", fw.ch))), "a request is discounted after it was received", at, "%s is %+d before", wg, s.wgNet(before(b.Events, recv), wg))
	}, func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string) {
		n := s.wgNet(rest, wg)
		c.ob(n == 0, "only received requests are discounted", at, "%s is %+d when the channel is closed", wg, n)
	})
	// not elsewhere in NewRequestGroup
	for _, fw := range s.fwd {
		var rec func(es []*Event)
		n := 0
		rec = func(es []*Event) {
			for _, e := range es {
				if e == fw.ev {
					continue
				}
				if e.Kind == "wg.add" && s.sym(e.Args[0]) == wg {
					n++
				}
				for _, b := range e.Bodies {
					rec(b.Events)
				}
			}
		}
		rec(fw.p.Events)
		c.ob(n == 0, "only Submit and the group's forwarder count requests", c.pathAt(s.nrgF, fw.p), "%s is changed %d times", wg, n)
	}
}

func rC31(s *staged) {
	c := s.c
	c.ob(strings.HasPrefix(s.groupWG, "G."), "RequestGroup.Close waits for a count of its own requests", c.at(s.gclF), "it waits for %s", s.groupWG)
	s.counted(s.groupWG, "RequestGroup.Close")
	s.discounted(s.groupWG)
	s.closeGroup()
	s.endings()
	s.registered()
	// each group has a WaitGroup of its own
	if strings.HasSuffix(s.groupWG, "*") {
		for _, fw := range s.fwd {
			v := fw.p.heapVal(s.groupField(fw.p.Results[0], s.groupWG))
			c.ob(v.K == KAlloc, "each group counts its own requests", c.pathAt(s.nrgF, fw.p), "the counter is %s", v)
		}
	}
}

func (s *staged) closeGroup() {
	c := s.c
	for _, p := range s.gclP {
		at := c.pathAt(s.gclF, p)
		if p.Kind != OReturn {
			c.ob(false, "RequestGroup.Close returns", at, "a path ends otherwise")
			continue
		}
		wait, rem := -1, -1
		nw, nr := 0, 0
		for i, e := range p.Events {
			switch {
			case e.Kind == "wg.wait" && s.sym(e.Args[0]) == s.groupWG:
				wait = i
				nw++
			case e.Kind == "call" && isDemuxMethod(e.Name, "RemoveReceiver"):
				rem = i
				nr++
				c.ob(s.sym(e.Args[0]) == s.demux && s.sym(e.Args[1]) == s.id, "RequestGroup.Close takes back its own registration", at, "%s of %s", s.sym(e.Args[1]), s.sym(e.Args[0]))
			case blockingOp(e):
				c.ob(false, "RequestGroup.Close waits for nothing but its own requests", at, "%s at %s", e.Kind, c.L.pos(e.Instr))
			case e.Kind == "go" || e.Kind == "async":
				for _, b := range e.Bodies {
					for _, x := range b.Events {
						c.ob(!(x.Kind == "call" && isDemuxMethod(x.Name, "RemoveReceiver")), "RequestGroup.Close ends the output itself", at, "in a goroutine at %s", c.L.pos(x.Instr))
					}
				}
			}
		}
		c.ob(nw >= 1, "RequestGroup.Close waits for its requests", at, "it does not")
		c.ob(nr == 1, "RequestGroup.Close ends the group's output once", at, "%d times", nr)
		c.ob(nw == 0 || rem < 0 || wait < rem, "the output is ended after all requests left", at, "before")
	}
	// nobody else ends a group
	s.others(func(f *ssa.Function, p *Path) {
		if f == s.gclF {
			return
		}
		for _, e := range allEvs(p.Events, "call") {
			c.ob(!(isDemuxMethod(e.Name, "RemoveReceiver") || isDemuxMethod(e.Name, "Close") && strings.Contains(e.Name, "demux.Demux")), "only RequestGroup.Close ends a group", c.pathAt(f, p), "%s", c.L.pos(e.Instr))
		}
	})
	for _, p := range append(append([]*Path(nil), s.subP...), s.nrgP...) {
		for _, e := range allEvs(p.Events, "call") {
			c.ob(!isDemuxMethod(e.Name, "RemoveReceiver"), "only RequestGroup.Close ends a group", c.evAt(e), "%s", c.L.pos(e.Instr))
		}
	}
}

// ---------------------------------------------------------------- C32

func rC32(s *staged) {
	c := s.c
	s.counted(s.pipWG, "Pipelines.Close")
	s.discounted(s.pipWG)
	smClose := func(e *Event) bool {
		return e.Kind == "invoke" && strings.HasSuffix(e.Name, ".Close") && len(e.Args) == 1
	}
	full := 0
	for _, p := range s.pclP {
		at := c.pathAt(s.pclF, p)
		if p.Kind != OReturn {
			c.ob(p.Kind == OPanic, "Pipelines.Close returns", at, "a path does not end")
			continue
		}
		skip := len(evs(p.Events, "once.skip")) > 0
		nIn := len(s.on(p.Events, "close", s.in))
		all := len(s.on(allEvs(p.Events, "close"), "close", s.in))
		c.ob(nIn == all, "Pipelines.Close closes the input itself", at, "in a goroutine")
		for _, e := range p.Events {
			c.ob(!blockingOp(e), "Pipelines.Close does not wait", at, "%s at %s", e.Kind, c.L.pos(e.Instr))
			c.ob(!smClose(e), "StateMachine.Close is called after all requests left", at, "called at %s", c.L.pos(e.Instr))
			c.ob(!(e.Kind == "close" && s.sym(e.Args[0]) == s.out), "the output side is closed after all requests left", at, "closed at %s", c.L.pos(e.Instr))
		}
		n := 0
		for _, g := range evs(p.Events, "go") {
			for _, b := range g.Bodies {
				gat := c.evAt(g)
				if b.Kind != OReturn {
					c.ob(false, "the goroutine of Pipelines.Close ends", gat, "a path does not")
					continue
				}
				w, nc, no := -1, 0, 0
				for i, e := range b.Events {
					switch {
					case e.Kind == "wg.wait" && s.sym(e.Args[0]) == s.pipWG:
						w = i
					case e.Kind == "close" && s.sym(e.Args[0]) == s.out:
						no++
						c.ob(w >= 0, "the output side is closed after all requests left", gat, "closed at %s", c.L.pos(e.Instr))
					case smClose(e):
						nc++
						c.ob(w >= 0, "StateMachine.Close is called after all requests left", gat, "called at %s", c.L.pos(e.Instr))
						c.ob(s.sym(e.Args[0]) == s.smName() || w < 0, "the StateMachine closed is the one given to New", gat, "%s", s.sym(e.Args[0]))
					default:
						c.ob(!blockingOp(e), "the goroutine of Pipelines.Close waits for the requests only", gat, "%s at %s", e.Kind, c.L.pos(e.Instr))
					}
				}
				if nc+no > 0 {
					n++
					c.ob(nc == 1, "StateMachine.Close is called once", gat, "%d times", nc)
					c.ob(no == 1, "the output side is closed once", gat, "%d times", no)
				}
			}
			// all paths of the goroutine do it
			m := 0
			for _, b := range g.Bodies {
				k := 0
				for _, e := range b.Events {
					if smClose(e) {
						k++
					}
				}
				if k > 0 {
					m++
				}
			}
			c.ob(m == 0 || m == len(g.Bodies), "StateMachine.Close is called on every path", c.evAt(g), "%d of %d", m, len(g.Bodies))
			if m > 0 {
				n = 1 + 100*(n-m)
			}
		}
		if skip && nIn == 0 && n == 0 {
			continue
		}
		full++
		c.ob(nIn == 1, "Pipelines.Close closes the input once", at, "%d times", nIn)
		c.ob(n == 1, "Pipelines.Close starts the goroutine that closes the StateMachine", at, "%d such goroutines", n)
	}
	c.ob(full > 0, "Pipelines.Close closes the input", c.at(s.pclF), "no path does")
	// nobody else
	s.others(func(f *ssa.Function, p *Path) {
		if f == s.pclF {
			return
		}
		walkEvents(p.Events, func(e *Event) {
			c.ob(!smClose(e) || !s.isSMTerm(e.Args[0]), "only Pipelines.Close closes the StateMachine", c.pathAt(f, p), "called at %s", c.L.pos(e.Instr))
			if e.Kind == "close" {
				n := s.sym(e.Args[0])
				failing := f == s.newF && p.Kind == OReturn && p.Results[0] == tNil
				c.ob(n != s.in && n != s.out || failing, "only Pipelines.Close closes the pipelines", c.pathAt(f, p), "closed at %s", c.L.pos(e.Instr))
			}
		})
	})
	for _, p := range append(append([]*Path(nil), s.subP...), s.nrgP...) {
		walkEvents(p.Events, func(e *Event) {
			c.ob(!smClose(e) || !s.isSMTerm(e.Args[0]), "only Pipelines.Close closes the StateMachine", c.evAt(e), "called at %s", c.L.pos(e.Instr))
			if e.Kind == "close" {
				n := s.sym(e.Args[0])
				c.ob(n != s.in && n != s.out, "only Pipelines.Close closes the pipelines", c.evAt(e), "closed at %s", c.L.pos(e.Instr))
			}
		})
	}
	s.walkWorkers()
	s.workersEnd()
}

// smName is how the StateMachine is kept in the Pipelines.
func (s *staged) smName() string {
	G := s.base.Results[0]
	st := structOf(s.pipT)
	for i := 0; i < st.NumFields(); i++ {
		if s.norm(s.base.heapVal(mkFieldAddr(G, i, s.pipT))) == s.newA[2] {
			return "P." + st.Field(i).Name() + "*"
		}
	}
	s.c.need(false, "role: StateMachine", "the Pipelines keep the StateMachine")
	return ""
}

func (s *staged) isSMTerm(t *Term) bool {
	return s.norm(t) == s.newA[2] || s.sym(t) == s.smName()
}

// workersEnd: goroutines New starts are workers, or end by themselves.
func (s *staged) workersEnd() {
	c := s.c
	isWorker := map[*Event]bool{}
	for _, w := range s.workers {
		isWorker[w] = true
	}
	for _, p := range s.newP {
		for _, g := range allEvs(p.Events, "go") {
			if isWorker[g] {
				continue
			}
			for _, b := range g.Bodies {
				for _, e := range b.Events {
					c.ob(!blockingOp(e), "goroutines New starts end with the input", c.evAt(g), "%s at %s", e.Kind, c.L.pos(e.Instr))
				}
				c.ob(b.Kind == OReturn, "goroutines New starts end with the input", c.evAt(g), "a path does not end")
			}
		}
	}
}

// ---------------------------------------------------------------- C39

func rC39(s *staged) {
	c := s.c
	s.registered()
	var cv *types.Var
	for _, fw := range s.fwd {
		at := c.pathAt(s.nrgF, fw.p)
		r := s.registrations(fw.p)[0]
		t, why := s.drawn(fw.p, r.Args[1])
		if !c.ob(t != nil, "a group's identity is drawn from a counter", at, "%s", orOK(why)) {
			continue
		}
		c.ob(strings.HasPrefix(s.sym(t.cell), "P."), "the groups of one Pipelines share a counter", at, "it is %s", s.sym(t.cell))
		c.ob(cv == nil || cv == t.cellV, "the groups of one Pipelines share a counter", at, "another one")
		cv = t.cellV
		c.ob(t.net == 1 && (!t.atomic || len(t.ops) == 1), "each group draws one number", at, "the counter changes by %+d in %d steps", t.net, len(t.ops))
		if t.split {
			held := map[*Term]int{}
			uses := 0
			locksAt(fw.p.Events, func(e *Event, h map[*Term]string) {
				if strings.HasPrefix(e.Kind, "atomic.") && len(e.Args) > 0 && e.Args[0] == t.cell {
					uses++
					for l, m := range h {
						if m == "w" && strings.HasPrefix(s.sym(l), "P.") {
							held[l]++
						}
					}
				}
			})
			ok := false
			for l, n := range held {
				k := 0
				for _, e := range fw.p.Events {
					if e.Kind == "lock" && e.Args[0] == l {
						k++
					}
				}
				ok = ok || n == uses && k == 1
			}
			c.ob(ok, "drawing a number is one step for other groups", at, "the counter is read and counted without holding one lock")
		}
		if !t.atomic {
			held := false
			locksAt(fw.p.Events, func(e *Event, h map[*Term]string) {
				if e.Kind == "unlock" || e.Kind == "call" || e.Kind == "go" {
					for l, m := range h {
						held = held || m == "w" && strings.HasPrefix(s.sym(l), "P.")
					}
				}
			})
			ok := held && s.underLock(t.cellV)
			c.ob(ok, "drawing a number is one step for other groups", at, "the counter is read and written without a lock")
		}
		reg := false
		for _, e := range fw.p.Events {
			reg = reg || e == r
		}
		c.ob(reg, "a group is registered before its creation returns", at, "not by NewRequestGroup itself")
		// failing to register is not ignored where it can happen: identities are never drawn twice
	}
	if cv != nil {
		s.counterOnly(cv, "only NewRequestGroup changes the counter of groups", s.nrgF)
	}
	// the demultiplexer's receivers are changed under a lock
	n := 0
	for _, p := range s.newP {
		for _, e := range evs(p.Events, "call") {
			if !isDemuxFn(e.Name, "New") {
				continue
			}
			n++
			ok := false
			for _, x := range allEvs(p.Events, "call") {
				if isDemuxFn(x.Name, "WithMutex") && len(x.Args) == 1 && len(x.Res) == 1 {
					if k, isC := x.Args[0].intConst(); isC && (k == 1 || k == 2) {
						for _, a := range e.Args[3:] {
							ok = ok || a.contains(x.Res[0])
						}
					}
				}
			}
			c.ob(ok, "the demultiplexer changes its receivers under a lock", c.pathAt(s.newF, p), "its default, copying them, loses changes made at the same time")
		}
	}
	c.need(n > 0, "role: demux", "New starts a demultiplexer")
	// closing takes back its own registration only
	for _, p := range s.gclP {
		for _, e := range allEvs(p.Events, "call") {
			if isDemuxMethod(e.Name, "RemoveReceiver") {
				c.ob(s.sym(e.Args[0]) == s.demux && s.sym(e.Args[1]) == s.id, "RequestGroup.Close takes back its own registration", c.pathAt(s.gclF, p), "%s of %s", s.sym(e.Args[1]), s.sym(e.Args[0]))
			}
		}
	}
	s.groupState()
}

// underLock: all uses of a plain counter in one function lie between taking and releasing a lock.
func (s *staged) underLock(v *types.Var) bool {
	e := s.c.eng(func() Config { c := s.cfg(); c.RecordLoads = true; return c }())
	_, ps := s.c.run(e, s.nrgF)
	for _, p := range ps {
		var hold *Term
		n := 0
		ok := true
		locksAt(p.Events, func(e *Event, h map[*Term]string) {
			if (e.Kind == "load" || e.Kind == "store") && len(e.Args) > 0 && e.Args[0].Ref == any(v) {
				n++
				var l *Term
				for x, m := range h {
					if m == "w" && strings.HasPrefix(s.sym(x), "P.") {
						l = x
					}
				}
				if l == nil || hold != nil && hold != l {
					ok = false
				}
				hold = l
			}
			if e.Kind == "unlock" && e.Args[0] == hold && n == 1 {
				ok = false
			}
		})
		if !ok || n == 0 {
			return false
		}
	}
	return len(ps) > 0
}

// groupState: creating and closing groups change nothing else of the Pipelines without a lock.
func (s *staged) groupState() {
	c := s.c
	for _, f := range []struct {
		fn *ssa.Function
		ps []*Path
	}{{s.nrgF, s.nrgP}, {s.gclF, s.gclP}} {
		c.lockDiscipline(f.fn, f.ps)
		for _, p := range f.ps {
			locksAt(p.Events, func(e *Event, h map[*Term]string) {
				w := e.Kind == "store" || e.Kind == "mapset" || e.Kind == "mapdelete"
				if !w || len(e.Args) == 0 {
					return
				}
				n := s.sym(e.Args[0])
				if !strings.HasPrefix(n, "P.") {
					return
				}
				held := false
				for l, m := range h {
					held = held || m == "w" && strings.HasPrefix(s.sym(l), "P.")
				}
				c.ob(held, "groups change what they share under a lock", c.pathAt(f.fn, p), "%s of %s at %s", e.Kind, n, c.L.pos(e.Instr))
			})
		}
	}
}

// ---------------------------------------------------------------- C33, C34, C36

func rC33(s *staged) { s.walkWorkers() }

func rC34(s *staged) {
	s.walkWorkers()
	s.optionsApplied()
}

func rC36(s *staged) { s.walkWorkers() }

func init() {
	reg("C29", stagedProp(rC29), "Refusing paths of Submit hand nothing over, leave both WaitGroups and, when ordered, the number counter as they were under one lock hold, and return the Context's error; the send has the Context's cancellation as its alternative.")
	reg("C30", stagedProp(rC30), "Ordered Submits number requests without gaps from 0 under a lock held until the request is handed over or the number given back; workers keep the number; forwarders pass every request through an InOrder keyed by it and close it at the end.")
	reg("C31", stagedProp(rC31), "Submit counts before handing over and uncounts refusals; the group's forwarder discounts each received request once; Close waits for that count of its own group, then removes its own registration once; Out is closed once, when the registered channel is.")
	reg("C32", stagedProp(rC32), "Pipelines.Close closes the input once without waiting and starts one goroutine that waits for the count of accepted requests, then closes the output side and calls StateMachine.Close once; nobody else does; workers end when the input is closed.")
	reg("C33", stagedProp(rC33), "On all paths of a worker through one arbitrary round: the stage called is Start or the Next of the last stage, it is given what the last call returned, Next is cleared before, nothing is called once Err is set, and the request leaves only with Err set or without a Next.")
	reg("C34", stagedProp(rC34), "On all paths of a worker the loop over all pre-processors, in order from the first, lies between one stage and the next, each is given what the one before returned, and Err ends the request; the option appends and New applies all options.")
	reg("C36", stagedProp(rC36), "On all paths of a worker the request's Context is looked at after each stage before anything is called, nothing is called once it was seen cancelled, and the request then leaves with the Context's error.")
	reg("C39", stagedProp(rC39), "A group's identity is one atomic draw from the Pipelines' counter, it is registered with the demultiplexer before NewRequestGroup returns, and the demultiplexer is told to lock its receivers.")
}
