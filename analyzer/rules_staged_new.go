package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38: how many workers New starts. The number of iterations of every loop is a symbolic expression; the workers are
// counted by the nested loops that start them.

const matchesFn = "github.com/johnsiilver/dynamics/method.MatchesSignature"

// building holds the functions New and CountSubStages reach by calls.
func (s *staged) building() map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || in[f] || len(f.Blocks) == 0 || f.Pkg == nil && f.Origin() == nil && f.Parent() == nil {
			return
		}
		o := f
		if g := f.Origin(); g != nil {
			o = g
		}
		if o.Pkg != nil && s.newF.Pkg != nil && o.Pkg != s.newF.Pkg {
			return
		}
		in[f], in[o] = true, true
		for _, b := range o.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if _, isGo := i.(*ssa.Go); !isGo {
						add(c.Common().StaticCallee())
					}
				}
				if m, ok := i.(*ssa.MakeClosure); ok {
					run := false
					for _, r := range *m.Referrers() {
						if _, isGo := r.(*ssa.Go); !isGo {
							run = true
						}
					}
					if run {
						add(m.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	add(s.newF)
	add(s.c.fn(relStaged, "CountSubStages"))
	return in
}

func counts(s *staged) func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
	return func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
		switch name {
		case "reflect.ValueOf":
			ty := "any"
			if x, ok := ins.(*ssa.Call); ok && len(x.Call.Args) == 1 {
				if m, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
					ty = stageTypeName(s, m.X.Type())
				}
			}
			return []callOut{{st: st, res: mkPure(name, nil, unIface(args[0]), mkConst("type:"+ty, nil))}}
		case matchesFn:
			var rt types.Type
			if v, ok := ins.(ssa.Value); ok {
				rt = v.Type()
			}
			return []callOut{{st: st, res: mkPure("matches", rt, args[0], args[1], mkConst("site:"+site, nil))}}
		}
		return nil
	}
}

// stageTypeName is "Stage" for the type of stages.
func stageTypeName(s *staged, t types.Type) string {
	if sg, ok := t.Underlying().(*types.Signature); ok && sg.Params().Len() == 1 && sg.Results().Len() == 1 && !sg.Variadic() &&
		s.isReq(sg.Params().At(0).Type()) && s.isReq(sg.Results().At(0).Type()) {
		return "Stage"
	}
	return t.String()
}

// poly is a sum of products of symbols: product -> factor.
type poly map[string]int64

func (a poly) add(b poly, k int64) poly {
	r := poly{}
	for m, f := range a {
		r[m] += f
	}
	for m, f := range b {
		r[m] += k * f
	}
	for m, f := range r {
		if f == 0 {
			delete(r, m)
		}
	}
	return r
}

func (a poly) mul(b poly) poly {
	r := poly{}
	for m, f := range a {
		for n, g := range b {
			var l []string
			for _, x := range strings.Split(m+"*"+n, "*") {
				if x != "" {
					l = append(l, x)
				}
			}
			sort.Strings(l)
			r = r.add(poly{strings.Join(l, "*"): f * g}, 1)
		}
	}
	return r
}

func (a poly) eq(b poly) bool { return len(a.add(b, -1)) == 0 }

func (a poly) String() string {
	var l []string
	for _, m := range sortedKeys(a) {
		switch {
		case m == "":
			l = append(l, fmt.Sprint(a[m]))
		case a[m] == 1:
			l = append(l, m)
		default:
			l = append(l, fmt.Sprintf("%d*%s", a[m], m))
		}
	}
	if len(l) == 0 {
		return "0"
	}
	return strings.Join(l, " + ")
}

// counter evaluates numbers symbolically.
type counter struct {
	s    *staged
	ps   []*Path
	leaf func(t *Term) string // known symbols
	none string               // the number of options
}

func (k *counter) eval(t *Term) poly { return k.evalD(t, 0) }

func (k *counter) evalD(t *Term, d int) poly {
	if t == nil || d > 30 {
		return poly{"?": 1}
	}
	if i, ok := t.intConst(); ok {
		if i == 0 {
			return poly{}
		}
		return poly{"": i}
	}
	if n := k.leaf(t); n != "" {
		return poly{n: 1}
	}
	if n := k.s.norm(t); n != t {
		return k.evalD(n, d+1)
	}
	switch t.K {
	case KBin:
		switch t.Op {
		case "+":
			return k.evalD(t.Args[0], d+1).add(k.evalD(t.Args[1], d+1), 1)
		case "-":
			return k.evalD(t.Args[0], d+1).add(k.evalD(t.Args[1], d+1), -1)
		case "*":
			return k.evalD(t.Args[0], d+1).mul(k.evalD(t.Args[1], d+1))
		}
	case KConv:
		if len(t.Args) == 1 && isInteger(t.T) && isInteger(t.Args[0].T) {
			return k.evalD(t.Args[0], d+1)
		}
	case KLen:
		return poly{"len(" + k.s.sym(t.Args[0]) + ")": 1}
	case KLoopVar:
		if p := k.loopSum(t, d); p != nil {
			return p
		}
	}
	return poly{fmt.Sprintf("t%d", t.id): 1}
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// loopSum is the value a variable has after a loop that adds to it in each iteration.
func (k *counter) loopSum(t *Term, d int) poly {
	s := k.s
	lv := s.lv(t.Op)
	if lv == nil || len(lv.Init) != 1 || len(lv.Back) == 0 {
		return nil
	}
	key := t.Op[:strings.LastIndex(t.Op, "/")]
	init := k.evalD(lv.Init[0], d+1)
	var step poly
	self := fmt.Sprintf("t%d", t.id)
	old := k.leaf
	k.leaf = func(x *Term) string {
		if x == t {
			return self
		}
		return old(x)
	}
	for _, b := range lv.Back {
		p := k.evalD(b, d+1).add(poly{self: 1}, -1)
		if step == nil {
			step = p
		} else if !step.eq(p) {
			step = poly{"?": 1}
		}
	}
	k.leaf = old
	if step == nil || step["?"] != 0 || step[self] != 0 {
		return nil
	}
	// the methods a channel lists
	if X := k.methodsOf(key); X != nil {
		if c, ok := step[""]; ok && len(step) == 1 {
			return init.add(poly{k.stages(X): c}, 1)
		}
		return nil
	}
	// the elements of a list
	if l, short := k.listOf(key); l != nil {
		// one symbol per iteration, depending on the element
		el := fmt.Sprintf("elem(%s)", s.sym(l))
		r := init
		for m, f := range step {
			if m != "stages("+el+")" {
				return nil
			}
			r = r.add(poly{"sum:" + m: f}, 1)
			if short {
				r = r.add(poly{m: -f}, 1)
			}
		}
		return r
	}
	return nil
}

// stages names the number of stages of an object.
func (k *counter) stages(X *Term) string {
	X = k.s.norm(unIface(X))
	if l, idx, ok := elemOf(X); ok {
		if b, _ := stripAdd(idx); b.K == KLoopVar && k.s.countsUp(b.Op[:strings.LastIndex(b.Op, "/")], idx) == "" {
			return "stages(elem(" + k.s.sym(l) + "))"
		}
	}
	if n := k.leaf(X); n != "" {
		return "stages(" + n + ")"
	}
	return "stages(" + k.s.sym(X) + ")"
}

// methodsOf: the loop receives all that the channel listing the stages of an object gives, once in each iteration.
func (k *counter) methodsOf(key string) *Term {
	var obj *Term
	is := func(e *Event, more bool) bool {
		if e.Kind != "recv" || e.Args[0].K != KPure || e.Args[0].Op != "matches" || len(e.Res) < 2 {
			return false
		}
		if v, known := constBool(e.Res[1]); !known || v != more {
			return false
		}
		m := e.Args[0]
		if m.Args[1].K != KPure || m.Args[1].Op != "reflect.ValueOf" || m.Args[1].Args[1].Op != "type:Stage" ||
			m.Args[0].K != KPure || m.Args[0].Op != "reflect.ValueOf" {
			return false
		}
		if obj != nil && obj != m.Args[0].Args[0] {
			return false
		}
		obj = m.Args[0].Args[0]
		return true
	}
	cuts, ok := 0, true
	for _, p := range k.ps {
		for i, e := range p.Events {
			if e.Name != key || e.Kind != "cut" && e.Kind != "loopexit" {
				continue
			}
			n, x := 0, 0
			for j := i - 1; j >= 0; j-- {
				f := p.Events[j]
				if f.Kind == "loop" && f.Name == key {
					break
				}
				switch {
				case is(f, e.Kind == "cut"):
					n++
				case f.Kind == "recv":
					x++
				}
			}
			if n != 1 || x != 0 {
				ok = false
			}
			if e.Kind == "cut" {
				cuts++
			}
		}
	}
	if !ok || cuts == 0 {
		return nil
	}
	return obj
}

// listOf: the loop goes through all elements of a list. short: it is left in the iteration of the last one.
func (k *counter) listOf(key string) (l *Term, short bool) {
	for _, p := range k.ps {
		left := false
		for _, e := range p.Events {
			if e.Kind == "loopexit" && e.Name == key {
				left = true
			}
		}
		if !left {
			continue
		}
		t := p.trip(key)
		if t == nil {
			return nil, false
		}
		b, off := stripAdd(t)
		if b.K != KLen || off != 0 && off != -1 {
			return nil, false
		}
		return b.Args[0], off == -1
	}
	return nil, false
}

// isWorker: the goroutine receives from the input of the Pipelines.
func (s *staged) isWorker(e *Event) bool {
	if e.Kind != "go" {
		return false
	}
	for _, b := range e.Bodies {
		if len(s.on(b.Events, "recv", s.in)) > 0 {
			return true
		}
	}
	return false
}

// started counts the workers started by events, those of inner loops by how often they run.
func (k *counter) started(p *Path, es []*Event, at string) poly {
	r := poly{}
	for _, e := range es {
		if k.s.isWorker(e) {
			// once, or in the last iteration of a loop that is left
			r = r.add(poly{"": 1}, 1)
		}
		if e.Kind == "loopexit" {
			m := k.perRound(e.Name, at)
			if len(m) == 0 {
				continue
			}
			t := p.trip(e.Name)
			if t == nil {
				k.s.c.ob(false, "the loops that start workers count", at, "the loop at %s has no known number of iterations", e.Name)
				t = mkPure("unknown trip", nil)
			}
			r = r.add(k.eval(t).mul(m), 1)
		}
	}
	return r
}

// zeros: what is known to be 0 on a path. never: the path cannot be taken, as something would be 0 and not 0.
func (k *counter) zeros(p *Path) (zero []poly, never bool) {
	var not []poly
	counts := func(x poly) bool {
		for m, f := range x {
			if m == "" || f < 0 || strings.Contains(m, "?") || m[0] == 't' {
				return false
			}
		}
		return len(x) > 0
	}
	for f := p.Facts; f != nil; f = f.prev {
		if f.t.K != KBin || f.t.Op != "==" && f.t.Op != "<" {
			continue
		}
		d := k.eval(f.t.Args[0]).add(k.eval(f.t.Args[1]), -1) // a-b == 0, a-b < 0
		n := poly{}.add(d, -1)
		switch {
		case f.t.Op == "==":
			if !counts(d) {
				d = n
			}
			if counts(d) && f.v {
				zero = append(zero, d)
			} else if counts(d) {
				not = append(not, d)
			}
		case counts(n) && !f.v: // !(0 < X)
			zero = append(zero, n)
		case counts(n):
			not = append(not, n)
		case counts(d.add(poly{"": 1}, 1)) && f.v: // X < 1
			zero = append(zero, d.add(poly{"": 1}, 1))
		case counts(d.add(poly{"": 1}, 1)):
			not = append(not, d.add(poly{"": 1}, 1))
		}
	}
	for _, z := range zero {
		if k.none != "" && z[k.none] == 1 && len(z) == 1 {
			zero = append(zero, poly{"subStages": 1})
			break
		}
	}
	for _, z := range zero {
		for _, n := range not {
			if z.eq(n) {
				return zero, true
			}
		}
	}
	return zero, false
}

// same: equal if what is 0 is 0.
func same(a, b poly, zero []poly) bool {
	d := a.add(b, -1)
	if len(d) == 0 {
		return true
	}
	for _, z := range zero {
		for _, x := range []poly{z, poly{}.add(z, -1), z.mul(poly{"num": 1}), poly{}.add(z.mul(poly{"num": 1}), -1)} {
			if d.eq(x) {
				return true
			}
		}
	}
	return false
}

// perRound counts the workers an iteration of a loop starts.
func (k *counter) perRound(key, at string) poly {
	var r poly
	var ps []*Path
	for _, none := range []bool{false, true} { // first where the most is known to run
		for _, p := range k.ps {
			if len(p.Events) > 0 && p.Events[len(p.Events)-1].Name == key && k.noOptions(p) == none {
				ps = append(ps, p)
			}
		}
	}
	for _, p := range ps {
		last := -1
		for i, e := range p.Events {
			if e.Kind == "cut" && e.Name == key {
				last = i
			}
		}
		if last < 0 {
			continue
		}
		first := last
		for first >= 0 && !(p.Events[first].Kind == "loop" && p.Events[first].Name == key) {
			first--
		}
		zero, never := k.zeros(p)
		if never {
			continue
		}
		m := k.started(p, p.Events[first+1:last], at)
		if r != nil && !r.eq(m) && same(r, m, zero) {
			if len(r) == 0 {
				r = m
			}
			continue
		}
		if r != nil && !r.eq(m) {
			k.s.c.ob(false, "every iteration starts as many workers", at, "%s or %s in the loop %s", r, m, key)
			return poly{"?": 1}
		}
		r = m
	}
	return r
}

// options visits the options the package has.
func (s *staged) optionFns() []string {
	var r []string
	pk := s.newF.Pkg
	for _, n := range pk.Pkg.Scope().Names() {
		f, ok := pk.Pkg.Scope().Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		rs := f.Type().(*types.Signature).Results()
		if rs.Len() != 1 {
			continue
		}
		if t, ok := types.Unalias(rs.At(0).Type()).(*types.Named); ok && t.Obj().Name() == "Option" && t.Obj().Pkg() == pk.Pkg {
			r = append(r, n)
		}
	}
	return r
}

func rC38(s *staged) {
	c := s.c
	c.need(len(s.newA) == 4, "role: parameters", "New takes a name, a number, a StateMachine and options")
	num, sm := s.newA[1], s.newA[2]
	s.optionsApplied()

	// what the options do
	owner := map[*types.Var]string{}
	var sub *types.Var
	fns := s.optionFns()
	c.need(len(fns) > 0, "role: options", "the package has functions that make Options")
	for _, n := range fns {
		s.optionPaths(n, func(k *counter, v *types.Var, load, val *Term, args []*Term, q *Path, at string) {
			o, has := owner[v]
			c.ob(!has || o == n, "options change different fields", at, "%s and %s both change %s", o, n, v.Name())
			owner[v] = n
			other := ""
			var look func(t *Term)
			seen := map[*Term]bool{}
			look = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if t.K == KLoad && t != load && t.Args[0].K == KFieldAddr && t.Args[0].Args[0] == load.Args[0].Args[0] {
					other = t.Args[0].fieldName()
				}
				for _, a := range t.Args {
					look(a)
				}
			}
			look(val)
			for f := q.Facts; f != nil; f = f.prev {
				look(f.t)
			}
			c.ob(other == "", "what an option does depends on no other option", at, "%s depends on %s", n, other)
			if n != "CountSubStages" {
				return
			}
			sub = v
			got := k.eval(val)
			want := poly{"old": 1, "sum:stages(elem(objs))": 1}
			c.ob(got.eq(want), "CountSubStages adds the stages of every object given", at, "it sets %s to %s", v.Name(), got)
		})
	}
	c.need(sub != nil, "role: CountSubStages", "CountSubStages changes a field of the Pipelines")
	for _, w := range c.L.storesTo(sub) {
		ct, isC := w.Val.(*ssa.Const)
		c.ob(c.L.onlyFrom(w.Parent(), c.fn(relStaged, "CountSubStages")) || isC && ct.Value != nil && ct.Value.String() == "0" && c.L.onlyFrom(w.Parent(), s.newF),
			"only CountSubStages changes the number of sub stages", c.at(w.Parent()), "set at %s", c.L.pos(w))
	}

	k := &counter{s: s, ps: s.newP, none: "len(" + s.sym(s.newA[3]) + ")"}
	k.leaf = func(t *Term) string {
		if t == num {
			return "num"
		}
		if t == sm || s.isSMTerm(t) {
			return "sm"
		}
		for d := 0; d < 4 && t != nil; d++ {
			switch t.K {
			case KLoopVar:
				lv := s.lv(t.Op)
				if lv == nil || lv.Cell == nil || lv.Cell.K != KFieldAddr {
					return ""
				}
				if v, ok := lv.Cell.Ref.(*types.Var); ok && v.Origin() == sub.Origin() && s.isNewP(lv.Cell.Args[0]) {
					for _, i := range lv.Init {
						if x, ok := i.intConst(); (!ok || x != 0) && k.isSub(i, sub) == false {
							return ""
						}
					}
					return "subStages"
				}
				return ""
			case KHavoc:
				if k.isSub(t, sub) {
					return "subStages"
				}
				return ""
			}
			break
		}
		return ""
	}
	needed := func(p *Path) (perPipe, want poly) {
		perPipe = poly{"stages(sm)": 1, "subStages": 1}
		if k.noOptions(p) {
			perPipe = poly{"stages(sm)": 1}
		}
		return perPipe, perPipe.mul(poly{"num": 1})
	}

	okay := 0
	for _, p := range s.newP {
		at := c.pathAt(s.newF, p)
		s.local(p)
		perPipe, want := needed(p)
		if p.Kind == OIter {
			// no iteration ends the input
			c.ob(len(s.on(allEvs(p.Events, "close"), "close", s.in)) == 0, "New closes the input only when it fails", at, "closed in a loop")
			continue
		}
		if p.Kind != OReturn {
			continue // looked at by optionsApplied
		}
		maybe := false
		for i, e := range p.Events {
			if s.isWorker(e) || e.Kind == "loop" && len(k.perRoundQuiet(e.Name)) > 0 {
				maybe = true
			}
			if e.Kind == "go" && !s.isWorker(e) && p.Results[0] == tNil {
				for _, b := range e.Bodies {
					for _, x := range b.Events {
						c.ob(!blockingOp(x), "a failing New leaves no goroutine behind", at, "the one started at %s may wait at %s", c.L.pos(e.Instr), c.L.pos(x.Instr))
					}
				}
			}
			if e.Kind == "call" && isDemuxFn(e.Name, "New") && p.Results[0] == tNil {
				isN, known := isErrNil(p, e.Res[1])
				c.ob(known && !isN, "a failing New leaves no goroutine behind", at, "the demultiplexer is running (event %d)", i)
			}
		}
		closes := s.on(allEvs(p.Events, "close"), "close", s.in)
		if p.Results[0] != tNil {
			okay++
			en, kn := isErrNil(p, p.Results[1])
			c.ob(kn && en, "New returns a Pipelines or an error", at, "both may be non-nil")
			lo, _ := p.Facts.bounds(num)
			c.ob(lo >= 1, "New rejects num below 1", at, "num may be %d here", lo)
			c.ob(p.Facts.nonNil(sm), "New rejects a nil StateMachine", at, "it may be nil here")
			c.ob(len(closes) == 0, "New closes the input only when it fails", at, "closed at %s", c.evAtAny(closes))
			zero, never := k.zeros(p)
			got := k.started(p, p.Events, at)
			c.ob(never || same(got, want, zero), "New starts num times the number of stages workers", at, "it starts %s, not %s", got, want)
			s.workersGet(k, p, owner, sub, at)
			continue
		}
		en, kn := isErrNil(p, p.Results[1])
		c.ob(kn && !en, "New returns a Pipelines or an error", at, "it may return neither")
		if maybe {
			c.ob(len(closes) == 1, "a failing New ends the workers it started", at, "the input is closed %d times", len(closes))
			if len(closes) == 1 {
				late := false
				for _, e := range after(p.Events, closes[0]) {
					if s.isWorker(e) || e.Kind == "loop" && len(k.perRoundQuiet(e.Name)) > 0 {
						late = true
					}
				}
				_ = late // workers started after that end at once
			}
		} else {
			c.ob(len(closes) <= 1, "a failing New closes the input once", at, "%d times", len(closes))
		}
		// there is a reason
		why := false
		if _, hi := p.Facts.bounds(num); hi < 1 || p.Facts.isNil(sm) {
			why = true
		}
		for f := p.Facts; f != nil && !why; f = f.prev {
			if f.v && f.t.K == KBin && (f.t.Op == "==" || f.t.Op == "<") {
				// no stages
				d := k.eval(f.t.Args[0]).add(k.eval(f.t.Args[1]), -1)
				switch f.t.Op {
				case "==":
					why = d.eq(perPipe) || d.eq(poly{}.add(perPipe, -1)) || d.eq(want) || d.eq(poly{}.add(want, -1))
				case "<":
					why = d.eq(perPipe.add(poly{"": 1}, -1)) || d.eq(want.add(poly{"": 1}, -1))
				}
			}
			if !f.v && f.t.K == KBin && f.t.Op == "<" {
				// !(0 < S)
				d := k.eval(f.t.Args[1]).add(k.eval(f.t.Args[0]), -1)
				why = d.eq(perPipe) || d.eq(want)
			}
		}
		for _, e := range p.Events {
			if e.Kind == "invoke" && e.Name == "" && len(e.Res) > 0 || e.Kind == "call" && isDemuxFn(e.Name, "New") {
				if isN, known := isErrNil(p, e.Res[len(e.Res)-1]); known && !isN {
					why = true
				}
			}
		}
		c.ob(why, "New fails only for a reason", at, "num, the StateMachine, the options, the number of stages and the demultiplexer may all be fine here")
	}
	c.ob(okay > 0, "New can succeed", c.at(s.newF), "no path does")
	// workers end when the input is closed
	for _, w := range s.workers {
		for _, b := range w.Bodies {
			var end *Event
			for _, e := range s.on(b.Events, "recv", s.in) {
				if len(e.Res) > 1 {
					if v, known := constBool(e.Res[1]); known && !v {
						end = e
					}
				}
			}
			if end == nil {
				c.ob(b.Kind != OReturn, "workers end only with the input", c.evAt(w), "a path ends otherwise")
				continue
			}
			c.ob(b.Kind == OReturn, "workers end with the input", c.evAt(w), "a path goes on")
			for _, e := range after(b.Events, end) {
				c.ob(!blockingOp(e), "workers end with the input", c.evAt(w), "%s at %s", e.Kind, c.L.pos(e.Instr))
			}
		}
	}
}

// noOptions: New was given no options, on this path.
func (k *counter) noOptions(p *Path) bool {
	zero, _ := k.zeros(p)
	for _, z := range zero {
		if z.eq(poly{k.none: 1}) {
			return true
		}
	}
	return false
}

func (c *Check) evAtAny(es []*Event) string {
	if len(es) == 0 {
		return ""
	}
	return c.evAt(es[0])
}

func (k *counter) perRoundQuiet(key string) poly {
	n := len(k.s.c.Obs)
	r := k.perRound(key, "")
	k.s.c.Obs = k.s.c.Obs[:n]
	return r
}

// isSub: a value of the field that counts sub stages after unknown code (an option) ran.
func (k *counter) isSub(t *Term, sub *types.Var) bool {
	if t.K != KHavoc || len(t.Args) < 1 || t.Args[0].K != KFieldAddr {
		return false
	}
	v, ok := t.Args[0].Ref.(*types.Var)
	return ok && v.Origin() == sub.Origin() && k.s.isNewP(t.Args[0].Args[0])
}

// optionPaths runs an option constructor and visits the fields of the Pipelines it changes, on all paths.
func (s *staged) optionPaths(name string, f func(k *counter, v *types.Var, load, val *Term, args []*Term, q *Path, at string)) {
	c := s.c
	opt := c.fn(relStaged, name)
	e := c.eng(s.cfg())
	args, ps := c.run(e, opt)
	for _, p := range ps {
		at := c.pathAt(opt, p)
		if p.Kind != OReturn || len(p.Results) != 1 || p.Results[0].K != KClosure && p.Results[0].K != KFunc {
			c.ob(p.Kind == OIter, name+" returns an option", at, "it returns %v", p.Results)
			continue
		}
		cl := p.Results[0]
		fn := cl.Fn
		if o := fn.Origin(); o != nil {
			fn = o
		}
		as := e.params(fn)
		qs := e.RunClosure(fn, cl.Args, as, p.StateOf())
		s.learn(qs)
		for _, q := range qs {
			if q.Kind == OIter {
				continue
			}
			if q.Kind != OReturn {
				c.ob(false, name+" does not panic", at, "a path ends in a panic")
				continue
			}
			if isNil, known := isErrNil(q, q.Results[0]); !known || !isNil {
				continue
			}
			s.local(q)
			n := 0
			st := structOf(s.pipT)
			for i := 0; i < st.NumFields(); i++ {
				a := mkFieldAddr(as[0], i, s.pipT)
				v := q.heapVal(a)
				load := mkLoad(a)
				if v == load || expandable(st.Field(i).Type()) {
					continue
				}
				k := &counter{s: s, ps: append(append([]*Path(nil), qs...), ps...)}
				k.leaf = func(t *Term) string {
					if t == load {
						return "old"
					}
					return ""
				}
				if len(args) == 1 {
					s.names[args[0]] = "objs"
				}
				f(k, fieldVar(s.pipT, i), load, v, args, q, at)
				n++
			}
			_ = n
		}
	}
	s.local(nil)
}

// workersGet: what an option set is what the workers are given, unless something else reads it from the Pipelines.
func (s *staged) workersGet(k *counter, p *Path, owner map[*types.Var]string, sub *types.Var, at string) {
	c := s.c
	for v, opt := range owner {
		if v == sub {
			continue
		}
		readElsewhere := false
		for _, f := range c.L.All {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if fa, ok := i.(*ssa.FieldAddr); ok && fieldVar(deref(fa.X.Type()), fa.Field) == v.Origin() && !c.L.onlyFrom(f, s.newF, c.fn(relStaged, opt)) {
						readElsewhere = true
					}
				}
			}
		}
		if readElsewhere {
			continue
		}
		n := 0
		for _, q := range s.newP {
			for _, e := range q.Events {
				if !s.isWorker(e) || q.Kind != OIter || k.noOptions(q) {
					continue
				}
				n++
				s.local(q)
				found := false
				seen := map[*Term]bool{}
				var look func(t *Term, d int)
				look = func(t *Term, d int) {
					if t == nil || d > 6 || seen[t] {
						return
					}
					seen[t] = true
					if t.K == KLoopVar {
						if lv := s.lv(t.Op); lv != nil && lv.Cell != nil && lv.Cell.K == KFieldAddr && lv.Cell.Ref.(*types.Var).Origin() == v.Origin() && s.isNewP(lv.Cell.Args[0]) {
							found = true
						}
					}
					if t.K == KHavoc && t.Args[0].K == KFieldAddr && t.Args[0].Ref.(*types.Var).Origin() == v.Origin() && s.isNewP(t.Args[0].Args[0]) {
						found = true
					}
					if t.K == KAlloc && structOf(t.T) != nil {
						ty := t.T
						if pt, ok := ty.Underlying().(*types.Pointer); ok {
							ty = pt.Elem()
						}
						if st := structOf(ty); st != nil {
							for i := 0; i < st.NumFields(); i++ {
								a := mkFieldAddr(t, i, ty)
								look(q.heapVal(a), d+1)
							}
						}
						return
					}
					if t.K == KAlloc {
						look(q.heapVal(t), d+1)
						return
					}
					for _, a := range t.Args {
						look(a, d+1)
					}
				}
				for _, a := range e.Args {
					look(a, 0)
				}
				c.ob(found, "the workers get what the options set", c.evAt(e), "not what %s set %s to", opt, v.Name())
			}
		}
		c.ob(n > 0 || k.noOptions(p), "the workers get what the options set", at, "no worker is started in a loop")
	}
	s.local(p)
}

func init() {
	reg("C38", stagedProp(rC38), "Every loop of New gets a symbolic number of iterations; nested loops that start workers must start num times (stages of the StateMachine + what CountSubStages adds up over all objects); each option changes a field of its own independently of the others and reaches the workers; all failing paths have a reason, return nil and an error, and close the input if workers may run.")
}
