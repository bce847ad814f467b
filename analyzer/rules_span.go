package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40: every span the library starts is ended once. Spans are followed as values: span.New forks on whether the span
// of its Context is recording, and an ended span records no more.

const otelSpan = "(go.opentelemetry.io/otel/trace.Span)."

func isTraceSpan(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go.opentelemetry.io/otel/trace" && n.Obj().Name() == "Span"
}

// spanLeaves are the places of a struct that hold a span.
func spanLeaves(t types.Type, d int) [][]int {
	st := structOf(t)
	if st == nil || d > 3 {
		return nil
	}
	var r [][]int
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isTraceSpan(ft) {
			r = append(r, []int{i})
			continue
		}
		if expandable(ft) {
			for _, p := range spanLeaves(ft, d+1) {
				r = append(r, append([]int{i}, p...))
			}
		}
	}
	return r
}

// leafOf is the value at a place of a struct value.
func leafOf(v *Term, t types.Type, path []int) *Term {
	for _, i := range path {
		v = mkField(v, i, t)
		t = structOf(t).Field(i).Type()
	}
	return v
}

// spanOp: the event uses a span; spanQuiet: it only looks at it.
func spanOp(e *Event) *Term {
	if e.Kind == "span.new" || len(e.Args) == 0 {
		return nil
	}
	if strings.HasPrefix(e.Kind, "span.") || e.Kind == "invoke" && strings.HasPrefix(e.Name, otelSpan) {
		if e.Name == otelSpan+"SpanContext" || e.Name == otelSpan+"TracerProvider" {
			return nil
		}
		return e.Args[0]
	}
	return nil
}

// endsOf counts where a span is ended that may be recording.
func endsOf(es []*Event, sp *Term) int {
	n := 0
	for _, e := range es {
		if isEnd(e) && e.Args[0] == sp {
			n++
		}
		for _, b := range e.Bodies {
			if !dark(b.Facts, sp) {
				n += endsOf(b.Events, sp)
			}
		}
	}
	return n
}

// dark: the path knows that the span is not recording.
func dark(f *Fact, sp *Term) bool {
	if sp == tNil || f.isNil(sp) {
		return true
	}
	v, ok := f.Eval(mkPure("recording", types.Typ[types.Bool], sp))
	return ok && !v
}

// spanPath checks the spans a path starts; kept says which are ended by someone else, mine which others it may end.
func (c *Check) spanPath(es []*Event, facts *Fact, kind int, at string, kept, mine func(sp *Term) bool) {
	if kind == OPanic || kind == OExit {
		return
	}
	started := map[*Term]bool{}
	for i, e := range es {
		if e.Kind == "go" || e.Kind == "async" || e.Kind == "asyncerr" {
			for _, b := range e.Bodies {
				c.spanPath(b.Events, b.Facts, b.Kind, at+", goroutine at "+c.L.pos(e.Instr), nil, nil)
			}
		}
		if e.Kind == "span.new" {
			started[e.Res[1]] = true
		}
		if e.Kind == "span.new" {
			sp := e.Res[1]
			rest := es[i+1:]
			for j, x := range rest {
				if x.Kind == "span.new" && x.Res[1] == sp {
					rest = rest[:j]
					break
				}
			}
			n := endsOf(rest, sp)
			if kept != nil && kept(sp) {
				c.ob(n == 0 || dark(facts, sp), "a span that is kept is not ended here", at, "the one started at %s", c.L.pos(e.Instr))
				continue
			}
			if l := len(es); es[l-1].Kind == "cut" {
				in := -1
				for j := i + 1; j < l; j++ {
					if es[j].Kind == "loop" && es[j].Name == es[l-1].Name {
						in = j
					}
				}
				if in >= 0 {
					// a round of a loop that the span outlives
					c.ob(endsOf(es[in:], sp) == 0, "a span is ended once", at, "the span started at %s is ended in every round of the loop at %s", c.L.pos(e.Instr), c.L.pos(es[l-1].Instr))
					continue
				}
			}
			c.ob(n == 1 || n == 0 && dark(facts, sp), "a span that is started is ended once", at, "the span started at %s is ended %d times", c.L.pos(e.Instr), n)
		}
		if sp := spanOp(e); sp != nil {
			if isEnd(e) {
				c.ob(started[sp] || mine != nil && mine(sp) || dark(facts, sp), "only spans of the library are ended", at, "%s at %s", sp, c.L.pos(e.Instr))
			}
			if endsOf(es[:i], sp) > 0 {
				// guarded by IsRecording it does not get here
				c.ob(false, "a span is not used after its end", at, "at %s", c.L.pos(e.Instr))
			}
		}
	}
}

// spanCell is the place of an object that holds its span.
func (c *Check) spanCell(t *types.Named) []int {
	ls := spanLeaves(t, 0)
	c.need(len(ls) == 1, "role: span", "%s keeps one span (%d)", t.Obj().Name(), len(ls))
	return ls[0]
}

// startedOnce: the span is started in a function given to a Once of the object.
func startedOnce(es []*Event, i int, is func(once *Term) bool) bool {
	for j := i - 1; j >= 0; j-- {
		switch es[j].Kind {
		case "once.run":
			return is(es[j].Args[0])
		case "once.skip", "go", "send", "span.new":
			return false
		}
	}
	return false
}

func rC40(c *Check) {
	var engines []*Engine
	engines = append(engines, c.spansOfWait()...)

	s := c.stagedAs(nil, false)
	s.spansOfSubmit()
	s.spansOfGroupClose()
	s.spansOfWorkers()
	s.spansOfForwarders()
	engines = append(engines, s.subE, s.newE, s.nrgE)
	// the same for a request whose span is recording: then the stages' spans are its children
	a := c.stagedAs(nil, true)
	a.spansOfWorkers()
	for _, e := range c.engines {
		engines = append(engines, e)
	}
	c.spanSites(engines)
}

// spansOfWait: the span of a Group is started once between two Waits and ended by Wait.
func (c *Check) spansOfWait() []*Engine {
	T := c.typ(relWait, "Group")
	cell := c.spanCell(T)
	e := c.eng(Config{Async: asyncSubmit(), Spans: true})
	fGo, fWait := c.method(relWait, "Group", "Go"), c.method(relWait, "Group", "Wait")
	a, gos := c.run(e, fGo)
	adr := rebase(a[0], T, cell)
	starts := 0
	ofGroup := func(once *Term) bool {
		_, ok := relPath(once, a[0])
		return ok
	}
	for _, p := range gos {
		if p.Kind != OReturn {
			continue
		}
		at := c.pathAt(fGo, p)
		last := p.heapVal(adr)
		kept := func(sp *Term) bool { return sp == last }
		c.spanPath(p.Events, p.Facts, p.Kind, at, kept, nil)
		n := 0
		for i, x := range p.Events {
			if x.Kind == "span.new" && x.Res[1] == last {
				n++
				starts++
				c.ob(startedOnce(p.Events, i, ofGroup), "a Group starts its span once", at, "started at %s outside a Once", c.L.pos(x.Instr))
			}
		}
		init := e.load(&State{heap: map[*Term]*Term{}}, adr, adr.T)
		c.ob(n <= 1, "a Group starts its span once", at, "%d times", n)
		c.ob(n == 1 || last == init, "the Group keeps the span it started", at, "it holds %s", last)
	}
	c.need(starts > 0, "role: span", "Group.Go starts the Group's span")
	a, ws := c.run(e, fWait)
	adr = rebase(a[0], T, cell)
	sp := e.load(&State{heap: map[*Term]*Term{}}, adr, adr.T)
	for _, p := range ws {
		if p.Kind != OReturn {
			continue
		}
		at := c.pathAt(fWait, p)
		c.spanPath(p.Events, p.Facts, p.Kind, at, nil, func(t *Term) bool { return t == sp })
		n, waited := 0, false
		for _, x := range p.Events {
			switch {
			case x.Kind == "wg.wait":
				waited = true
			case isEnd(x) && x.Args[0] == sp:
				n++
				c.ob(waited, "a Group's span is ended when all functions ended", at, "ended before, at %s", c.L.pos(x.Instr))
			}
		}
		c.ob(n == 1 || n == 0 && dark(p.Facts, sp), "Wait ends the Group's span once", at, "%d times", n)
		c.ob(p.heapVal(adr) == tNil, "the Group forgets its span when Wait ended it", at, "it holds %s", p.heapVal(adr))
	}
	return []*Engine{e}
}

// spansOfSubmit: the group's span is started by the first Submit and kept, the request's goes with the request.
func (s *staged) spansOfSubmit() {
	c := s.c
	cell := c.spanCell(s.grpT)
	leaf := c.spanCell(s.reqT)
	adr := rebase(s.subA[0], s.grpT, cell)
	init := s.subE.load(&State{heap: map[*Term]*Term{}}, adr, adr.T)
	grp, req := 0, 0
	for _, p := range s.subP {
		if p.Kind != OReturn {
			continue
		}
		at := c.pathAt(s.subF, p)
		last := p.heapVal(adr)
		var sent, own *Term
		si := -1
		for i, e := range p.Events {
			if e.Kind == "send" && s.sym(e.Args[0]) == s.in && s.isReqVal(e.Args[1]) {
				sent, si = e.Args[1], i
				own = leafOf(sent, s.reqT, leaf)
			}
		}
		kept := func(sp *Term) bool { return sp == last || sp == own }
		c.spanPath(p.Events, p.Facts, p.Kind, at, kept, nil)
		for i, e := range p.Events {
			if e.Kind == "span.new" && e.Res[1] == last {
				grp++
				c.ob(startedOnce(p.Events, i, s.groupOnce), "a RequestGroup starts its span once", at, "started at %s outside a Once", c.L.pos(e.Instr))
			}
			if sp := spanOp(e); sp != nil && si >= 0 && i > si {
				c.ob(sp != own, "the span of a request is left alone once the request was handed over", at, "used at %s", c.L.pos(e.Instr))
			}
		}
		first := len(evs(p.Events, "once.run")) > 0
		c.ob(first || last == init, "the group keeps the span it started", at, "it holds %s", last)
		if sent != nil {
			c.ob(own != last || dark(p.Facts, own), "a request has a span of its own", at, "it has the group's")
			x := s.subE.spanOf(s.field(sent, s.fCtx))
			c.ob(x == own, "the Context of a request carries its span", at, "it carries %s", x)
			for _, e := range evs(p.Events, "span.new") {
				if e.Res[1] == own {
					req++
				}
			}
		}
	}
	c.need(grp > 0, "role: span", "Submit starts the group's span")
	c.need(req > 0, "role: span", "Submit starts the request's span")
}

// groupOnce: a Once of the group that is not replaced.
func (s *staged) groupOnce(once *Term) bool {
	if once.K == KLoad {
		v, ok := once.Args[0].Ref.(*types.Var)
		return ok && s.fixed[v.Origin()] && strings.HasPrefix(s.sym(once.Args[0]), "G.")
	}
	v, ok := once.Ref.(*types.Var)
	return ok && len(s.c.L.storesTo(v.Origin())) == 0 && strings.HasPrefix(s.sym(once), "G.")
}

// spansOfGroupClose: Close ends the group's span.
func (s *staged) spansOfGroupClose() {
	c := s.c
	cell := c.spanCell(s.grpT)
	for _, p := range s.gclP {
		if p.Kind != OReturn {
			continue
		}
		at := c.pathAt(s.gclF, p)
		adr := rebase(p.E.params(s.gclF)[0], s.grpT, cell)
		sp := p.E.load(&State{heap: map[*Term]*Term{}}, adr, adr.T)
		// what the path finds there after it has waited
		var vals []*Term
		for _, e := range p.Events {
			if t := spanOp(e); t != nil {
				vals = addUniq(vals, t)
			}
		}
		c.spanPath(p.Events, p.Facts, p.Kind, at, nil, func(t *Term) bool { return t == sp })
		n, waited := 0, false
		for _, x := range p.Events {
			switch {
			case x.Kind == "wg.wait" && s.sym(x.Args[0]) == s.groupWG:
				waited = true
			case isEnd(x) && x.Args[0] == sp:
				n++
				c.ob(waited, "a group's span is ended when all its requests left", at, "ended before, at %s", c.L.pos(x.Instr))
			}
		}
		c.ob(n == 1 || n == 0 && dark(p.Facts, sp), "Close ends the group's span once", at, "%d times (%v)", n, vals)
	}
}

// spansOfWorkers: a stage's span is ended when the stage returned; the request leaves with the span it came with.
func (s *staged) spansOfWorkers() {
	c := s.c
	leaf := c.spanCell(s.reqT)
	e := s.newE
	each := func(f func(b *Path, at string)) {
		for _, g := range s.workers {
			for _, b := range g.Bodies {
				at := c.evAt(g)
				if b.End != nil {
					at += ", path ending at " + c.L.pos(b.End)
				}
				if s.assume {
					at += " (request recording)"
				}
				s.local(b)
				f(b, at)
				s.local(nil)
			}
		}
	}
	n, sends := 0, 0
	each(func(b *Path, at string) {
		c.spanPath(b.Events, b.Facts, b.Kind, at, nil, nil)
		var open *Event
		for i, x := range b.Events {
			switch {
			case x.Kind == "span.new":
				n++
				c.ob(open == nil, "a stage's span is ended before the next begins", at, "started at %s", c.L.pos(x.Instr))
				open = x
				if s.assume {
					p := e.spanOf(x.Args[0])
					c.ob(p == s.rs, "a stage's span is a child of the request's", at, "the span started at %s is one of %s", c.L.pos(x.Instr), p)
				}
			case isEnd(x):
				if open != nil && x.Args[0] == open.Res[1] {
					open = nil
				}
			case x.Kind == "send" && s.sym(x.Args[0]) == s.out && s.isReqVal(x.Args[1]):
				sends++
				v := x.Args[1]
				c.ob(open == nil || dark(b.Facts, open.Res[1]), "a stage's span is ended before the request leaves", at, "the one started at %s", c.L.pos(b.Events[i].Instr))
				sp := s.norm(leafOf(v, s.reqT, leaf))
				c.ob(sp == s.rs, "a request leaves with the span it came with", at, "sends %s", sp)
				if s.assume {
					p := e.spanOf(s.field(v, s.fCtx))
					c.ob(p == s.rs, "the Context of a request leaves with the span it came with", at, "it carries %s", p)
				}
			}
			if open != nil && dark(b.Facts, open.Res[1]) && x != open {
				open = nil
			}
		}
	})
	c.need(n > 0, "role: span", "workers start the spans of stages")
	c.need(sends > 0, "role: output", "workers send requests")
	if !s.assume {
		return
	}
	// what was assumed about Contexts that loops carry
	check := func(emit bool) {
		each(func(b *Path, at string) {
			for _, x := range b.Events {
				if x.Kind != "loop" && x.Kind != "cut" {
					continue
				}
				for i := 0; i+1 < len(x.Args); i += 2 {
					lv, v := x.Args[i], x.Args[i+1]
					if !s.assumed[lv] || v == lv {
						continue
					}
					p := e.spanOf(v)
					if emit {
						c.ob(p == s.rs, "a request leaves a stage with the span its Context had before", at, "the loop at %s goes on with %s", c.L.pos(x.Instr), p)
					}
				}
			}
		})
	}
	for k := -1; k != len(s.assumed); {
		k = len(s.assumed)
		check(false)
	}
	check(true)
}

// spansOfForwarders: a request's span is ended once when it leaves.
func (s *staged) spansOfForwarders() {
	c := s.c
	leaf := c.spanCell(s.reqT)
	n := 0
	for _, fw := range s.fwd {
		for _, b := range fw.ev.Bodies {
			at := c.evAt(fw.ev)
			if b.End != nil {
				at += ", path ending at " + c.L.pos(b.End)
			}
			var vals []*Term
			mine := func(t *Term) bool {
				for _, v := range vals {
					if v == t {
						return true
					}
				}
				return false
			}
			for i, x := range b.Events {
				if x.Kind != "recv" || x.Args[0] != fw.ch || x.Res[1] == tFalse || !s.isReqVal(x.Res[0]) {
					continue
				}
				sp := leafOf(x.Res[0], s.reqT, leaf)
				vals = append(vals, sp)
				if b.Kind == OPanic || b.Kind == OExit {
					continue
				}
				n++
				m := endsOf(b.Events[i:], sp)
				c.ob(m == 1 || m == 0 && dark(b.Facts, sp), "the span of a request is ended once when it leaves", at, "%d times", m)
			}
			c.spanPath(b.Events, b.Facts, b.Kind, at, nil, mine)
		}
	}
	c.need(n > 0, "role: forwarder", "forwarders receive requests")
}

// spanSites: no span is started or ended, or its place written, where no path was looked at.
func (c *Check) spanSites(es []*Engine) {
	seen := map[*ssa.Function]bool{}
	for _, e := range es {
		for f := range e.Funcs {
			seen[f] = true
			if o := f.Origin(); o != nil {
				seen[o] = true
			}
		}
	}
	visited := func(f *ssa.Function) bool {
		if o := f.Origin(); o != nil && seen[o] {
			return true
		}
		return seen[f]
	}
	n := 0
	for _, f := range c.L.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case ssa.CallInstruction:
					com := i.Common()
					name := ""
					if com.IsInvoke() {
						name = com.Method.FullName()
					} else if g := com.StaticCallee(); g != nil {
						name = g.String()
					}
					switch name {
					case "(go.opentelemetry.io/otel/trace.Tracer).Start":
						c.ob(false, "spans are started by package span", c.at(f), "Tracer.Start at %s", c.L.pos(i))
					case "github.com/gostdlib/internals/otel/span.New", "(github.com/gostdlib/internals/otel/span.Span).End", otelSpan + "End":
						n++
						c.ob(visited(f), "every place that starts or ends a span was looked at", c.at(f), "%s", c.L.pos(i))
					}
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					v := fieldVar(deref(fa.X.Type()), fa.Field)
					if v == nil || !(isTraceSpan(v.Type()) || len(spanLeaves(v.Type(), 0)) > 0 && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), modPath)) {
						continue
					}
					n++
					c.ob(visited(f), "every place that keeps a span was looked at", c.at(f), "%s", c.L.pos(i))
				}
			}
		}
	}
	c.need(n > 0, "role: span", "the library starts spans")
}

func init() {
	reg("C40", rC40, "On every path that starts a span it is ended exactly once unless it is kept by its Group, group or request, which Wait, Close and the forwarders end exactly once after waiting; no span is used after its end; with the request's span recording, loop invariants show that every stage's span is its child and that request and Context leave with it.")
}
