package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relSlices = "prim/slices"
	relChans  = "prim/chans"
)

// accessCfg sees wait.Group as its interface: Go starts its argument with the Context given (C15, C16), Wait
// waits for everything started and returns their errors (C15, C17). The pools are seen as calls.
func accessCfg(l *Loaded) Config {
	grp := "(*" + modPath + "/" + relWait + ".Group)."
	return Config{
		RecordLoads: true,
		Opaque: func(f *ssa.Function) bool {
			n := fullName(f)
			for _, p := range []string{relLim, relPool, relGor} {
				if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+p {
					return true
				}
			}
			return n == grp+"Running"
		},
		Model: func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
			switch name {
			case grp + "Go":
				st2 := structOf(deref(args[0].T))
				_ = st2
				var cfg []*Term
				gt := e.L.typ(relWait, "Group")
				for _, n := range []string{"Pool", "PoolOptions", "CancelOnErr"} {
					v := tNil
					for _, i := range fieldsOf(gt, nameIs(n)) {
						a := mkFieldAddr(args[0], i, gt)
						v = e.load(st, a, structOf(gt).Field(i).Type())
					}
					cfg = append(cfg, v)
				}
				bs, start := e.bodies(fr, st, site, args[2], []*Term{args[1]}, nil)
				st.ev(&Event{Kind: "wait.go", Name: name, Args: append(append([]*Term(nil), args...), cfg...), Bodies: bs, Fn: fr.fn, Instr: ins, Site: site})
				e.absorb(st, bs, start, site)
				return []callOut{{st: st, res: tNil}}
			case grp + "Wait":
				f := e.L.method(relWait, "Group", "Wait")
				r, rs := resultTerm(site, f.Signature.Results())
				gt := e.L.typ(relWait, "Group")
				cf := tNil
				for _, i := range fieldsOf(gt, nameIs("CancelOnErr")) {
					cf = e.load(st, mkFieldAddr(args[0], i, gt), structOf(gt).Field(i).Type())
				}
				st.ev(&Event{Kind: "wait.wait", Name: name, Args: append(append([]*Term(nil), args...), cf), Res: rs, Fn: fr.fn, Instr: ins, Site: site, Blocking: true})
				return []callOut{{st: st, res: r}}
			}
			return nil
		},
	}
}

// accessor is one of slices.Access, chans.Access and chans.Modify.
type accessor struct {
	c    *Check
	rel  string
	e    *Engine
	fn   *ssa.Function
	ctx  *Term
	in   *Term // the slice or channel
	out  *Term // Modify: the output
	user *Term // the accessor or modifier
	opts *Term
	ps   []*Path
}

func (c *Check) accessor(rel, name string) *accessor {
	a := &accessor{c: c, rel: rel, fn: c.fn(rel, name)}
	a.e = c.eng(accessCfg(c.L))
	args, ps := c.run(a.e, a.fn)
	n := 4
	if name == "Modify" {
		n = 5
	}
	c.need(len(args) == n, "role: parameters", "%s.%s takes %d parameters", rel, name, n)
	a.ctx, a.in, a.user, a.opts, a.ps = args[0], args[1], args[n-2], args[n-1], ps
	if n == 5 {
		a.out = args[2]
	}
	return a
}

func (a *accessor) gos(es []*Event) []*Event { return evs(es, "wait.go") }

// userCalls are the calls of the accessor in code started by a path.
func (a *accessor) userCalls(es []*Event) []*Event {
	var r []*Event
	for _, e := range es {
		if e.Kind == "invoke" && e.Name == "" && e.Args[0] == a.user {
			r = append(r, e)
		}
	}
	return r
}

// forReturns visits the returning paths; others are violations.
func (a *accessor) forReturns(f func(p *Path, at string)) {
	n := 0
	for _, p := range a.ps {
		if p.Kind != OReturn {
			a.c.ob(p.Kind == OCut, a.fn.Name()+" returns", a.c.pathAt(a.fn, p), "a path ends in a panic or exit")
			continue
		}
		n++
		f(p, a.c.pathAt(a.fn, p))
	}
	a.c.need(n > 0, "role: paths", "%s returns", a.fn.Name())
}

// forBodies visits the paths of everything handed to the Group.
func (a *accessor) forBodies(f func(p *Path, g *Event, b *Path, at string)) {
	n := 0
	for _, p := range a.ps {
		for _, g := range a.gos(p.Events) {
			for _, b := range g.Bodies {
				n++
				at := a.c.evAt(g)
				if b.End != nil {
					at += ", path ending at " + a.c.L.pos(b.End)
				}
				a.c.ob(b.Kind == OReturn, "what is handed to the Group returns", at, "it ends otherwise")
				f(p, g, b, at)
			}
		}
	}
	a.c.need(n > 0, "role: Group", "%s.%s hands functions to a wait.Group", a.rel, a.fn.Name())
}

// cancelled: a derived context is known to be cancelled on the path.
func (a *accessor) cancelled(p *Path) bool {
	if p.Facts.cancelled(a.ctx) {
		return true
	}
	for f := p.Facts; f != nil; f = f.prev {
		if f.v && f.t.K == KPure && f.t.Op == "cancelled" && derived(f.t.Args[0], ctxRoot(a.ctx)) {
			return true
		}
	}
	return false
}

// failedEarly: the options or the pool could not be made, so nothing is started.
func (a *accessor) failedEarly(p *Path) *Term {
	for _, e := range evs(p.Events, "call") {
		for _, r := range e.Res {
			if r.T != nil && isErrorType(r.T) && p.Facts.nonNil(r) && (e.Name == applyOptions || e.Name == modPath+"/"+relLim+".New" || e.Name == modPath+"/"+relPool+".New") {
				return r
			}
		}
	}
	return nil
}

const applyOptions = "github.com/johnsiilver/calloptions.ApplyOptions"

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// goLoop is the loop in which functions are handed to the Group.
func (a *accessor) goLoop(p *Path) string {
	for i, e := range p.Events {
		if e.Kind == "wait.go" {
			if l := loopsAround(p.Events, i); len(l) == 1 {
				return l[0]
			}
			return ""
		}
	}
	return ""
}

// ---------------------------------------------------------------- C20

func rC20(c *Check) {
	a := c.accessor(relSlices, "Access")
	n := mkLen(a.in)
	isGo := func(e *Event) bool { return e.Kind == "wait.go" }
	keys := map[string]bool{}
	for _, p := range a.ps {
		if k := a.goLoop(p); k != "" {
			keys[k] = true
		}
	}
	c.need(len(keys) == 1, "role: loop", "slices.Access hands its functions to the Group in one loop (%d)", len(keys))
	key := sortedKeys(keys)[0]
	a.forReturns(func(p *Path, at string) {
		gs := a.gos(p.Events)
		c.ob(len(a.userCalls(p.Events)) == 0, "the accessor is called by what is handed to the Group only", at, "called by Access itself")
		for i, e := range p.Events {
			if e.Kind == "wait.go" {
				l := loopsAround(p.Events, i)
				c.ob(len(l) == 1 && l[0] == key, "functions are handed to the Group once in each iteration of one loop", c.evAt(e), "in loops %v", l)
			}
		}
		if a.failedEarly(p) != nil {
			c.ob(len(gs) == 0, "nothing is started after a failure", at, "%d started", len(gs))
			return
		}
		if _, hi := p.Facts.bounds(n); hi == 0 {
			return
		}
		if a.cancelled(p) && p.trip(key) == nil {
			// left early; each complete iteration still handed over one
			for _, s := range segments(p.Events, key) {
				c.ob(len(a.gos(s)) == 1, "one function is handed over in each iteration", at, "%d", len(a.gos(s)))
			}
			return
		}
		if len(gs) == 0 {
			// no iteration on this path
			for _, s := range segments(p.Events, key) {
				c.ob(len(a.gos(s)) == 1, "one function is handed over in each iteration", at, "%d", len(a.gos(s)))
			}
			t := p.trip(key)
			ok := t != nil
			c.ob(ok, "every element is handed over unless the Context is cancelled", at, "the loop is left other than by its condition")
			return
		}
		for _, g := range gs {
			idx, bad := a.indexOf(g)
			if bad != "" {
				continue // reported below
			}
			ok, why := p.covers(p.Events, isGo, idx, n)
			c.ob(ok, "one function is handed over for each index from 0 to len-1", c.evAt(g), "%s", orOK(why))
		}
	})
	a.forBodies(func(p *Path, g *Event, b *Path, at string) {
		us := a.userCalls(b.Events)
		c.ob(len(us) == 1, "what is handed over calls the accessor once", at, "%d times", len(us))
		for _, e := range b.Events {
			switch e.Kind {
			case "go", "async", "asyncerr", "wait.go":
				c.ob(false, "what is handed over starts nothing else", c.evAt(e), "%s", e.Kind)
			case "store":
				c.ob(isFresh(e.Args[0].root()), "what is handed over writes nothing itself", c.evAt(e), "%v", e.Args[0])
			}
		}
		for _, u := range us {
			if len(u.Args) != 5 {
				c.ob(false, "the accessor gets Context, index, value and modifier", c.evAt(u), "%d arguments", len(u.Args))
				continue
			}
			_, bad := a.indexOf(g)
			c.ob(bad == "", "the accessor is called with the index of its iteration", c.evAt(u), "%s", orOK(bad))
			i := u.Args[2]
			c.ob(a.isElem(u.Args[3], i), "the accessor is called with the element at its index", c.evAt(u), "%v", u.Args[3])
			a.modifier(u, b, i)
		}
	})
}

// indexOf is the index the function handed over passes to the accessor.
func (a *accessor) indexOf(g *Event) (*Term, string) {
	var idx *Term
	for _, b := range g.Bodies {
		for _, u := range a.userCalls(b.Events) {
			if len(u.Args) != 5 {
				return nil, "wrong arguments"
			}
			if idx != nil && idx != u.Args[2] {
				return nil, "different indexes"
			}
			idx = u.Args[2]
		}
	}
	if idx == nil {
		return nil, "the accessor is not called"
	}
	x, _ := stripAdd(idx)
	if x.K != KLoopVar {
		return nil, "the index is " + idx.String()
	}
	return idx, ""
}

// isElem: the element of the caller's slice at the index.
func (a *accessor) isElem(v, i *Term) bool {
	if v.K == KLoad && v.Args[0].K == KIndexAddr && v.Args[0].Args[0] == a.in && v.Args[0].Args[1] == i {
		return true
	}
	return v.K == KIndex && v.Args[0] == a.in && v.Args[1] == i
}

// modifier checks that the function writes its argument to the element and does nothing else.
func (a *accessor) modifier(u *Event, b *Path, i *Term) {
	c := a.c
	m := u.Args[4]
	if !c.ob((m.K == KClosure || m.K == KFunc) && m.Fn != nil && len(m.Fn.Params) == 1, "the modifier is a function of this package", c.evAt(u), "%v", m) {
		return
	}
	v := mkParam("modifier.v", m.Fn.Params[0].Type())
	var bind []*Term
	if m.K == KClosure {
		bind = m.Args
	}
	st := b.StateOf()
	for _, q := range a.e.RunClosure(m.Fn, bind, []*Term{v}, st) {
		if q.Kind != OReturn {
			c.ob(false, "the modifier returns", c.at(m.Fn), "a path ends otherwise")
			continue
		}
		n, other := 0, ""
		for _, e := range q.Events {
			switch e.Kind {
			case "load", "loop", "loopback", "loopexit":
			case "store":
				ad := e.Args[0]
				if isFresh(ad.root()) {
					continue
				}
				if ad.K == KIndexAddr && ad.Args[0] == a.in && ad.Args[1] == i && e.Args[1] == v {
					n++
					continue
				}
				other = "writes " + e.Args[1].String() + " to " + ad.String()
			default:
				other = e.Kind + " at " + c.evAt(e)
			}
		}
		c.ob(n >= 1 && other == "", "the modifier writes its argument to the element at the index and nothing else", c.at(m.Fn), "%d writes, %s", n, orOK(other))
	}
}

// ---------------------------------------------------------------- C21

func rC21(c *Check) {
	for _, x := range [][2]string{{relSlices, "Access"}, {relChans, "Access"}} {
		a := c.accessor(x[0], x[1])
		a.contained()
	}
}

func isPoolClose(e *Event) bool {
	return (e.Kind == "call" || e.Kind == "invoke") && strings.HasSuffix(e.Name, ".Close") && strings.Contains(e.Name, modPath)
}

// contained: all that is started is waited for, own pools are closed after that, others never.
func (a *accessor) contained() {
	c := a.c
	a.forReturns(func(p *Path, at string) {
		last := map[*Term]int{}
		waited := map[*Term]int{}
		created := map[*Term]int{}
		closed := map[*Term]int{}
		lastWait := -1
		for i, e := range p.Events {
			switch {
			case e.Kind == "wait.go":
				last[e.Args[0]] = i
				c.ob(isFresh(e.Args[0].root()), "the Group is the call's own", c.evAt(e), "%v", e.Args[0])
			case e.Kind == "wait.wait":
				waited[e.Args[0]] = i
				lastWait = i
			case e.Kind == "go" || e.Kind == "async":
				c.ob(false, "only the Group starts anything", c.evAt(e), "%s", e.Kind)
			case e.Kind == "call" && (e.Name == modPath+"/"+relLim+".New" || e.Name == modPath+"/"+relPool+".New"):
				if len(e.Res) == 2 && !p.Facts.nonNil(e.Res[1]) {
					created[e.Res[0]] = i
				}
			case isPoolClose(e):
				r := unIface(e.Args[0])
				_, mine := created[r]
				c.ob(mine, "only a pool created here is closed", c.evAt(e), "closes %v", r)
				closed[r] = i
			}
		}
		for g, i := range last {
			w, ok := waited[g]
			c.ob(ok && w > i, "the Group is waited for after the last function was handed over", at, "handed over at step %d, waited at %d (%v)", i, w, ok)
		}
		for pl := range created {
			i, ok := closed[pl]
			c.ob(ok && i > lastWait, "a pool created here is closed after waiting, on every path", at, "closed at step %d (%v), waited at %d", i, ok, lastWait)
		}
	})
	a.forBodies(func(p *Path, g *Event, b *Path, at string) {
		for _, e := range b.Events {
			switch e.Kind {
			case "go", "async", "asyncerr", "wait.go":
				c.ob(false, "what is handed to the Group starts nothing else", c.evAt(e), "%s", e.Kind)
			}
			if isPoolClose(e) {
				c.ob(false, "what is handed to the Group closes no pool", c.evAt(e), "%s", e.Name)
			}
		}
	})
}

// ---------------------------------------------------------------- C22

func rC22(c *Check) {
	for _, x := range [][2]string{{relSlices, "Access"}, {relChans, "Access"}} {
		a := c.accessor(x[0], x[1])
		a.errors()
	}
}

// complete: everything was handed over on this path.
func (a *accessor) complete(p *Path) bool {
	if a.rel == relSlices {
		if _, hi := p.Facts.bounds(mkLen(a.in)); hi == 0 {
			return true
		}
		for i, e := range p.Events {
			if e.Kind == "wait.wait" {
				// the last loop before it
				for j := i; j >= 0; j-- {
					if p.Events[j].Kind == "loopexit" {
						return p.trip(p.Events[j].Name) != nil
					}
				}
			}
		}
		return false
	}
	if p.Facts.isNil(a.in) {
		return true
	}
	for _, e := range onChan(p.Events, "recv", a.in) {
		if e.Res[1] == tFalse {
			return true
		}
	}
	return false
}

// joined lists what an error is a plain join of.
func joined(r *Term) []*Term {
	r = unIface(r)
	if r.K == KPure && (r.Op == "join" || r.Op == "join2") {
		var l []*Term
		for _, x := range r.Args {
			l = append(l, joined(x)...)
		}
		return l
	}
	return []*Term{r}
}

func (a *accessor) errors() {
	c := a.c
	a.forReturns(func(p *Path, at string) {
		if len(p.Results) != 1 {
			return
		}
		r := p.Results[0]
		if er := a.failedEarly(p); er != nil {
			c.ob(wraps(r, er), "a failing option or pool is reported", at, "returns %v", r)
			return
		}
		var E *Term
		for _, e := range evs(p.Events, "wait.wait") {
			E = e.Res[0]
		}
		if len(a.gos(p.Events)) > 0 {
			c.ob(E != nil, "the Group's error is taken", at, "no Wait")
		}
		cancelled := false
		for _, e := range p.Events {
			if e.Kind == "ctxerr" && e.Res[0] != tNil {
				cancelled = true
			}
			if e.Kind == "recv" && e.Args[0].K == KPure && e.Args[0].Op == "ctxdone" {
				cancelled = true
			}
		}
		if E != nil && !p.Facts.isNil(E) {
			c.ob(wraps(r, E), "the Group's error is returned", at, "returns %v", r)
			if p.Facts.nonNil(E) {
				return
			}
		}
		if !a.complete(p) {
			ok := false
			for _, x := range joined(r) {
				if p.Facts.nonNil(x) || x.K == KCtxErr {
					ok = true
				}
			}
			c.ob(ok, "an error is returned if not everything was handed over", at, "returns %v", r)
			return
		}
		if cancelled {
			return
		}
		ok := true
		for _, x := range joined(r) {
			if x != E && x != tNil && !p.Facts.isNil(x) {
				ok = false
			}
		}
		c.ob(ok, "without error or cancellation nil is returned", at, "returns %v", r)
	})
	a.forBodies(func(p *Path, g *Event, b *Path, at string) {
		us := a.userCalls(b.Events)
		if !c.ob(len(us) == 1 && len(b.Results) == 1, "what is handed over calls the accessor once", at, "%d times", len(us)) {
			return
		}
		a.bodyError(b, us[0].Res[len(us[0].Res)-1], at)
	})
}

// bodyError: what is handed over returns the accessor's error.
func (a *accessor) bodyError(b *Path, R *Term, at string) {
	c := a.c
	r := b.Results[0]
	if isNil, known := isErrNil(b, R); known {
		if isNil {
			c.ob(r == R || b.Facts.isNil(r) || r.K == KCtxErr && a.cancelled(b), "no error is made up", at, "returns %v", r)
		} else {
			c.ob(wraps(r, R), "the accessor's error is returned to the Group", at, "returns %v", r)
		}
		return
	}
	c.ob(r == R, "the accessor's error is returned to the Group", at, "returns %v", r)
}

// ---------------------------------------------------------------- C23

func rC23(c *Check) {
	for _, x := range [][2]string{{relSlices, "Access"}, {relChans, "Access"}, {relChans, "Modify"}} {
		a := c.accessor(x[0], x[1])
		a.options()
	}
}

// optCell: a value read from the option struct after the options were applied; the field it was read from.
func optCell(v, base *Term) (int, bool) {
	if v.K == KHavoc && len(v.Args) > 0 && v.Args[0].K == KFieldAddr && v.Args[0].Args[0] == base {
		return v.Args[0].Idx, true
	}
	return 0, false
}

func (a *accessor) options() {
	c := a.c
	var optT types.Type
	fPool, fOpts, fStop := -1, -1, -1
	a.forReturns(func(p *Path, at string) {
		var ap *Event
		apI := -1
		for i, e := range p.Events {
			if e.Kind == "call" && e.Name == applyOptions {
				c.ob(ap == nil, "options are applied once", c.evAt(e), "again")
				ap, apI = e, i
			}
		}
		gs := a.gos(p.Events)
		if ap == nil {
			c.ob(len(gs) == 0, "options are applied before anything is started", at, "no ApplyOptions")
			return
		}
		base := unIface(ap.Args[0])
		if structOf(base.T) == nil {
			c.ob(false, "options are applied to a struct of the function", c.evAt(ap), "%v of type %v", base, base.T)
			return
		}
		okArgs := c.ob(isFresh(base.root()) && ap.Args[1] == a.opts, "all options given are applied to a fresh option struct", c.evAt(ap), "%v", ap.Args)
		if ci, ok := ap.Instr.(ssa.CallInstruction); ok && okArgs {
			optT = ci.Common().Args[0].Type()
			if mi, ok := ci.Common().Args[0].(*ssa.MakeInterface); ok {
				optT = mi.X.Type()
			}
		}
		if !p.Facts.isNil(ap.Res[0]) {
			c.ob(len(gs) == 0, "nothing is started unless the options were accepted", at, "%d started", len(gs))
			if p.Facts.nonNil(ap.Res[0]) {
				c.ob(wraps(p.Results[0], ap.Res[0]), "a refused option is reported", at, "returns %v", p.Results[0])
			}
			return
		}
		for i, e := range p.Events {
			if e.Kind == "store" && i > apI && covers(e.Args[0], base) {
				_ = i
			}
		}
		for gi, g := range p.Events {
			if g.Kind != "wait.go" {
				continue
			}
			ctx, pool, po, cf := g.Args[1], g.Args[3], g.Args[4], g.Args[5]
			// the pool
			if i, ok := optCell(unIface(pool), base); ok {
				c.ob(fPool < 0 || fPool == i, "one field holds the pool", c.evAt(g), "field %d and %d", fPool, i)
				fPool = i
			} else {
				// a pool of its own only if none was given
				none := false
				for j := 0; base.T != nil && j < structOf(base.T).NumFields(); j++ {
					for f := p.Facts; f != nil; f = f.prev {
						if f.v && f.t.K == KBin && f.t.Op == "==" && f.t.Args[1] == tNil {
							if k, ok := optCell(f.t.Args[0], base); ok && isPoolType(structOf(base.T).Field(k).Type()) {
								none = true
							}
						}
					}
				}
				c.ob(none, "the pool given is used", c.evAt(g), "uses %v", pool)
			}
			if i, ok := optCell(po, base); c.ob(ok, "the submit options given are used", c.evAt(g), "uses %v", po) {
				fOpts = i
			}
			// stop on error
			stop, known, sf := a.stopOn(p, base)
			if c.ob(known, "WithStopOnErr decides on cancellation", c.evAt(g), "no flag of the option struct is examined") {
				fStop = sf
				if stop {
					ok := cf != nil && cf.K == KPure && cf.Op == "cancelfunc" && derived(ctx, cf.Args[0]) && derived(cf.Args[0], a.ctx)
					c.ob(ok, "with WithStopOnErr the first error cancels the Context of the calls", c.evAt(g), "Context %v, CancelOnErr %v", ctx, cf)
				} else {
					c.ob(a.harmless(cf, p), "without WithStopOnErr an error cancels nothing", c.evAt(g), "CancelOnErr %v", cf)
				}
			}
			for j, e := range p.Events {
				if e.Kind == "cancel" && j < gi {
					c.ob(false, "nothing is cancelled while elements are handed over", c.evAt(e), "%v", e.Args)
				}
			}
		}
		wi := -1
		for i, e := range p.Events {
			if e.Kind == "wait.wait" {
				wi = i
			}
		}
		for j, e := range p.Events {
			if e.Kind == "cancel" && j < wi {
				c.ob(false, "nothing is cancelled before everything finished", c.evAt(e), "%v", e.Args)
			}
		}
	})
	a.forBodies(func(p *Path, g *Event, b *Path, at string) {
		for _, e := range b.Events {
			if e.Kind == "cancel" {
				c.ob(false, "what is handed over cancels nothing itself", c.evAt(e), "%v", e.Args)
			}
		}
		for _, u := range a.userCalls(b.Events) {
			c.ob(len(u.Args) > 1 && derived(u.Args[1], g.Args[1]), "the accessor gets the Context that is cancelled", c.evAt(u), "%v", u.Args[1])
		}
		// an error reaches the Group, which is what cancels
		if us := a.userCalls(b.Events); len(us) == 1 && len(b.Results) == 1 {
			a.bodyError(b, us[0].Res[len(us[0].Res)-1], at)
		}
	})
	c.need(optT != nil, "role: options", "options are applied with calloptions.ApplyOptions")
	c.ob(fPool >= 0, "a pool given is used", c.at(a.fn), "the Group never gets a pool from the options")
	if fPool < 0 || fOpts < 0 || fStop < 0 {
		return
	}
	a.constructors(optT, fPool, fOpts, fStop)
}

func isPoolType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Pool" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+relGor
}

// stopOn: the flag of the option struct known on the path.
func (a *accessor) stopOn(p *Path, base *Term) (val, known bool, field int) {
	for f := p.Facts; f != nil; f = f.prev {
		if i, ok := optCell(f.t, base); ok {
			if b, ok := structOf(base.T).Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return f.v, true, i
			}
		}
	}
	return false, false, -1
}

// harmless: nil, or a function without effect.
func (a *accessor) harmless(f *Term, p *Path) bool {
	if f == nil || f == tNil {
		return true
	}
	if f.K != KFunc && f.K != KClosure {
		return false
	}
	var bind []*Term
	if f.K == KClosure {
		bind = f.Args
	}
	for _, q := range a.e.RunClosure(f.Fn, bind, nil, p.StateOf()) {
		if q.Kind != OReturn {
			return false
		}
		for _, e := range q.Events {
			if e.Kind != "load" {
				return false
			}
		}
	}
	return true
}

// constructors: every option of the package sets what it says on the option struct of the function.
func (a *accessor) constructors(optT types.Type, fPool, fOpts, fStop int) {
	c := a.c
	// the element type of the options parameter
	sl, ok := a.fn.Params[len(a.fn.Params)-1].Type().Underlying().(*types.Slice)
	c.need(ok, "role: options", "the last parameter is a list of options")
	oi, ok := sl.Elem().Underlying().(*types.Interface)
	c.need(ok, "role: options", "options are an interface")
	n := 0
	for _, f := range c.L.exported(a.rel) {
		rs := f.Signature.Results()
		if f.Signature.Recv() != nil || rs.Len() != 1 || !types.Implements(rs.At(0).Type(), oi) {
			continue
		}
		n++
		args, outs := c.run(a.e, f)
		for _, o := range outs {
			at := c.pathAt(f, o)
			if o.Kind != OReturn {
				c.ob(false, "an option constructor returns", at, "it ends otherwise")
				continue
			}
			var made *Event
			for _, e := range evs(o.Events, "call") {
				if e.Name == "github.com/johnsiilver/calloptions.New" {
					made = e
				}
			}
			if !c.ob(made != nil && made.Args[0].Fn != nil, "an option is made with calloptions.New", at, "it is not") {
				continue
			}
			v := unIface(o.Results[0])
			c.ob(v.contains(made.Res[0]), "the option returned is the one made", at, "%v", v)
			cl := made.Args[0]
			addr := in.mk(Term{K: KAlloc, Op: "options:" + a.rel + a.fn.Name(), T: deref(optT)}, "")
			st := o.StateOf()
			var before []*Term
			so := structOf(deref(optT))
			for i := 0; i < so.NumFields(); i++ {
				fa := mkFieldAddr(addr, i, deref(optT))
				x := mkParam("before."+so.Field(i).Name(), so.Field(i).Type())
				st.heap[fa] = x
				before = append(before, x)
			}
			var bind []*Term
			if cl.K == KClosure {
				bind = cl.Args
			}
			arg := in.mk(Term{K: KIface, Args: []*Term{addr}, T: optT}, typeKey(optT))
			want := append([]*Term(nil), before...)
			switch {
			case f.Name() == "WithStopOnErr":
				want[fStop] = tTrue
			case f.Name() == "WithPoolOptions" && len(args) == 2:
				want[fPool], want[fOpts] = args[0], args[1]
			default:
				want = nil
			}
			for _, q := range a.e.RunClosure(cl.Fn, bind, []*Term{arg}, st) {
				if q.Kind != OReturn || len(q.Results) != 1 {
					c.ob(false, "an option can be applied", c.at(cl.Fn), "a path ends otherwise")
					continue
				}
				c.ob(q.Results[0] == tNil || q.Facts.isNil(q.Results[0]), fmt.Sprintf("%s accepts the option", a.fn.Name()), c.at(cl.Fn), "%s returns %v for %s", f.Name(), q.Results[0], optT)
				if want == nil {
					continue
				}
				for i := range want {
					got := q.heapVal(mkFieldAddr(addr, i, deref(optT)))
					c.ob(got == want[i], "an option sets what it says and nothing else", c.at(cl.Fn), "%s: field %s is %v, not %v", f.Name(), so.Field(i).Name(), got, want[i])
				}
			}
		}
	}
	c.need(n >= 2, "role: options", "%s has option constructors", a.rel)
}

// ---------------------------------------------------------------- C24

func rC24(c *Check) {
	a := c.accessor(relChans, "Access")
	a.takes()
	a.forBodies(func(p *Path, g *Event, b *Path, at string) {
		us := a.userCalls(b.Events)
		c.ob(len(us) == 1, "what is handed over calls the accessor once", at, "%d times", len(us))
		for _, e := range b.Events {
			if len(e.Args) > 0 && e.Args[0] == a.in {
				c.ob(false, "only the loop takes values", c.evAt(e), "%s", e.Kind)
			}
			switch e.Kind {
			case "go", "async", "asyncerr", "wait.go":
				c.ob(false, "what is handed over starts nothing else", c.evAt(e), "%s", e.Kind)
			}
			if blockingOp(e) {
				c.ob(false, "what is handed over waits for nothing but the accessor", c.evAt(e), "%s", e.Kind)
			}
		}
	})
}

// takes: each iteration takes one value and hands it over; the loop ends when the input is closed or the Context
// cancelled, and never waits for the input alone.
func (a *accessor) takes() {
	c := a.c
	a.forReturns(func(p *Path, at string) {
		if a.failedEarly(p) != nil || p.Facts.isNil(a.in) || a.out != nil && p.Facts.isNil(a.out) {
			c.ob(len(a.gos(p.Events)) == 0 && len(onChan(p.Events, "recv", a.in)) == 0, "nothing is taken after a failure", at, "something is")
			return
		}
		c.ob(len(a.userCalls(p.Events)) == 0, "the accessor is called by what is handed to the Group only", at, "called directly")
		ended := false
		var pending *Event
		for i, e := range p.Events {
			isIn := e.Kind == "recv" && e.Args[0] == a.in
			isDone := e.Kind == "recv" && e.Args[0].K == KPure && e.Args[0].Op == "ctxdone" && derived(e.Args[0].Args[0], ctxRoot(a.ctx)) || e.Kind == "ctxerr" && e.Res[0] != tNil
			if e.Kind == "recv" && e.Blocking {
				// it must be possible to be woken by the Context
				ok := false
				for _, al := range e.Alts {
					if !al.Send && al.Ch.K == KPure && al.Ch.Op == "ctxdone" && derived(al.Ch.Args[0], ctxRoot(a.ctx)) {
						ok = true
					}
				}
				if e.Args[0].K == KPure && e.Args[0].Op == "ctxdone" {
					ok = true
				}
				c.ob(ok, "waiting for a value also waits for the Context", c.evAt(e), "it does not")
			}
			if blockingOp(e) && e.Kind != "recv" && e.Kind != "wait.wait" {
				c.ob(false, "nothing but the input, the Context and the Group is waited for", c.evAt(e), "%s", e.Kind)
			}
			switch {
			case isIn:
				c.ob(!ended, "nothing is taken after the end", c.evAt(e), "the input was closed or the Context cancelled before")
				c.ob(pending == nil, "each value is handed over before the next is taken", c.evAt(e), "the value taken before is lost")
				if e.Res[1] == tFalse {
					ended = true
				} else if c.ob(e.Res[1] == tTrue, "a closed input is noticed", c.evAt(e), "not examined") {
					pending = e
				}
			case isDone:
				ended = true
				pending = nil // dropped because of the cancellation
			case e.Kind == "go" || e.Kind == "async":
				for _, b := range e.Bodies {
					for _, x := range b.Events {
						if len(x.Args) > 0 && x.Args[0] == a.in {
							c.ob(false, "only the loop takes values", c.evAt(x), "%s in another goroutine", x.Kind)
						}
					}
				}
			case e.Kind == "wait.go":
				ok := pending != nil && !ended
				if c.ob(ok, "what is handed over was just taken", c.evAt(e), "no value") {
					for _, b := range e.Bodies {
						for _, u := range a.userCalls(b.Events) {
							v := u.Args[len(u.Args)-1]
							c.ob(v == pending.Res[0], "the accessor gets the value taken", c.evAt(u), "%v instead of %v", v, pending.Res[0])
						}
					}
				}
				pending = nil
			case e.Kind == "loopback":
				// an iteration that continues took a value and handed it over
				seg := lastSegment(p.Events[:i], e.Name)
				c.ob(!ended, "the loop ends when the input is closed or the Context cancelled", c.evAt(e), "it goes on")
				_ = seg
			}
		}
		c.ob(pending == nil, "every value taken is handed over", at, "the last one is lost")
		c.ob(ended, "it goes on until the input is closed or the Context cancelled", at, "it ends otherwise")
		// each iteration takes a value or ends
		for i, e := range p.Events {
			if e.Kind == "wait.go" {
				l := loopsAround(p.Events, i)
				c.ob(len(l) == 1, "values are taken in one loop", c.evAt(e), "%d loops", len(l))
			}
		}
	})
}

func lastSegment(es []*Event, key string) []*Event {
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].Name == key && (es[i].Kind == "loop" || es[i].Kind == "loopback") {
			return es[i+1:]
		}
	}
	return nil
}

// ---------------------------------------------------------------- C25

func rC25(c *Check) {
	a := c.accessor(relChans, "Modify")
	rt := structOf(a.out.T.Underlying().(*types.Chan).Elem())
	c.need(rt != nil, "role: result", "Modify sends structs")
	fv, fe := -1, -1
	for i := 0; i < rt.NumFields(); i++ {
		if isErrorType(rt.Field(i).Type()) {
			fe = i
		} else {
			fv = i
		}
	}
	c.need(fv >= 0 && fe >= 0, "role: result", "a result has a value and an error")
	a.contained()
	a.forReturns(func(p *Path, at string) {
		n, ci, last := 0, -1, -1
		for i, e := range p.Events {
			switch {
			case e.Kind == "close" && e.Args[0] == a.out:
				n++
				ci = i
			case e.Kind == "wait.wait" || e.Kind == "wait.go":
				last = i
			case e.Kind == "send" && e.Args[0] == a.out:
				c.ob(false, "results are sent by what is handed to the Group", c.evAt(e), "sent by Modify itself")
			}
		}
		if p.Facts.isNil(a.in) || p.Facts.isNil(a.out) {
			c.ob(len(a.gos(p.Events)) == 0, "nil channels are refused", at, "something is started")
			c.ob(!(n > 0 && p.Facts.isNil(a.out)), "a nil output is not closed", at, "closed")
			c.ob(p.Facts.nonNil(p.Results[0]), "nil channels are reported", at, "returns %v", p.Results[0])
			return
		}
		c.ob(n == 1, "the output is closed exactly once on every return", at, "%d times", n)
		c.ob(n != 1 || ci > last, "the output is closed after the last send", at, "closed at step %d, waited at %d", ci, last)
	})
	a.takes()
	a.forBodies(func(p *Path, g *Event, b *Path, at string) {
		us := a.userCalls(b.Events)
		if !c.ob(len(us) == 1 && len(us[0].Res) == 2, "the modifier is called once for each value", at, "%d times", len(us)) {
			return
		}
		u := us[0]
		val, er := u.Res[0], u.Res[1]
		c.ob(len(u.Args) == 3 && derived(u.Args[1], a.ctx), "the modifier gets a derived Context", c.evAt(u), "%v", u.Args)
		sends := 0
		ui := -1
		gaveUp := false
		for i, e := range b.Events {
			if e == u {
				ui = i
			}
			switch e.Kind {
			case "send", "recv", "seldefault":
				if e.Blocking {
					ok := e.Kind == "recv" && e.Args[0].K == KPure && e.Args[0].Op == "ctxdone"
					for _, al := range e.Alts {
						if !al.Send && al.Ch.K == KPure && al.Ch.Op == "ctxdone" && derived(al.Ch.Args[0], ctxRoot(g.Args[1])) {
							ok = true
						}
					}
					c.ob(ok, "waiting for the output also waits for the Context", c.evAt(e), "it does not")
				}
				if e.Kind == "recv" && e.Args[0].K == KPure && e.Args[0].Op == "ctxdone" && derived(e.Args[0].Args[0], ctxRoot(a.ctx)) {
					gaveUp = true
				}
				if e.Kind == "send" {
					if !c.ob(e.Args[0] == a.out && ui >= 0, "only results are sent", c.evAt(e), "%v", e.Args) {
						continue
					}
					sends++
					sv := mkField(e.Args[1], fv, rt)
					se := mkField(e.Args[1], fe, rt)
					isNil, known := isErrNil(b, er)
					if known && !isNil {
						c.ob(wraps(se, er), "a failed value's result carries the error", c.evAt(e), "%v", se)
					} else if known {
						c.ob(sv == val, "a result carries the modifier's value", c.evAt(e), "%v", sv)
						c.ob(se == tNil || b.Facts.isNil(se), "a good result carries no error", c.evAt(e), "%v", se)
					} else {
						c.ob(sv == val && se == er, "a result carries the modifier's value and error", c.evAt(e), "%v, %v", sv, se)
					}
				}
			case "close":
				c.ob(e.Args[0] != a.out, "the output is closed by Modify only", c.evAt(e), "closed in what is handed over")
			case "ctxerr":
				if e.Res[0] != tNil {
					gaveUp = true
				}
			case "go", "async", "wait.go":
				c.ob(false, "results are sent by the goroutine that called the modifier", c.evAt(e), "%s", e.Kind)
			}
		}
		c.ob(sends == 1 || sends == 0 && gaveUp, "one result is sent for each value unless the Context is cancelled", at, "%d sent, cancelled: %v", sends, gaveUp)
		// its error is reported
		isNil, known := isErrNil(b, er)
		switch {
		case known && isNil:
			c.ob(b.Facts.isNil(b.Results[0]) || gaveUp, "no error is made up", at, "returns %v", b.Results[0])
		default:
			c.ob(wraps(b.Results[0], er), "the modifier's error is returned to the Group", at, "returns %v", b.Results[0])
		}
	})
	a.errors2()
}

// errors2: what the Group reports is what Modify returns.
func (a *accessor) errors2() {
	c := a.c
	a.forReturns(func(p *Path, at string) {
		for _, e := range evs(p.Events, "wait.wait") {
			if !p.Facts.isNil(e.Res[0]) {
				c.ob(wraps(p.Results[0], e.Res[0]), "the Group's error is returned", at, "returns %v", p.Results[0])
			}
		}
	})
}

func init() {
	reg("C20", rC20, "counting loop of slices.Access: index variable runs over 0..len-1, one hand-over per iteration, one call per hand-over with that index and element; the modifier's only write")
	reg("C21", rC21, "every path of both Access functions: Wait on the Group after the last hand-over, own pool closed after it, no other pool closed, nothing else started")
	reg("C22", rC22, "provenance of the error returned on every path of both Access functions and of what they hand over")
	reg("C23", rC23, "flow of every option constructor's values into the option struct and from it to the Group, its Context and CancelOnErr, on every path")
	reg("C24", rC24, "receive loop of chans.Access: each received value reaches one hand-over and one call, closed and cancelled end the loop, the wait includes the Context")
	reg("C25", rC25, "what chans.Modify hands over: one call, one send of its result or a cancelled Context, select with the Context; close of the output last, once, on every path")
}
