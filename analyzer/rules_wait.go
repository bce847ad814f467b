package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relWait = "prim/wait"

// waitGroup is what the rules know about prim/wait.Group.
type waitGroup struct {
	c                *Check
	e                *Engine
	T                *types.Named
	fGo, fWait, fRun *ssa.Function
	recv, ctx, f     *Term // of Go
	wrecv            *Term // of Wait
	gos, waits       []*Path
	wg, ctr, errs    []int // field paths
	cancel           []int
}

func asyncSubmit() map[string][2]int {
	return map[string][2]int{"(" + modPath + "/goroutines.Pool).Submit": {2, 1}}
}

func (c *Check) waitGroup() *waitGroup {
	w := &waitGroup{c: c}
	w.T = c.typ(relWait, "Group")
	w.fGo, w.fWait, w.fRun = c.method(relWait, "Group", "Go"), c.method(relWait, "Group", "Wait"), c.method(relWait, "Group", "Running")
	w.e = c.eng(Config{Async: asyncSubmit(), RecordLoads: true})
	a, ps := c.run(w.e, w.fGo)
	c.need(len(a) == 3, "role: Go", "Group.Go takes a Context and a function")
	w.recv, w.ctx, w.f, w.gos = a[0], a[1], a[2], ps
	a, ps = c.run(w.e, w.fWait)
	w.wrecv, w.waits = a[0], ps
	for _, p := range w.waits {
		for _, e := range evs(p.Events, "wg.wait") {
			if r, ok := relPath(e.Args[0], w.wrecv); ok {
				w.wg = r
			}
		}
	}
	c.need(w.wg != nil, "role: WaitGroup", "Group.Wait waits on a WaitGroup of the Group")
	// the error cell: what Wait's result is loaded from
	for _, p := range w.waits {
		if p.Kind != OReturn || len(p.Results) != 1 {
			continue
		}
		for _, e := range evs(p.Events, "atomic.load") {
			if p.Results[0].contains(e.Res[0]) {
				if r, ok := relPath(e.Args[0], w.wrecv); ok {
					w.errs = r
				}
			}
		}
	}
	for _, i := range fieldsOf(w.T, func(v *types.Var) bool { return v.Name() == "CancelOnErr" }) {
		w.cancel = []int{i}
	}
	c.need(w.cancel != nil, "role: CancelOnErr", "Group has a field CancelOnErr")
	return w
}

func (w *waitGroup) at(base *Term, path []int) *Term { return rebase(base, w.T, path) }

// dispatch is the hand-over of a function to the goroutine that runs it.
type dispatch struct {
	p   *Path
	i   int // index of the event in p, -1: none
	ev  *Event
	bad string
}

// dispatchOf finds the one hand-over of a path of Go.
func (w *waitGroup) dispatchOf(p *Path) dispatch {
	d := dispatch{p: p, i: -1}
	n := 0
	for i, e := range p.Events {
		switch e.Kind {
		case "go", "async", "asyncerr":
			uses := e.Kind == "asyncerr"
			for _, b := range e.Bodies {
				if w.calls(b.Events) > 0 {
					uses = true
				}
				for _, x := range b.Events {
					if x.Kind == "wg.add" && x.Args[0] == w.at(w.recv, w.wg) {
						uses = true
					}
				}
			}
			if !uses {
				continue
			}
			n++
			d.i, d.ev = i, e
		}
	}
	if n != 1 {
		d.bad = fmt.Sprintf("%d hand-overs", n)
	}
	return d
}

// calls counts the calls of the user's function.
func (w *waitGroup) calls(es []*Event) int {
	n := 0
	for _, e := range es {
		if e.Kind == "invoke" && e.Name == "" && e.Args[0] == w.f {
			n++
		}
	}
	return n
}

func (w *waitGroup) callIdx(es []*Event) int {
	for i, e := range es {
		if e.Kind == "invoke" && e.Name == "" && e.Args[0] == w.f {
			return i
		}
	}
	return -1
}

// forBodies visits every path of every goroutine or job started by Go.
func (w *waitGroup) forBodies(f func(p *Path, d dispatch, b *Path, at string)) {
	n := 0
	for _, p := range w.gos {
		if p.Kind != OReturn {
			w.c.ob(p.Kind == OCut, "Go returns", w.c.pathAt(w.fGo, p), "a path of Go ends in a panic or exit")
			continue
		}
		d := w.dispatchOf(p)
		if !w.c.ob(d.bad == "", "Go hands the function over exactly once on every path", w.c.pathAt(w.fGo, p), "%s", orOK(d.bad)) {
			continue
		}
		for _, b := range d.ev.Bodies {
			n++
			at := w.c.evAt(d.ev)
			if b.End != nil {
				at += ", path ending at " + w.c.L.pos(b.End)
			}
			w.c.ob(b.Kind == OReturn, "what Go starts returns", at, "it ends otherwise")
			f(p, d, b, at)
		}
	}
	w.c.need(n > 0, "role: goroutine", "Go starts the function")
}

// forRefused visits the paths on which the Pool refused the function.
func (w *waitGroup) forRefused(f func(p *Path, d dispatch)) {
	for _, p := range w.gos {
		if p.Kind != OReturn {
			continue
		}
		d := w.dispatchOf(p)
		if d.bad == "" && d.ev.Kind == "asyncerr" {
			f(p, d)
		}
	}
}

// netAdds sums what is added to a WaitGroup or counter on a path itself, not in what it starts.
func netAdds(es []*Event, addr *Term) int64 {
	var n int64
	for _, e := range es {
		if (e.Kind == "wg.add" || e.Kind == "atomic.add") && e.Args[0] == addr {
			d, ok := delta(e)
			if !ok {
				return -1 << 20
			}
			n += d
		}
	}
	return n
}

// ---------------------------------------------------------------- records

// within an error value, something that errors.Is would find.
func wraps(v, r *Term) bool {
	if v == r {
		return true
	}
	v = unIface(v)
	if v == unIface(r) {
		return true
	}
	if v.K == KPure && (v.Op == "newerr" || v.Op == "join" || v.Op == "join2") {
		for _, a := range v.Args {
			if wraps(a, r) {
				return true
			}
		}
	}
	return false
}

// sentinel: the error is known to be context.Canceled or context.DeadlineExceeded itself.
func sentinel(p *Path, r *Term) bool {
	if r.K == KCtxErr {
		return true
	}
	is := func(t *Term) bool {
		s := t.String()
		return s == "context.Canceled" || s == "context.DeadlineExceeded"
	}
	for f := p.Facts; f != nil; f = f.prev {
		if f.v && f.t.K == KBin && f.t.Op == "==" {
			a, b := f.t.Args[0], f.t.Args[1]
			if a == r && is(b) || b == r && is(a) {
				return true
			}
		}
	}
	return false
}

// cellValue: a value read from the error cell on this path.
func (w *waitGroup) cellValue(b *Path, t *Term, d int) bool {
	for _, e := range evs(b.Events, "atomic.load") {
		if e.Args[0] == w.at(w.recv, w.errs) && e.Res[0] == t {
			return true
		}
	}
	if t.K == KLoopVar && d < 3 {
		l := b.LV(t)
		if l == nil || len(l.Init) == 0 {
			return false
		}
		for _, x := range append(append([]*Term(nil), l.Init...), l.Back...) {
			if x != t && !w.readsCell(x) && !w.cellValue(b, x, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// readsCell: the result of an atomic load of the error cell.
func (w *waitGroup) readsCell(t *Term) bool {
	return t.K == KPure && t.Op == "atomic" && t.Args[0] == w.at(w.recv, w.errs)
}

// matched: errors.Is(v, r) is known to hold.
func matched(p *Path, v, r *Term) bool {
	for f := p.Facts; f != nil; f = f.prev {
		if f.v && f.t.K == KPure && f.t.Op == "errors.Is" && f.t.Args[0] == v && f.t.Args[1] == r {
			return true
		}
	}
	return false
}

// recorded finds the step at which error r ends up in the error cell of a path.
// any: any non-nil error will do.
func (w *waitGroup) recorded(b *Path, from int, r *Term, any bool) (int, string) {
	cell := w.at(w.recv, w.errs)
	why := "it is not recorded"
	var lastLoad *Event
	lastAt := -1
	done := -1
	for i, e := range b.Events {
		if len(e.Args) == 0 || e.Args[0] != cell {
			continue
		}
		switch e.Kind {
		case "atomic.load":
			lastLoad, lastAt = e, i
		case "atomic.store", "atomic.swap", "atomic.other":
			return -1, "the recorded error is overwritten"
		case "atomic.cas":
			if e.Res[0] != tTrue {
				continue
			}
			old, nw := e.Args[1], e.Args[2]
			if !isFresh(nw.root()) {
				return -1, "what is recorded is not a fresh variable: " + nw.String()
			}
			v := b.heapVal(nw)
			has := wraps(v, r) || any && b.Facts.nonNil(v)
			if !b.Facts.isNil(old) {
				if !wraps(v, mkLoad(old)) {
					return -1, "the error recorded before is lost"
				}
			}
			if i > from && has {
				done = i
			} else if i > from {
				why = "what is recorded is " + v.String()
			}
		}
	}
	if done >= 0 {
		return done, ""
	}
	if lastLoad == nil || lastAt < from {
		return -1, why
	}
	// another error is known to be recorded
	for f := b.Facts; f != nil; f = f.prev {
		if f.v || f.t.K != KBin || f.t.Op != "==" || f.t.Args[1] != tNil || !w.cellValue(b, f.t.Args[0], 0) {
			continue
		}
		if any || sentinel(b, r) || matched(b, mkLoad(f.t.Args[0]), r) {
			return lastAt, ""
		}
		why = "it is dropped because another error is recorded"
	}
	return -1, why
}

// retries: recording ends: what a failed compare-and-swap found changed is read again before the next one.
func (w *waitGroup) retries(es []*Event) {
	cell := w.at(w.recv, w.errs)
	failed := false
	for _, e := range es {
		if len(e.Args) == 0 || e.Args[0] != cell {
			continue
		}
		switch e.Kind {
		case "atomic.load":
			failed = false
		case "atomic.cas":
			w.c.ob(!failed, "recording an error looks again after a compare-and-swap that failed", w.c.evAt(e), "it compares with %s again", e.Args[1])
			failed = e.Res[0] == tFalse
		}
	}
}

// ---------------------------------------------------------------- C15

func rC15(c *Check) {
	w := c.waitGroup()
	wg := w.at(w.recv, w.wg)
	w.barrier()
	w.forBodies(func(p *Path, d dispatch, b *Path, at string) {
		pre := netAdds(p.Events[:d.i], wg)
		post := netAdds(p.Events[d.i:], wg)
		c.ob(pre == 1 && post == 0, "the WaitGroup is incremented once before the function is handed over", at, "net %d before, %d after", pre, post)
		n := 0
		last := -1
		for i, e := range b.Events {
			if e.Kind == "wg.add" && e.Args[0] == wg {
				n++
				last = i
			}
		}
		if w.errs != nil {
			w.retries(b.Events)
		}
		c.ob(n == 1 && netAdds(b.Events, wg) == -1, "what Go starts signs off exactly once", at, "%d operations, net %d", n, netAdds(b.Events, wg))
		c.ob(last > w.callIdx(b.Events), "it signs off only after the function returned", at, "signed off at step %d, function called at %d", last, w.callIdx(b.Events))
		for i, e := range b.Events {
			if blockingOp(e) || e.Kind == "async" {
				c.ob(false, "what Go starts does not wait for anything but the function", c.evAt(e), "%s", e.Kind)
			}
			if i > last && last >= 0 && e.Kind == "go" {
				c.ob(false, "what Go starts is finished when it signs off", c.evAt(e), "it starts something afterwards")
			}
		}
		for _, e := range evs(b.Events, "go", "async") {
			for _, bb := range e.Bodies {
				c.ob(w.calls(bb.Events) == 0, "the function runs in the goroutine that signs off", c.evAt(e), "it is called in another one")
				for _, x := range evs(bb.Events, "wg.add") {
					c.ob(x.Args[0] != wg, "only the goroutine of the function signs off", c.evAt(x), "another one does")
				}
			}
		}
		if d.ev.Kind == "async" {
			c.ob(p.Facts.nonNil(d.ev.Args[0]), "a Pool is used only if there is one", c.evAt(d.ev), "receiver %v", d.ev.Args[0])
		}
	})
	w.forRefused(func(p *Path, d dispatch) {
		s := netAdds(p.Events, wg)
		c.ob(s == 0, "a refused function is not waited for", c.pathAt(w.fGo, p), "net %d", s)
		c.ob(p.Facts.nonNil(d.ev.Args[0]), "a Pool is used only if there is one", c.evAt(d.ev), "receiver %v", d.ev.Args[0])
	})
	for _, p := range w.gos {
		for _, e := range p.Events {
			if blockingOp(e) && e.Kind != "async" {
				c.ob(false, "Go does not wait", c.evAt(e), "%s", e.Kind)
			}
		}
	}
	w.locks()
}

// locks: nothing that may wait runs while a lock is held.
func (w *waitGroup) locks() {
	c := w.c
	check := func(fn *ssa.Function, es []*Event) {
		held := locksAt(es, func(e *Event, h map[*Term]string) {
			if (e.Kind == "lock" || e.Kind == "rlock") && h[e.Args[0]] != "" {
				c.ob(false, "no lock is taken while held", c.evAt(e), "%v", e.Args[0])
			}
			if len(h) > 0 && (blockingOp(e) || e.Kind == "invoke" || e.Kind == "async" || e.Kind == "asyncerr") {
				c.ob(false, "no lock is held while waiting or running user code", c.evAt(e), "%s", e.Kind)
			}
		})
		c.ob(len(held) == 0, "every lock is released", c.at(fn), "%d held", len(held))
	}
	for _, p := range w.gos {
		check(w.fGo, p.Events)
		for _, e := range evs(p.Events, "go", "async") {
			for _, b := range e.Bodies {
				check(w.fGo, b.Events)
			}
		}
	}
	for _, p := range w.waits {
		check(w.fWait, p.Events)
	}
}

// barrier: Wait waits for the WaitGroup on every path and nothing else changes it.
func (w *waitGroup) barrier() {
	c := w.c
	wg := w.at(w.wrecv, w.wg)
	for _, p := range w.waits {
		if p.Kind != OReturn {
			c.ob(p.Kind == OCut, "Wait returns", c.pathAt(w.fWait, p), "a path ends in a panic or exit")
			continue
		}
		c.ob(w.waitIdx(p) >= 0, "Wait waits for the WaitGroup on every path", c.pathAt(w.fWait, p), "it does not")
		for _, e := range p.Events {
			if e.Kind == "wg.add" && e.Args[0] == wg || e.Kind == "store" && covers(e.Args[0], wg) {
				c.ob(false, "Wait does not change the WaitGroup", c.evAt(e), "%s", e.Kind)
			}
			if blockingOp(e) && !(e.Kind == "wg.wait" && e.Args[0] == wg) {
				c.ob(false, "Wait waits for nothing else", c.evAt(e), "%s", e.Kind)
			}
		}
	}
	for _, p := range w.gos {
		for _, e := range allEvs(p.Events, "store") {
			c.ob(!covers(e.Args[0], w.at(w.recv, w.wg)), "the WaitGroup is never replaced", c.evAt(e), "store to %v", e.Args[0])
		}
	}
	w.others(func(fn *ssa.Function, recv *Term, ps []*Path) {
		for _, p := range ps {
			for _, e := range allEvs(p.Events, "wg.add", "wg.wait", "store") {
				c.ob(!covers(e.Args[0], w.at(recv, w.wg)), "only Go and Wait use the WaitGroup", c.evAt(e), "%s in %s", e.Kind, fn.Name())
			}
		}
	})
}

// covers: address a is b or an enclosing variable, or lies in it.
func covers(a, b *Term) bool { return a == b || within(a, b) || within(b, a) }

// waitIdx is the step at which Wait has waited, -1: it does not.
func (w *waitGroup) waitIdx(p *Path) int {
	for i, e := range p.Events {
		if e.Kind == "wg.wait" && e.Args[0] == w.at(w.wrecv, w.wg) {
			return i
		}
	}
	return -1
}

// others explores the other exported methods of Group.
func (w *waitGroup) others(f func(fn *ssa.Function, recv *Term, ps []*Path)) {
	for _, fn := range w.c.L.exported(relWait) {
		rc := fn.Signature.Recv()
		if rc == nil || deref(rc.Type()) != types.Type(w.T) || fn == w.fGo || fn == w.fWait {
			continue
		}
		a, ps := w.c.run(w.e, fn)
		f(fn, a[0], ps)
	}
}

// ---------------------------------------------------------------- C16

// derived: a context made from another one.
func derived(x, from *Term) bool {
	for {
		if x == from {
			return true
		}
		switch {
		case x.K == KPure && (x.Op == "valuectx" || x.Op == "withcancel"), x.K == KIface && len(x.Args) == 1:
			x = x.Args[0]
		default:
			return false
		}
	}
}

// askedCtx: before step n, the context was found not to be cancelled.
func (w *waitGroup) askedCtx(es []*Event, n int) bool {
	for _, e := range es[:n] {
		if e.Kind == "ctxerr" && e.Res[0] == tNil && derived(e.Args[0], ctxRoot(w.ctx)) {
			return true
		}
		if e.Kind == "seldefault" {
			for _, a := range e.Alts {
				if !a.Send && a.Ch.K == KPure && a.Ch.Op == "ctxdone" && derived(a.Ch.Args[0], ctxRoot(w.ctx)) {
					return true
				}
			}
		}
	}
	return false
}

func rC16(c *Check) {
	w := c.waitGroup()
	w.needErrs()
	w.forBodies(func(p *Path, d dispatch, b *Path, at string) {
		n := w.calls(b.Events)
		c.ob(n <= 1, "the function is called at most once", at, "%d times", n)
		c.ob(w.calls(p.Events) == 0, "Go itself does not call the function", at, "%d times", w.calls(p.Events))
		w.noEscape(b.Events)
		w.noEscape(p.Events)
		if n == 1 {
			i := w.callIdx(b.Events)
			e := b.Events[i]
			c.ob(len(e.Args) == 2 && derived(e.Args[1], w.ctx), "the function gets a Context derived from the one given to Go", c.evAt(e), "%v", e.Args[1:])
			c.ob(w.askedCtx(b.Events, i), "the function is called only if the Context was found not cancelled when its turn came", c.evAt(e), "no check on this path")
			return
		}
		if n == 0 {
			ok := b.Facts.cancelled(w.ctx)
			c.ob(ok, "the function is skipped only if the Context is cancelled", at, "cancelled is not known")
			_, why := w.recorded(b, -1, tNil, true)
			c.ob(why == "", "if the function is skipped, an error is recorded", at, "%s", orOK(why))
		}
	})
	w.forRefused(func(p *Path, d dispatch) {
		c.ob(w.calls(p.Events) == 0, "a refused function is not called", c.pathAt(w.fGo, p), "%d times", w.calls(p.Events))
		w.noEscape(p.Events)
		_, why := w.recorded(p, d.i, tNil, true)
		c.ob(why == "", "if the Pool refuses, an error is recorded", c.pathAt(w.fGo, p), "%s", orOK(why))
	})
	w.result()
}

// noEscape: the function is given to nobody else.
func (w *waitGroup) noEscape(es []*Event) {
	for _, e := range es {
		if e.Kind == "go" && len(e.Bodies) > 0 {
			continue // go w.run(ctx, f): what the goroutine does with f is looked at
		}
		for i, a := range e.Args {
			if e.Kind == "store" && isFresh(e.Args[0].root()) {
				continue
			}
			if a == w.f && !(i == 0 && e.Kind == "invoke" && e.Name == "") {
				w.c.ob(false, "the function is given to nothing but its goroutine", w.c.evAt(e), "%s %s", e.Kind, e.Name)
			}
		}
	}
}

func (w *waitGroup) needErrs() {
	w.c.need(w.errs != nil, "role: error cell", "Group.Wait returns what it loads from an atomic pointer of the Group")
}

// result: what Wait returns is what was recorded.
func (w *waitGroup) result() {
	c := w.c
	cell := w.at(w.wrecv, w.errs)
	for _, p := range w.waits {
		if p.Kind != OReturn {
			continue
		}
		wi := w.waitIdx(p)
		var loads []*Term
		changed := false
		for i, e := range p.Events {
			if len(e.Args) == 0 {
				continue
			}
			if e.Kind == "store" && covers(e.Args[0], cell) {
				changed = true
				c.ob(i > wi, "Wait forgets the errors only after waiting", c.evAt(e), "step %d", i)
			}
			if e.Args[0] != cell {
				continue
			}
			switch e.Kind {
			case "atomic.load":
				if i > wi && wi >= 0 && !changed {
					loads = append(loads, e.Res[0])
				}
			case "atomic.swap":
				if i > wi && wi >= 0 && !changed {
					loads = append(loads, e.Res[0])
				}
				c.ob(i > wi, "Wait forgets the errors only after waiting", c.evAt(e), "step %d", i)
				changed = true
			case "atomic.store", "atomic.cas", "atomic.other":
				c.ob(i > wi, "Wait forgets the errors only after waiting", c.evAt(e), "step %d", i)
				changed = true
			}
		}
		nils, non := false, false
		for _, l := range loads {
			if p.Facts.isNil(l) {
				nils = true
			} else if p.Facts.nonNil(l) {
				non = true
			}
		}
		at := c.pathAt(w.fWait, p)
		if !c.ob(nils || non, "Wait reads the recorded error after waiting", at, "%d reads, none compared with nil", len(loads)) {
			continue
		}
		if nils && non {
			continue // the loads would differ, but nothing runs any more
		}
		r := p.Results[0]
		if nils {
			c.ob(r == tNil || p.Facts.isNil(r), "Wait returns nil if no error was recorded", at, "returns %v", r)
			continue
		}
		ok := false
		for _, l := range loads {
			if wraps(r, mkLoad(l)) {
				ok = true
			}
		}
		c.ob(ok, "Wait returns what was recorded", at, "returns %v", r)
	}
}

// ---------------------------------------------------------------- C17

func rC17(c *Check) {
	w := c.waitGroup()
	w.needErrs()
	w.barrier()
	cell := w.at(w.recv, w.errs)
	w.forBodies(func(p *Path, d dispatch, b *Path, at string) {
		w.signedOff(p, d, b, at)
		w.retries(b.Events)
		ci := w.callIdx(b.Events)
		if ci < 0 {
			_, why := w.recorded(b, -1, tNil, true)
			c.ob(why == "", "if the function is not called, an error is recorded", at, "%s", orOK(why))
			return
		}
		r := b.Events[ci].Res[0]
		isNil, known := isErrNil(b, r)
		if !c.ob(known, "the function's error is examined", at, "%v is never compared with nil", r) {
			return
		}
		if isNil {
			for _, e := range evs(b.Events, "atomic.cas", "atomic.store", "atomic.swap", "atomic.other") {
				if e.Args[0] == cell && (e.Kind != "atomic.cas" || e.Res[0] == tTrue) {
					c.ob(false, "nothing is recorded if the function returned nil", c.evAt(e), "%s", e.Kind)
				}
			}
			c.ob(true, "nothing is recorded if the function returned nil", at, "ok")
			return
		}
		i, why := w.recorded(b, ci, r, false)
		c.ob(why == "", "a function's error is recorded, with those recorded before", at, "%s", orOK(why))
		if why == "" {
			off := w.offIdx(b)
			c.ob(off < 0 || i < off, "the error is recorded before the function is signed off", at, "recorded at step %d, signed off at %d", i, off)
		}
	})
	w.forRefused(func(p *Path, d dispatch) {
		_, why := w.recorded(p, d.i, tNil, true)
		c.ob(why == "", "if the Pool refuses, an error is recorded", c.pathAt(w.fGo, p), "%s", orOK(why))
		w.retries(p.Events)
		i, _ := w.recorded(p, d.i, tNil, true)
		off := w.offIdx(p)
		c.ob(off < 0 || i < off, "the refusal is recorded before it is signed off", c.pathAt(w.fGo, p), "recorded at step %d, signed off at %d", i, off)
	})
	// nobody else touches the cell
	for _, p := range w.gos {
		for _, e := range p.Events {
			if len(e.Args) > 0 && e.Args[0] == cell && (e.Kind == "atomic.store" || e.Kind == "atomic.swap" || e.Kind == "atomic.other") || e.Kind == "store" && covers(e.Args[0], cell) {
				c.ob(false, "Go does not overwrite recorded errors", c.evAt(e), "%s", e.Kind)
			}
		}
		d := w.dispatchOf(p)
		if d.bad == "" && d.ev.Kind != "asyncerr" {
			for _, e := range evs(p.Events, "atomic.cas") {
				c.ob(e.Args[0] != cell, "Go records nothing for a function that was accepted", c.evAt(e), "compare and swap")
			}
		}
	}
	w.others(func(fn *ssa.Function, recv *Term, ps []*Path) {
		for _, p := range ps {
			for _, e := range allEvs(p.Events, "atomic.store", "atomic.swap", "atomic.cas", "atomic.other", "store") {
				c.ob(!covers(e.Args[0], w.at(recv, w.errs)), "only Go and Wait change the recorded errors", c.evAt(e), "%s in %s", e.Kind, fn.Name())
			}
		}
	})
	w.result()
}

// signedOff: the life of a started function on the WaitGroup, on which Wait's reading the errors rests.
func (w *waitGroup) signedOff(p *Path, d dispatch, b *Path, at string) {
	wg := w.at(w.recv, w.wg)
	pre, body := netAdds(p.Events[:d.i], wg), netAdds(b.Events, wg)
	w.c.ob(pre == 1 && body == -1, "Wait waits for the function", at, "WaitGroup %+d before, %+d in it", pre, body)
}

// offIdx is the step at which a path signs off.
func (w *waitGroup) offIdx(b *Path) int {
	for i, e := range b.Events {
		if e.Kind == "wg.add" && e.Args[0] == w.at(w.recv, w.wg) {
			if d, ok := delta(e); !ok || d < 0 {
				return i
			}
		}
	}
	return -1
}

// ---------------------------------------------------------------- C18

func (w *waitGroup) cancels(es []*Event, base *Term) []int {
	var r []int
	cf := mkLoad(w.at(base, w.cancel))
	for i, e := range es {
		if e.Kind == "invoke" && e.Name == "" && e.Args[0] == cf {
			r = append(r, i)
		}
	}
	return r
}

func rC18(c *Check) {
	w := c.waitGroup()
	w.needErrs()
	cf := mkLoad(w.at(w.recv, w.cancel))
	w.forBodies(func(p *Path, d dispatch, b *Path, at string) {
		w.signedOff(p, d, b, at)
		c.ob(len(w.cancels(p.Events, w.recv)) == 0, "Go itself does not call CancelOnErr for an accepted function", at, "it does")
		for _, e := range append(evs(p.Events, "store"), evs(b.Events, "store")...) {
			if covers(e.Args[0], w.at(w.recv, w.cancel)) {
				c.ob(false, "Go does not change CancelOnErr", c.evAt(e), "it does")
			}
		}
		ci := w.callIdx(b.Events)
		cs := w.cancels(b.Events, w.recv)
		for _, i := range cs {
			c.ob(b.Facts.nonNil(cf), "CancelOnErr is called only if set", c.evAt(b.Events[i]), "not compared with nil")
		}
		for _, e := range evs(b.Events, "go", "async") {
			for _, bb := range e.Bodies {
				c.ob(len(w.cancels(bb.Events, w.recv)) == 0, "CancelOnErr is called before the function is signed off", c.evAt(e), "it is called in another goroutine")
			}
		}
		if ci < 0 {
			return
		}
		r := b.Events[ci].Res[0]
		isNil, known := isErrNil(b, r)
		if !c.ob(known, "the function's error is examined", at, "%v is never compared with nil", r) {
			return
		}
		if isNil {
			c.ob(len(cs) == 0, "CancelOnErr is not called for a function that returned nil", at, "called %d times", len(cs))
			return
		}
		if b.Facts.isNil(cf) {
			return
		}
		ri, why := w.recorded(b, ci, r, false)
		if why != "" {
			ri = ci
		}
		off := w.offIdx(b)
		ok := false
		for _, i := range cs {
			if i > ri && (off < 0 || i < off) {
				ok = true
			}
			c.ob(i > ri, "CancelOnErr is called only after the error is recorded", c.evAt(b.Events[i]), "called at step %d, recorded at %d", i, ri)
		}
		c.ob(ok, "CancelOnErr is called after the error is recorded and before the function is signed off", at, "recorded at step %d, called at %v, signed off at %d", ri, cs, off)
	})
	wcf := mkLoad(w.at(w.wrecv, w.cancel))
	for _, p := range w.waits {
		if p.Kind != OReturn {
			continue
		}
		wi := w.waitIdx(p)
		at := c.pathAt(w.fWait, p)
		cs := w.cancels(p.Events, w.wrecv)
		for _, i := range cs {
			c.ob(wi >= 0 && i > wi, "Wait calls CancelOnErr only after all functions have finished", c.evAt(p.Events[i]), "step %d, waited at %d", i, wi)
			c.ob(p.Facts.nonNil(wcf), "CancelOnErr is called only if set", c.evAt(p.Events[i]), "not compared with nil")
		}
		if !p.Facts.isNil(wcf) {
			c.ob(len(cs) == 1, "Wait calls CancelOnErr", at, "%d times", len(cs))
			c.ob(p.heapVal(w.at(w.wrecv, w.cancel)) == tNil, "Wait forgets CancelOnErr", at, "it is %v afterwards", p.heapVal(w.at(w.wrecv, w.cancel)))
		}
		for i, e := range p.Events {
			if e.Kind == "store" && covers(e.Args[0], w.at(w.wrecv, w.cancel)) {
				c.ob(i > wi && wi >= 0, "Wait forgets CancelOnErr only after all functions have finished", c.evAt(e), "step %d, waited at %d", i, wi)
			}
		}
	}
	w.others(func(fn *ssa.Function, recv *Term, ps []*Path) {
		for _, p := range ps {
			c.ob(len(w.cancels(p.Events, recv)) == 0, "only failing functions and Wait call CancelOnErr", c.at(fn), "called")
			for _, e := range allEvs(p.Events, "store") {
				c.ob(!covers(e.Args[0], w.at(recv, w.cancel)), "only Wait changes CancelOnErr", c.evAt(e), "changed by %s", fn.Name())
			}
		}
	})
}

// ---------------------------------------------------------------- C19

func isZeroTerm(t *Term) bool {
	if t == tNil || t == tFalse || t == mkInt(0) {
		return true
	}
	if t.K == KConst && (strings.HasPrefix(t.Op, "zero:") || t.Op == "0" || t.Op == `""`) {
		return true
	}
	if t.K == KStruct {
		for _, a := range t.Args {
			if !isZeroTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

// counter finds the counter that Running reads.
func (w *waitGroup) counter() *Term {
	c := w.c
	// Running reads the counter
	a, ps := c.run(w.e, w.fRun)
	for _, p := range ps {
		if p.Kind != OReturn {
			continue
		}
		ok := false
		for _, e := range evs(p.Events, "atomic.load") {
			if r, is := relPath(e.Args[0], a[0]); is && p.Results[0] == e.Res[0] {
				ok = true
				w.ctr = r
			}
		}
		c.ob(ok, "Running returns the counter", c.pathAt(w.fRun, p), "returns %v", p.Results)
	}
	c.need(w.ctr != nil, "role: counter", "Running reads an atomic counter of the Group")
	return w.at(w.recv, w.ctr)
}

// ---------------------------------------------------------------- C47

// rC47: a function is counted once, from before it is handed over until it returned.
func rC47(c *Check) {
	w := c.waitGroup()
	ctr := w.counter()
	only := func(es []*Event) {
		for _, e := range allEvs(es, "atomic.store", "atomic.swap", "atomic.cas", "atomic.other", "store") {
			c.ob(!covers(e.Args[0], ctr), "the counter is only counted up and down", c.evAt(e), "%s", e.Kind)
		}
	}
	for _, p := range w.gos {
		only(p.Events)
	}
	w.forBodies(func(p *Path, d dispatch, b *Path, at string) {
		pre, post := netAdds(p.Events[:d.i], ctr), netAdds(p.Events[d.i:], ctr)
		c.ob(pre == 1 && post == 0, "a function is counted once, before it is handed over", at, "net %d before, %d after", pre, post)
		c.ob(netAdds(b.Events, ctr) == -1, "a function is no longer counted when it ended", at, "net %d", netAdds(b.Events, ctr))
		if ci := w.callIdx(b.Events); ci >= 0 {
			c.ob(netAdds(b.Events[:ci], ctr) == 0, "a function is counted while it runs", at, "net %d before it is called", netAdds(b.Events[:ci], ctr))
		}
		lo, n := int64(0), int64(0)
		for _, e := range b.Events {
			n += netAdds([]*Event{e}, ctr)
			lo = min(lo, n)
		}
		c.ob(lo >= -1, "Running is never negative", at, "net %d", lo)
		for _, e := range evs(b.Events, "go", "async") {
			for _, bb := range e.Bodies {
				c.ob(netAdds(bb.Events, ctr) == 0, "no other goroutine counts", c.evAt(e), "net %d", netAdds(bb.Events, ctr))
			}
		}
	})
	w.forRefused(func(p *Path, d dispatch) {
		c.ob(netAdds(p.Events, ctr) == 0, "a refused function is not counted", c.pathAt(w.fGo, p), "net %d", netAdds(p.Events, ctr))
	})
	// before Wait has waited, it leaves the counter alone
	for _, p := range w.waits {
		for i, e := range p.Events {
			if len(e.Args) == 0 || i > w.waitIdx(p) && w.waitIdx(p) >= 0 {
				continue
			}
			switch e.Kind {
			case "store", "atomic.store", "atomic.add", "atomic.swap", "atomic.cas", "atomic.other":
				c.ob(!covers(e.Args[0], w.at(w.wrecv, w.ctr)), "Wait leaves the counter alone until all functions ended", c.evAt(e), "%s", e.Kind)
			}
		}
	}
	w.others(func(fn *ssa.Function, recv *Term, ps []*Path) {
		for _, p := range ps {
			for _, e := range allEvs(p.Events, "store", "atomic.store", "atomic.add", "atomic.swap", "atomic.cas", "atomic.other") {
				c.ob(!covers(e.Args[0], w.at(recv, w.ctr)), "only Go and Wait change the counter", c.evAt(e), "%s in %s", e.Kind, fn.Name())
			}
		}
	})
}

// ---------------------------------------------------------------- C48

// wholeSlice: the slice has all elements of want.
func wholeSlice(t, want *Term) bool {
	if t == want {
		return true
	}
	if t.K == KAppend || t.K == KSpread {
		for _, a := range t.Args {
			if wholeSlice(a, want) {
				return true
			}
		}
	}
	return false
}

// rC48: a Group with a Pool runs its functions there, with its options; without one each has its own goroutine.
func rC48(c *Check) {
	w := c.waitGroup()
	field := func(name string) *Term {
		fs := fieldsOf(w.T, func(v *types.Var) bool { return v.Name() == name })
		c.need(len(fs) == 1, "role: "+name, "Group has a field %s", name)
		a := w.at(w.recv, []int{fs[0]})
		return w.e.load(&State{heap: map[*Term]*Term{}}, a, a.T)
	}
	pool, opts := field("Pool"), field("PoolOptions")
	onPool, alone := 0, 0
	for _, p := range w.gos {
		at := c.pathAt(w.fGo, p)
		c.ob(w.calls(p.Events) == 0, "Go never runs the function itself", at, "it calls it")
		for _, e := range p.Events {
			switch e.Kind {
			case "go":
				runs := false
				for _, b := range e.Bodies {
					runs = runs || w.calls(b.Events) > 0
				}
				if !runs {
					continue
				}
				alone++
				c.ob(p.Facts.isNil(pool), "with a Pool the function runs on the Pool", at, "a goroutine is started for it at %s", c.L.pos(e.Instr))
			case "async", "asyncerr":
				onPool++
				c.ob(e.Args[0] == pool, "the function is given to the Pool of the Group", at, "it is given to %s", e.Args[0])
				c.ob(len(e.Args) == 4 && wholeSlice(e.Args[3], opts), "the Pool gets the PoolOptions", at, "it gets %v", e.Args[3:])
			}
		}
		for _, e := range evs(p.Events, "go", "async") {
			for _, b := range e.Bodies {
				for _, x := range evs(b.Events, "go", "async") {
					for _, bb := range x.Bodies {
						c.ob(w.calls(bb.Events) == 0, "the function runs on the goroutine it was given", at, "another one is started at %s", c.L.pos(x.Instr))
					}
				}
			}
		}
	}
	for _, name := range []string{"Pool", "PoolOptions"} {
		i := fieldsOf(w.T, func(v *types.Var) bool { return v.Name() == name })[0]
		for _, s := range c.L.storesTo(structOf(w.T).Field(i)) {
			f := s.Parent()
			r := f.Signature.Recv()
			c.ob(r == nil || !types.Identical(deref(r.Type()), w.T), "a Group keeps its Pool and PoolOptions", c.L.pos(s), "%s is stored in %s", name, fullName(f))
		}
	}
	c.need(onPool > 0, "role: pool", "Go gives functions to the Pool")
	c.need(alone > 0, "role: goroutine", "Go starts goroutines if there is no Pool")
}

func rC19(c *Check) {
	w := c.waitGroup()
	wg := w.at(w.recv, w.wg)
	ctr := w.counter()
	changed := map[string][]int{} // fields changed while functions run
	note := func(es []*Event) {
		for _, e := range es {
			switch e.Kind {
			case "store", "atomic.store", "atomic.add", "atomic.swap", "atomic.cas", "atomic.other", "once.run":
				if r, ok := relPath(e.Args[0], w.recv); ok && len(r) > 0 {
					changed[fmt.Sprint(r[:1])] = r[:1]
				} else if ok {
					c.ob(false, "the Group is not replaced as a whole", c.evAt(e), "%s", e.Kind)
				}
			}
		}
	}
	w.forBodies(func(p *Path, d dispatch, b *Path, at string) {
		w.signedOff(p, d, b, at)
		note(p.Events)
		note(b.Events)
		pre, post := netAdds(p.Events[:d.i], ctr), netAdds(p.Events[d.i:], ctr)
		off := w.offIdx(b)
		if off < 0 {
			off = len(b.Events)
		}
		body := netAdds(b.Events[:off], ctr)
		c.ob(pre == 1 && post == 0, "a function is counted once before it is handed over", at, "net %d before, %d after", pre, post)
		c.ob(body == -1 && netAdds(b.Events, ctr) == -1, "a function is no longer counted when it is signed off", at, "net %d before signing off, %d in all", body, netAdds(b.Events, ctr))
		ci := w.callIdx(b.Events)
		if ci >= 0 {
			c.ob(netAdds(b.Events[:ci], ctr) == 0, "a function is counted while it runs", at, "net %d before it is called", netAdds(b.Events[:ci], ctr))
		}
		for _, e := range append(evs(p.Events, "atomic.store", "atomic.swap", "atomic.cas"), evs(b.Events, "atomic.store", "atomic.swap", "atomic.cas")...) {
			c.ob(e.Args[0] != ctr, "the counter is only counted up and down", c.evAt(e), "%s", e.Kind)
		}
		for i := off + 1; i < len(b.Events); i++ {
			e := b.Events[i]
			touches := false
			for _, a := range e.Args {
				if a != nil && a.K != KConst && (a.root() == w.recv || a.contains(w.recv)) {
					touches = true
				}
			}
			c.ob(!touches, "nothing of the Group is touched after the function is signed off", c.evAt(e), "%s %s %v", e.Kind, e.Name, e.Args)
		}
		for _, e := range evs(b.Events, "go", "async") {
			for _, bb := range e.Bodies {
				for _, x := range bb.Events {
					for _, a := range x.Args {
						c.ob(a == nil || a.root() != w.recv, "no other goroutine touches the Group", c.evAt(x), "%s", x.Kind)
					}
				}
			}
		}
	})
	w.forRefused(func(p *Path, d dispatch) {
		note(p.Events)
		off := w.offIdx(p)
		if off < 0 {
			off = len(p.Events)
		}
		c.ob(netAdds(p.Events, ctr) == 0, "a refused function is not counted", c.pathAt(w.fGo, p), "net %d", netAdds(p.Events, ctr))
		c.ob(netAdds(p.Events, wg) == 0, "a refused function is not waited for", c.pathAt(w.fGo, p), "net %d", netAdds(p.Events, wg))
		c.ob(netAdds(p.Events[:off], ctr) == 0, "a refused function is no longer counted when it is signed off", c.pathAt(w.fGo, p), "net %d", netAdds(p.Events[:off], ctr))
	})
	w.barrier()
	// what was changed is reset
	for _, k := range sortedKeys(changed) {
		path := changed[k]
		v := structOf(w.T).Field(path[0])
		if path[0] == w.wg[0] || path[0] == w.ctr[0] || v.Name() == "Name" {
			continue
		}
		addr := w.at(w.wrecv, path)
		for _, p := range w.waits {
			if p.Kind != OReturn {
				continue
			}
			wi := w.waitIdx(p)
			ok := false
			for i, e := range p.Events {
				if len(e.Args) == 0 || !covers(e.Args[0], addr) {
					continue
				}
				switch e.Kind {
				case "store":
					if within(addr, e.Args[0]) || addr == e.Args[0] {
						ok = i > wi && isZeroTerm(e.Args[1])
					} else if !isZeroTerm(e.Args[1]) {
						ok = false
					}
				case "atomic.store":
					ok = i > wi && isZeroTerm(e.Args[1])
				case "atomic.swap":
					ok = i > wi && isZeroTerm(e.Args[1])
				case "atomic.add", "atomic.cas", "once.run", "atomic.other":
					ok = false
				}
			}
			c.ob(ok, "Wait resets what the functions changed", c.pathAt(w.fWait, p), "field %s is not reset after waiting", v.Name())
		}
	}
	for _, p := range w.waits {
		if p.Kind != OReturn {
			continue
		}
		wi := w.waitIdx(p)
		for i, e := range p.Events {
			if len(e.Args) == 0 || e.Args[0] != w.at(w.wrecv, w.ctr) {
				continue
			}
			switch e.Kind {
			case "atomic.load":
			case "atomic.store", "atomic.swap":
				c.ob(i > wi && wi >= 0 && isZeroTerm(e.Args[1]), "Wait leaves the counter at 0", c.evAt(e), "set to %v at step %d, waited at %d", e.Args[1], i, wi)
			default:
				c.ob(false, "Wait leaves the counter at 0", c.evAt(e), "%s", e.Kind)
			}
		}
		c.ob(p.heapVal(w.at(w.wrecv, w.cancel)) == tNil || p.Facts.isNil(p.heapVal(w.at(w.wrecv, w.cancel))), "Wait forgets CancelOnErr", c.pathAt(w.fWait, p), "it is %v afterwards", p.heapVal(w.at(w.wrecv, w.cancel)))
		// nothing Wait starts goes on
		c.ob(len(evs(p.Events, "go", "async")) == 0, "Wait starts nothing", c.pathAt(w.fWait, p), "it does")
	}
	w.others(func(fn *ssa.Function, recv *Term, ps []*Path) {
		for _, p := range ps {
			for _, e := range allEvs(p.Events, "store", "atomic.store", "atomic.add", "atomic.swap", "atomic.cas", "atomic.other") {
				_, ok := relPath(e.Args[0], recv)
				c.ob(!ok, "other methods change nothing", c.evAt(e), "%s in %s", e.Kind, fn.Name())
			}
		}
	})
}

func init() {
	reg("C15", rC15, "WaitGroup typestate over the life of each function given to Group.Go: Add before the hand-over (go or Pool.Submit), one Done after the call in what is started, balanced when the Pool refuses; Wait waits on every path and for nothing else")
	reg("C16", rC16, "every path of Group.Go and of what it starts: one hand-over, one call with a derived Context after a cancellation check, or a recorded error")
	reg("C17", rC17, "every non-nil error on a path ends in a successful compare-and-swap that keeps the old one (or is a context error found after another); Wait returns what is recorded, read after waiting")
	reg("C18", rC18, "order of recording, CancelOnErr and Done on every path of what Group.Go starts; CancelOnErr called and forgotten by Wait after waiting")
	reg("C19", rC19, "counter typestate, nothing of the Group touched after Done, every field changed by Go is reset by Wait after waiting")
	reg("C48", rC48, "every path of Go: the hand-over is a Submit to the Pool with the PoolOptions unless the Pool is known to be nil, then a go statement; the function is called nowhere else")
	reg("C47", rC47, "every path of Go, of the goroutine or job that runs the function and of refused hand-overs: the counter that Running reads goes up once before the hand-over and down once after the call; nothing else changes it before Wait has waited")
}
