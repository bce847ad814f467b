package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relLim  = "goroutines/limited"
	relPool = "goroutines/pooled"
	relReg  = "goroutines/internal/register"
	relGor  = "goroutines"
	relIP   = "goroutines/internal/pool"
)

// poolType is one of the two pool implementations.
type poolType struct {
	c                                                   *Check
	rel                                                 string
	T                                                   *types.Named
	st                                                  types.Type
	fNew, fSubmit, fWait, fClose, fLen, fRunning, fName *ssa.Function

	e                        *Engine
	recv, ctx, job, opts     *Term
	submit                   []*Path
	newName, newSize         *Term
	news                     []*Path
	wg, ctr                  *cellRole // the WaitGroup and the counter
	q                        []int     // field path of the channel Submit and the workers use
	nbIdx, typIdx, callerIdx int
	segCache                 map[*Term][]seg
}

func (c *Check) pools() []*poolType {
	return []*poolType{c.pool(relLim), c.pool(relPool)}
}

func (c *Check) pool(rel string) *poolType {
	pl := &poolType{c: c, rel: rel, nbIdx: -1, segCache: map[*Term][]seg{}}
	pl.T = c.typ(rel, "Pool")
	pl.st = pl.T
	pl.fNew = c.fn(rel, "New")
	m := func(n string) *ssa.Function { return c.method(rel, "Pool", n) }
	pl.fSubmit, pl.fWait, pl.fClose, pl.fLen, pl.fRunning, pl.fName = m("Submit"), m("Wait"), m("Close"), m("Len"), m("Running"), m("GetName")
	pl.e = c.eng(Config{})
	a, ps := c.run(pl.e, pl.fSubmit)
	pl.recv, pl.ctx, pl.job, pl.opts = a[0], a[1], a[2], a[3]
	pl.submit = ps
	a, pl.news = c.run(pl.e, pl.fNew)
	pl.newName, pl.newSize = a[0], a[1]
	// the WaitGroup is the one Wait waits on, the counter the one Running reads
	wa, wps := c.run(pl.e, pl.fWait)
	for _, p := range wps {
		for _, e := range evs(p.Events, "wg.wait") {
			if r := roleOf(e.Args[0], wa[0]); r != nil {
				pl.wg = r
			}
		}
	}
	c.need(pl.wg != nil, "role: WaitGroup", "%s Wait waits on a WaitGroup of the pool", rel)
	ra, rps := c.run(pl.e, pl.fRunning)
	for _, p := range rps {
		for _, e := range evs(p.Events, "atomic.load") {
			if r := roleOf(e.Args[0], ra[0]); r != nil {
				pl.ctr = r
			}
		}
	}
	c.need(pl.ctr != nil, "role: counter", "%s Running reads an atomic counter of the pool", rel)
	pl.ownCell(pl.wg, "WaitGroup")
	pl.ownCell(pl.ctr, "counter")
	// the channel: the channel field Submit sends to or receives from
	for _, p := range pl.submit {
		for _, e := range allEvs(p.Events, "send", "recv", "seldefault") {
			chs := []*Term{}
			if len(e.Args) > 0 {
				chs = append(chs, e.Args[0])
			}
			for _, x := range e.Alts {
				chs = append(chs, x.Ch)
			}
			for _, ch := range chs {
				if ch.K == KLoad {
					if r, ok := relPath(ch.Args[0], pl.recv); ok && pl.q == nil {
						pl.q = r
					}
				}
			}
		}
	}
	c.need(pl.q != nil, "role: channel", "%s Submit uses a channel of the pool", rel)
	// which field NonBlocking sets
	pl.nbIdx = pl.nonBlockingField()
	c.need(pl.nbIdx >= 0, "role: NonBlocking", "%s NonBlocking sets a field of the submit options", rel)
	return pl
}

// cellRole is a WaitGroup or counter of the pool: a field of it, or what a field points to.
type cellRole struct {
	path []int
	ptr  bool
}

func roleOf(a, base *Term) *cellRole {
	if r, ok := relPath(a, base); ok {
		return &cellRole{path: r}
	}
	if a.K == KLoad {
		if r, ok := relPath(a.Args[0], base); ok {
			return &cellRole{path: r, ptr: true}
		}
	}
	return nil
}

// cell is the address of the cell of the pool at base; p is where its memory is known, if it is.
func (pl *poolType) cell(r *cellRole, base *Term, p *Path) *Term {
	a := rebase(base, pl.st, r.path)
	if !r.ptr {
		return a
	}
	if p != nil && base.K == KAlloc {
		return p.heapVal(a)
	}
	return mkLoad(a)
}

// ownCell: a cell that a field points to is made with the pool and stays the pool's.
func (pl *poolType) ownCell(r *cellRole, what string) {
	if !r.ptr {
		return
	}
	c := pl.c
	t := pl.st
	var v *types.Var
	for _, i := range r.path {
		v = fieldVar(t, i)
		t = structOf(t).Field(i).Type()
	}
	for _, s := range c.L.storesTo(v) {
		c.ob(c.L.onlyFrom(s.Parent(), pl.fNew), "the "+what+" is set only while the pool is created", c.L.pos(s), "store in %s", fullName(s.Parent()))
	}
	for _, p := range pl.success() {
		x := pl.cell(r, p.Results[0], p)
		c.ob(x.root().K == KAlloc && x.root() != p.Results[0], "New makes the "+what, c.pathAt(pl.fNew, p), "%s", x)
	}
}

func (pl *poolType) wgAddr(base *Term) *Term  { return pl.cell(pl.wg, base, nil) }
func (pl *poolType) ctrAddr(base *Term) *Term { return pl.cell(pl.ctr, base, nil) }

// wgCells and ctrCells are the names the pool's cells have in the life of a job: what the closure a job
// comes in captured is Submit's pool, which is the one the worker was started for.
func (pl *poolType) wgCells(l life) []*Term {
	return []*Term{pl.wgAddr(pl.recv), pl.cell(pl.wg, l.base, l.fin)}
}
func (pl *poolType) ctrCells(l life) []*Term {
	return []*Term{pl.ctrAddr(pl.recv), pl.cell(pl.ctr, l.base, l.fin)}
}

func oneOf(t *Term, ts []*Term) bool {
	for _, x := range ts {
		if t == x {
			return true
		}
	}
	return false
}

func (pl *poolType) qAddr(base *Term) *Term { return rebase(base, pl.st, pl.q) }
func (pl *poolType) qOf() *Term             { return mkLoad(pl.qAddr(pl.recv)) }

// options are the exported functions that return a SubmitOption.
func (pl *poolType) options() []*ssa.Function {
	so := pl.c.typ(relGor, "SubmitOption")
	var r []*ssa.Function
	for _, f := range pl.c.L.exported(pl.rel) {
		rs := f.Signature.Results()
		if f.Signature.Recv() == nil && rs.Len() == 1 && (types.Identical(rs.At(0).Type(), so) || types.Identical(rs.At(0).Type().Underlying(), so.Underlying())) {
			r = append(r, f)
		}
	}
	return r
}

// evalOption applies the closure an option constructor returns to options with the given type.
func (pl *poolType) evalOption(f *ssa.Function, typ *Term) (in *Term, ps []*Path) {
	_, outs := pl.c.run(pl.e, f)
	for _, o := range outs {
		if o.Kind != OReturn || len(o.Results) != 1 || o.Results[0].Fn == nil {
			continue
		}
		fn := o.Results[0].Fn
		if len(fn.Params) != 1 {
			continue
		}
		st := structOf(fn.Params[0].Type())
		if st == nil {
			continue
		}
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			if i == pl.typeField(fn.Params[0].Type()) && typ != nil {
				fs[i] = typ
			} else {
				fs[i] = mkParam("opt."+st.Field(i).Name(), st.Field(i).Type())
			}
		}
		in = mkStruct(fn.Params[0].Type(), fs)
		ps = append(ps, pl.e.RunClosure(fn, o.Results[0].Args, []*Term{in}, o.StateOf())...)
	}
	return in, ps
}

// typeField is the field of the submit options that says which pool it is: the one whose type is a
// named integer type of the pool package.
func (pl *poolType) typeField(t types.Type) int {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if n, ok := types.Unalias(s.Field(i).Type()).(*types.Named); ok {
			if b, ok := n.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return i
			}
		}
	}
	return -1
}

func (pl *poolType) nonBlockingField() int {
	f := pl.c.fn(pl.rel, "NonBlocking")
	_, ps := pl.evalOption(f, nil)
	for _, p := range ps {
		if p.Kind != OReturn || len(p.Results) != 2 {
			continue
		}
		if n, k := isErrNil(p, p.Results[1]); !k || !n {
			continue
		}
		r := p.Results[0]
		if r.K != KStruct {
			continue
		}
		for i, x := range r.Args {
			if x == tTrue {
				return i
			}
		}
	}
	return -1
}

// nbOption: a submission is a NonBlocking one exactly if the option of that name was given.
func (pl *poolType) nbOption() {
	c := pl.c
	nbf := c.fn(pl.rel, "NonBlocking")
	for _, f := range pl.options() {
		in, ps := pl.evalOption(f, nil)
		for _, p := range ps {
			if p.Kind != OReturn || len(p.Results) != 2 {
				continue
			}
			if n, k := isErrNil(p, p.Results[1]); k && !n {
				continue
			}
			at := c.pathAt(p.End.Parent(), p)
			if p.Results[0].T == nil || structOf(p.Results[0].T) == nil || in == nil {
				c.ob(false, "an option returns the submit options", at, "returns %s", p.Results[0])
				continue
			}
			got := mkField(p.Results[0], pl.nbIdx, p.Results[0].T)
			if f == nbf {
				c.ob(got == tTrue, "NonBlocking sets the option Submit looks at", at, "it becomes %s", got)
			} else {
				c.ob(got == in.Args[pl.nbIdx] || got == mkField(in, pl.nbIdx, in.T), "only the option NonBlocking makes a submission a NonBlocking one", at, "%s makes it %s", f.Name(), got)
			}
		}
	}
	for _, p := range pl.submit {
		for _, e := range p.Events {
			if !(e.Kind == "invoke" && e.Name == "" && len(e.Args) == 2 && len(e.Res) == 2 && pl.isOption(e.Args[0])) {
				continue
			}
			if arg := e.Args[1]; arg.T != nil && structOf(arg.T) != nil && pl.typeField(arg.T) >= 0 {
				x := mkField(arg, pl.nbIdx, arg.T)
				if l := p.LV(x); x.K == KLoopVar && l != nil {
					for _, i := range l.Init {
						c.ob(i == tFalse, "without options a submission is not a NonBlocking one", c.evAt(e), "it starts as %s", i)
					}
				} else if x == tTrue {
					c.ob(false, "without options a submission is not a NonBlocking one", c.evAt(e), "it starts as %s", x)
				}
			}
		}
	}
}

// optField: the term is the given field of the options after applying some options.
func (pl *poolType) optField(p *Path, t *Term, idx int, d int) bool {
	if d > 4 {
		return false
	}
	switch t.K {
	case KField:
		return t.Idx == idx && t.Args[0].K == KRet && structOf(t.Args[0].T) != nil && pl.typeField(t.Args[0].T) >= 0
	case KLoopVar:
		l := p.LV(t)
		if l == nil || len(l.Back) == 0 {
			return false
		}
		for _, b := range l.Back {
			if !(b.K == KLoopVar && b.Op == t.Op) && !pl.optField(p, b, idx, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// nb tells whether the path is for a NonBlocking submission.
func (pl *poolType) nb(p *Path) (val, known bool) {
	for f := p.Facts; f != nil; f = f.prev {
		t := f.t
		v := f.v
		for t.K == KUn && t.Op == "!" {
			t, v = t.Args[0], !v
		}
		if pl.optField(p, t, pl.nbIdx, 0) {
			return v, true
		}
	}
	return false, false
}

func (pl *poolType) nbName(p *Path) string {
	v, k := pl.nb(p)
	if !k {
		return "any"
	}
	return fmt.Sprintf("NonBlocking=%v", v)
}

// accepted: Submit returns nil on the path; may: it may.
func accepted(p *Path) (yes, known bool) {
	if p.Kind != OReturn || len(p.Results) == 0 {
		return false, true
	}
	n, k := isErrNil(p, p.Results[len(p.Results)-1])
	return n, k
}

// success: New returns a pool.
func (pl *poolType) success() []*Path {
	var r []*Path
	for _, p := range pl.news {
		if p.Kind == OReturn && len(p.Results) == 2 {
			if n, k := isErrNil(p, p.Results[1]); k && n {
				r = append(r, p)
			}
		}
	}
	pl.c.need(len(r) > 0, "role: New", "%s New can succeed", pl.rel)
	return r
}

// seg is what a worker does between two receives.
type seg struct {
	rcv    *Event
	ok     bool // a job was received
	events []*Event
	next   *Event // the following receive, nil if the worker returns
	body   *Path
	goEv   *Event
}

// workers explores the workers New starts, with the value they receive bound to msg.
func (pl *poolType) workers(msg *Term, from *Path) []seg {
	key := msg
	if s, ok := pl.segCache[key]; ok {
		return s
	}
	e := pl.c.eng(Config{OnRecv: func(st *State, ch *Term) *Term {
		if ch.K == KMakeChan && types.Identical(ch.T.Underlying().(*types.Chan).Elem(), msgElem(pl, from)) {
			return msg
		}
		return nil
	}})
	var st *State
	if from != nil {
		st = from.StateOf()
	}
	ps := e.Run(pl.fNew, e.params(pl.fNew), st)
	var segs []seg
	for _, p := range ps {
		if p.Kind != OReturn || len(p.Results) != 2 || p.Results[1] != tNil {
			continue
		}
		q := p.heapVal(pl.qAddr(p.Results[0]))
		for _, g := range evs(p.Events, "go") {
			for _, b := range g.Bodies {
				var cur *seg
				for _, x := range b.Events {
					if x.Kind == "recv" && x.Args[0] == q {
						if cur != nil {
							cur.next = x
							segs = append(segs, *cur)
						}
						cur = &seg{rcv: x, ok: x.Res[1] != tFalse, body: b, goEv: g}
						continue
					}
					if cur != nil && x.Kind != "loop" && x.Kind != "loopback" {
						cur.events = append(cur.events, x)
					}
				}
				if cur != nil {
					segs = append(segs, *cur)
				}
			}
		}
	}
	pl.segCache[key] = segs
	return segs
}

func msgElem(pl *poolType, from *Path) types.Type {
	t := pl.st
	for _, i := range pl.q {
		t = structOf(t).Field(i).Type()
	}
	return t.Underlying().(*types.Chan).Elem()
}

// life is the life of one accepted job: what Submit does before handing it over and what
// the goroutine that runs it does.
type life struct {
	p    *Path
	pre  []*Event // Submit before the hand-over
	disp *Event   // the hand-over: go, send or the call itself
	post []*Event // Submit after it
	body []*Event // the goroutine that runs the job, for this job
	base *Term    // the pool in body
	how  string   // go, queue, inline
	fin  *Path
}

func (pl *poolType) isJobCall(e *Event) bool {
	return e.Kind == "invoke" && e.Name == "" && len(e.Args) > 0 && e.Args[0] == pl.job
}

// lives finds the hand-overs of the job on a path of Submit.
func (pl *poolType) lives(p *Path) (ls []life, problems []string) {
	n := 0
	for i, e := range p.Events {
		switch {
		case pl.isJobCall(e):
			n++
			ls = append(ls, life{p: p, pre: p.Events[:i], disp: e, post: p.Events[i+1:], body: p.Events[i:], base: pl.recv, how: "inline"})
		case e.Kind == "go":
			with := 0
			for _, b := range e.Bodies {
				k := 0
				for _, x := range allEvs(b.Events, "invoke") {
					if pl.isJobCall(x) {
						k++
					}
				}
				if k > 0 {
					with++
				}
			}
			if with == 0 {
				continue
			}
			n++
			for _, b := range e.Bodies {
				if b.Kind == OReturn {
					ls = append(ls, life{p: p, pre: p.Events[:i], disp: e, post: p.Events[i+1:], body: b.Events, base: pl.recv, how: "go", fin: b})
				}
			}
		case e.Kind == "send" && e.Args[0] == pl.qOf() && pl.carriesJob(e.Args[1], p):
			n++
			segs := pl.workers(e.Args[1], p)
			k := 0
			for _, s := range segs {
				if !s.ok {
					continue
				}
				k++
				ls = append(ls, life{p: p, pre: p.Events[:i], disp: e, post: p.Events[i+1:], body: s.events, base: pl.poolOf(s), how: "queue", fin: s.body})
			}
			if k == 0 {
				problems = append(problems, "the job is sent to a channel nobody receives from")
			}
		}
	}
	if n != 1 {
		problems = append(problems, fmt.Sprintf("the job is handed over %d times", n))
	}
	return ls, problems
}

// carriesJob: the message lets its receiver call the job.
func (pl *poolType) carriesJob(v *Term, p *Path) bool {
	if v.contains(pl.job) {
		return true
	}
	// through a pointer or closure variable
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t == pl.job {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		if t.K == KAlloc {
			for a, x := range p.Heap {
				if a.root() == t && walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// poolOf is the pool the worker belongs to: the base of the channel field it receives from.
func (pl *poolType) poolOf(s seg) *Term {
	// New's result: the pool whose channel field holds the channel
	for a, v := range s.body.Heap {
		if v == s.rcv.Args[0] && a.K == KFieldAddr {
			b := a
			for range pl.q {
				b = b.Args[0]
			}
			if b.K == KAlloc {
				return b
			}
		}
	}
	return pl.recv
}

func (pl *poolType) jobIndex(l life) (idx, n int) {
	idx = -1
	for i, e := range l.body {
		if pl.isJobCall(e) {
			n++
			idx = i
		}
	}
	for _, e := range l.body {
		for _, b := range e.Bodies {
			for _, x := range allEvs(b.Events, "invoke") {
				if pl.isJobCall(x) {
					n += 10 // called by yet another goroutine
				}
			}
		}
	}
	return
}

// acceptedPaths calls f for every path on which Submit may return nil.
func (pl *poolType) acceptedPaths(f func(p *Path)) {
	n := 0
	for _, p := range pl.submit {
		if p.Kind == OPanic || p.Kind == OExit {
			continue
		}
		y, k := accepted(p)
		if k && !y {
			continue
		}
		n++
		f(p)
	}
	pl.c.need(n > 0, "role: Submit", "%s Submit can accept a job", pl.rel)
}

func (pl *poolType) rejectedPaths(f func(p *Path)) {
	for _, p := range pl.submit {
		if p.Kind != OReturn {
			continue
		}
		if y, k := accepted(p); k && y {
			continue
		}
		f(p)
	}
}

// forLives applies f to the life of every accepted job.
func (pl *poolType) forLives(f func(l life, at string)) {
	c := pl.c
	pl.acceptedPaths(func(p *Path) {
		ls, prob := pl.lives(p)
		at := c.pathAt(pl.fSubmit, p) + " " + pl.nbName(p)
		c.ob(len(prob) == 0, "an accepted job is handed over exactly once", at, "%s", orOK(strings.Join(prob, "; ")))
		for _, l := range ls {
			_, n := pl.jobIndex(l)
			c.ob(n == 1, "the goroutine a job is handed to calls it exactly once", at, "hand-over by %s: %d calls", l.how, n)
			if n == 1 {
				f(l, at)
			}
		}
	})
}

// qOps counts sends to and receives from the pool's channel.
func qOps(es []*Event, q *Term) (send, recv int) {
	for _, e := range allEvs(es, "send", "recv") {
		if e.Args[0] == q {
			if e.Kind == "send" {
				send++
			} else {
				recv++
			}
		}
	}
	return
}

// capacity checks that the channel field is made with the given capacity by New and never replaced.
func (pl *poolType) channelFixed(want *Term, wantName string) {
	c := pl.c
	for _, p := range pl.success() {
		q := p.heapVal(pl.qAddr(p.Results[0]))
		ok := q.K == KMakeChan && q.Args[0] == want
		c.ob(ok, "New makes the channel with capacity "+wantName, c.pathAt(pl.fNew, p), "channel is %s", q)
	}
	// never replaced
	t := pl.st
	var v *types.Var
	for _, i := range pl.q {
		v = fieldVar(t, i)
		t = structOf(t).Field(i).Type()
	}
	for _, s := range c.L.storesTo(v) {
		c.ob(c.L.onlyFrom(s.Parent(), pl.fNew), "the channel is set only while the pool is created", c.L.pos(s), "store in %s", fullName(s.Parent()))
	}
}

// otherMethods runs the exported methods other than Submit.
func (pl *poolType) otherMethods(f func(fn *ssa.Function, recv *Term, ps []*Path)) {
	for _, fn := range pl.c.L.exported(pl.rel) {
		if fn == pl.fSubmit || fn == pl.fNew || fn.Signature.Recv() == nil {
			continue
		}
		a, ps := pl.c.run(pl.e, fn)
		f(fn, a[0], pl.c.firstOnly(fn, ps))
	}
}

// ---------------------------------------------------------------- C01, C02

func limitedSlots(c *Check) {
	pl := c.pool(relLim)
	q := pl.qOf()
	pl.channelFixed(pl.newSize, "size")
	pl.nbOption()
	pl.forLives(func(l life, at string) {
		ji, _ := pl.jobIndex(l)
		nb, known := pl.nb(l.p)
		// the trace of the submission: Submit up to the hand-over, then the job's goroutine
		s0, r0 := qOps(l.pre, q)
		s1, r1 := qOps(l.body[:ji], q)
		s2, r2 := qOps(l.body[ji:], q)
		s3, r3 := qOps(l.post, q)
		if l.how == "inline" {
			s3, r3 = 0, 0
		}
		if l.how == "queue" {
			c.ob(false, "a job of a limited pool runs on a goroutine of its own", at, "handed over by queue")
			return
		}
		if known && nb || !known {
			c.ob(s0+r0+s1+r1+s2+r2+s3+r3 == 0 || !known, "a NonBlocking submission neither takes nor gives back a place", at,
				"%d sends and %d receives on the slot channel", s0+s1+s2+s3, r0+r1+r2+r3)
		}
		if !known || !nb {
			c.ob(s0+s1 == 1 && known, "a submission without NonBlocking takes exactly one place before its job starts", at, "%d taken before the job, NonBlocking known on the path: %v", s0+s1, known)
			c.ob(r0+r1 == 0, "the place is not given back before the job returned", at, "%d given back before", r0+r1)
			c.ob(r2 == 1, "the place is given back exactly once after the job returned", at, "%d given back after", r2)
			c.ob(s2 == 0 && s3 == 0 && r3 == 0, "Submit does not touch the places after the hand-over", at, "%d sends, %d receives", s2+s3, r3)
			// the release cannot be delayed
			for _, e := range l.body[ji+1:] {
				if e.Kind == "recv" && e.Args[0] == q {
					break
				}
				c.ob(!blockingOp(e) && e.Kind != "invoke", "the place is given back without waiting", c.evAt(e), "%s before the place is given back", e.Kind)
			}
		}
	})
	pl.rejectedPaths(func(p *Path) {
		s, r := qOps(p.Events, q)
		c.ob(s == r, "a rejected submission keeps no place", c.pathAt(pl.fSubmit, p), "%d taken, %d given back", s, r)
	})
	pl.otherMethods(func(fn *ssa.Function, recv *Term, ps []*Path) {
		q := mkLoad(pl.qAddr(recv))
		for _, p := range ps {
			s, r := qOps(p.Events, q)
			c.ob(s+r == 0, "only Submit takes and gives back places", c.pathAt(fn, p), "%d sends, %d receives", s, r)
			waited := false
			for _, e := range p.Events {
				if e.Kind == "wg.wait" && e.Args[0] == pl.wgAddr(recv) {
					waited = true
				}
				if e.Kind == "close" && e.Args[0] == q {
					c.ob(waited, "the slot channel is closed only after all jobs returned", c.evAt(e), "closed without waiting")
				}
			}
		}
	})
}

func rC01(c *Check) { limitedSlots(c); barrier(c, c.pool(relLim)) }
func rC02(c *Check) { limitedSlots(c) }

// ---------------------------------------------------------------- C03

func rC03(c *Check) {
	pl := c.pool(relPool)
	pl.workerCount()
	pl.workerLoop()
	pl.nbOption()
	q := pl.qOf()
	pl.forLives(func(l life, at string) {
		switch l.how {
		case "queue":
			c.ob(true, "a job runs on a worker", at, "sent to the workers")
		case "go":
			nb, known := pl.nb(l.p)
			c.ob(nb && known, "only a NonBlocking job runs outside the workers", at, "goroutine started for it")
			tried := false
			for _, e := range l.pre {
				if e.Kind == "seldefault" && hasAlt(e, true, q) {
					tried = true
				}
			}
			c.ob(tried, "a NonBlocking job is offered to the idle workers first", at, "goroutine started without a non-blocking send")
		default:
			c.ob(false, "a job runs on a worker or, NonBlocking, on its own goroutine", at, "called inline by Submit")
		}
	})
	pl.otherMethods(func(fn *ssa.Function, recv *Term, ps []*Path) {
		for _, p := range ps {
			_, r := qOps(p.Events, mkLoad(pl.qAddr(recv)))
			c.ob(r == 0, "only workers receive jobs", c.pathAt(fn, p), "%d receives", r)
		}
	})
	t := pl.st
	var v *types.Var
	for _, i := range pl.q {
		v = fieldVar(t, i)
		t = structOf(t).Field(i).Type()
	}
	for _, s := range c.L.storesTo(v) {
		c.ob(c.L.onlyFrom(s.Parent(), pl.fNew), "the channel is set only while the pool is created", c.L.pos(s), "store in %s", fullName(s.Parent()))
	}
}

// isWorker: a goroutine of New that receives from the pool's channel.
func isWorker(g *Event, q *Term) bool {
	for _, b := range g.Bodies {
		for _, e := range allEvs(b.Events, "recv") {
			if e.Args[0] == q {
				return true
			}
		}
	}
	return false
}

func (pl *poolType) workerCount() {
	c := pl.c
	with := 0
	for _, p := range pl.success() {
		q := p.heapVal(pl.qAddr(p.Results[0]))
		var sites []int
		for i, e := range p.Events {
			if e.Kind == "go" {
				if isWorker(e, q) {
					sites = append(sites, i)
				} else {
					c.ob(false, "New starts nothing but workers", c.evAt(e), "goroutine that receives no jobs")
				}
			}
		}
		if len(sites) == 0 {
			continue // the loop ran zero times: excluded by the trip count below
		}
		with++
		at := c.evAt(p.Events[sites[0]])
		loops := loopsAround(p.Events, sites[0])
		if !c.ob(len(loops) == 1, "the workers are started by one counting loop", at, "%d loops around it", len(loops)) {
			continue
		}
		t, why := p.total(loops[0], p.Events, func(e *Event) bool { return e.Kind == "go" })
		c.ob(why == "", "each iteration starts one worker", at, "%s", orOK(why))
		n := 0
		for _, e := range tail(p.Events, loops[0]) {
			if e.Kind == "go" {
				n++
			}
		}
		c.ob(len(sites) == len(segments(p.Events, loops[0]))+n, "workers are started only by that loop", at, "%d goroutines", len(sites))
		c.ob(t == pl.newSize, "New starts exactly size workers", at, "the loop starts %s workers", t)
	}
	c.ob(with > 0, "New starts workers", c.at(pl.fNew), "%d paths with workers", with)
	// no worker is started elsewhere
	for _, p := range pl.submit {
		for _, g := range evs(p.Events, "go") {
			c.ob(!isWorker(g, pl.qOf()), "workers are started only by New", c.evAt(g), "Submit starts a goroutine that receives jobs")
		}
	}
	pl.otherMethods(func(fn *ssa.Function, recv *Term, ps []*Path) {
		for _, p := range ps {
			for _, g := range evs(p.Events, "go") {
				c.ob(false, "goroutines are started only by New and Submit", c.evAt(g), "%s starts a goroutine", fn.Name())
			}
		}
	})
}

// workerLoop: a worker receives until the channel is closed.
func (pl *poolType) workerLoop() {
	c := pl.c
	msg := pl.someMsg()
	segs := pl.workers(msg, pl.someSender())
	c.need(len(segs) > 0, "role: worker", "%s New starts goroutines that receive jobs", pl.rel)
	sawEnd := false
	for _, s := range segs {
		at := c.evAt(s.rcv)
		if s.ok {
			// the last segment of an explored path may be cut at the exploration bound only if it
			// ended in a return
			c.ob(s.next != nil, "a worker goes on to the next job after each job", at, "worker ends after a job")
			c.ob(s.rcv.Blocking, "a worker waits for jobs", at, "receive does not block")
			for _, e := range s.events {
				if !pl.isJobCall(e) && blockingOp(e) {
					c.ob(false, "a worker waits for nothing but jobs", c.evAt(e), "%s", e.Kind)
				}
			}
			n, spawned := 0, 0
			for _, e := range s.events {
				if pl.isJobCall(e) {
					n++
				}
				if e.Kind == "go" {
					spawned++
				}
				c.ob(e.Kind != "send" || e.Args[0] != s.rcv.Args[0], "a worker puts no job back into the channel", c.evAt(e), "send")
			}
			c.ob(n == 1 && spawned == 0, "a worker runs the job it received itself, once", at, "%d calls, %d goroutines started", n, spawned)
		} else {
			sawEnd = true
			c.ob(s.next == nil, "a worker ends when the channel is closed", at, "receives again after the channel was closed")
			for _, e := range s.events {
				c.ob(e.Kind != "invoke" && e.Kind != "wg.add" && e.Kind != "atomic.add" && !blockingOp(e), "a worker that finds the channel closed does nothing else", c.evAt(e), "%s", e.Kind)
			}
		}
	}
	c.ob(sawEnd, "workers notice that the channel was closed", c.at(pl.fNew), "end seen: %v", sawEnd)
}

func (pl *poolType) someSender() *Path {
	for _, p := range pl.submit {
		for _, e := range evs(p.Events, "send") {
			if e.Args[0] == pl.qOf() && pl.carriesJob(e.Args[1], p) {
				return p
			}
		}
	}
	return nil
}

func (pl *poolType) someMsg() *Term {
	for _, p := range pl.submit {
		for _, e := range evs(p.Events, "send") {
			if e.Args[0] == pl.qOf() && pl.carriesJob(e.Args[1], p) {
				return e.Args[1]
			}
		}
	}
	pl.c.need(false, "role: hand-over", "%s Submit sends jobs to the workers", pl.rel)
	return nil
}

// ---------------------------------------------------------------- C04

func rC04(c *Check) {
	for _, pl := range c.pools() {
		pl.forLives(func(l life, at string) {
			ji, _ := pl.jobIndex(l)
			e := l.body[ji]
			c.ob(len(e.Args) == 2 && e.Args[1] == pl.ctx, "the job gets the Context given to Submit", c.evAt(e), "called with %v", e.Args[1:])
			for _, x := range l.body[:ji] {
				c.ob(!blockingOp(x) || l.how == "go" && x.Kind == "send" && x.Args[0] == pl.qOf(), "nothing keeps an accepted job from starting", c.evAt(x), "%s before the job", x.Kind)
			}
		})
		pl.rejectedPaths(func(p *Path) {
			n := 0
			for _, e := range allEvs(p.Events, "invoke") {
				if pl.isJobCall(e) {
					n++
				}
			}
			for _, e := range allEvs(p.Events, "send") {
				if pl.carriesJob(e.Args[1], p) {
					n++
				}
			}
			c.ob(n == 0, "a rejected job is never handed over or called", c.pathAt(pl.fSubmit, p), "%d hand-overs", n)
		})
		if pl.rel == relPool {
			pl.workerLoop()
			pl.workerCount()
		}
		// the channel is not closed or drained by anything that could lose a job
		pl.otherMethods(func(fn *ssa.Function, recv *Term, ps []*Path) {
			q := mkLoad(pl.qAddr(recv))
			for _, p := range ps {
				if pl.rel == relPool {
					_, r := qOps(p.Events, q)
					c.ob(r == 0, "no job is taken out of the channel and dropped", c.pathAt(fn, p), "%d receives", r)
				}
				waited := false
				for _, e := range p.Events {
					if e.Kind == "wg.wait" && e.Args[0] == pl.wgAddr(recv) {
						waited = true
					}
					if e.Kind == "close" && e.Args[0] == q {
						c.ob(waited, "the channel is closed only after all accepted jobs returned", c.evAt(e), "closed without waiting")
					}
				}
			}
		})
	}
}

// ---------------------------------------------------------------- C05

func rC05(c *Check) {
	pls := c.pools()
	types_ := map[string]*Term{}
	for _, pl := range pls {
		types_[pl.rel] = pl.optionChain()
	}
	for i, pl := range pls {
		own, other := types_[pl.rel], types_[pls[1-i].rel]
		c.ob(own != nil && other != nil && own != other && own.K == KConst, "each pool hands its own pool type to the options", c.at(pl.fSubmit), "own %s, other %s", own, other)
		if own == nil || other == nil {
			continue
		}
		for _, f := range pl.options() {
			_, ps := pl.evalOption(f, other)
			c.ob(len(ps) > 0, "options return closures that can be analysed", c.at(f), "%d paths", len(ps))
			for _, p := range ps {
				if p.Kind != OReturn || len(p.Results) != 2 {
					continue
				}
				n, k := isErrNil(p, p.Results[1])
				c.ob(k && !n, "an option fails on a pool of the other type", c.pathAt(p.End.Parent(), p), "returns error %s", p.Results[1])
			}
			inn, ps := pl.evalOption(f, own)
			for _, p := range ps {
				if p.Kind != OReturn || len(p.Results) != 2 {
					continue
				}
				n, k := isErrNil(p, p.Results[1])
				if !c.ob(k && n, "an option works on its own pool", c.pathAt(p.End.Parent(), p), "returns error %s", p.Results[1]) {
					continue
				}
				r := p.Results[0]
				kept := r.K == KStruct && len(r.Args) == len(inn.Args)
				if kept {
					ti := pl.typeField(r.T)
					kept = r.Args[ti] == own
					changed := 0
					for j := range r.Args {
						if r.Args[j] != inn.Args[j] {
							changed++
						}
					}
					kept = kept && changed <= 1
				} else {
					kept = r == inn
				}
				c.ob(kept, "an option changes only what it is for", c.pathAt(p.End.Parent(), p), "returns %s", r)
			}
		}
		pl.noTrace()
	}
}

// optionChain checks that Submit applies every option in turn, starting from the pool's own
// type, and rejects if one fails. It returns the pool type.
func (pl *poolType) optionChain() *Term {
	c := pl.c
	var own *Term
	isOpt := func(e *Event) bool {
		return e.Kind == "invoke" && e.Name == "" && len(e.Args) == 2 && len(e.Res) == 2 && pl.isOption(e.Args[0])
	}
	iter := 0
	for _, p := range pl.submit {
		if p.Kind != OReturn {
			continue
		}
		y, k := accepted(p)
		at := c.pathAt(pl.fSubmit, p)
		c.ob(k, "Submit's error is known to be nil or not on each path", at, "returns %s", p.Results[0])
		if k && !y {
			// an error that says why
			continue
		}
		nn := p.Facts.nonNil(pl.job)
		c.ob(nn, "a nil job is rejected", at, "accepted without a nil check")
		// zero iterations are covered by the loop rule below; every call must have succeeded
		for i, e := range p.Events {
			if !isOpt(e) {
				continue
			}
			iter++
			n, k := isErrNil(p, e.Res[1])
			c.ob(k && n, "a submission is accepted only if every option succeeded", at, "option error %s ignored", e.Res[1])
			arg := e.Args[1]
			ti := pl.typeField(arg.T)
			if arg.T == nil || ti < 0 {
				c.ob(false, "options get the submit options", c.evAt(e), "argument %s", arg)
				continue
			}
			tf := mkField(arg, ti, arg.T)
			if tf.K == KLoopVar {
				if l := p.LV(tf); l != nil && len(l.Init) == 1 {
					own = sameOr(own, l.Init[0])
					for _, b := range l.Back {
						c.ob(b == l.Init[0] || pl.optField(p, b, ti, 0) || b.K == KLoopVar && b.Op == tf.Op, "an option gets the result of the previous one", c.evAt(e), "type field becomes %s", b)
					}
				}
			} else {
				own = sameOr(own, tf)
			}
			// every field is carried along
			for j := 0; j < structOf(arg.T).NumFields(); j++ {
				x := mkField(arg, j, arg.T)
				if x.K != KLoopVar {
					c.ob(j == ti, "an option gets the result of the previous one", c.evAt(e), "field %d is %s in every call", j, x)
					continue
				}
				l := p.LV(x)
				okb := l != nil && len(l.Back) > 0
				if okb {
					for _, b := range l.Back {
						if !pl.optField(p, b, j, 0) {
							okb = false
						}
					}
				}
				c.ob(okb, "an option gets the result of the previous one", c.evAt(e), "field %d", j)
			}
			_ = i
			// all options
			ia := e.Args[0]
			var idx *Term
			if ia.K == KLoad && ia.Args[0].K == KIndexAddr {
				idx = ia.Args[0].Args[1]
			} else if ia.K == KIndex {
				idx = ia.Args[1]
			}
			if idx != nil {
				ok, why := p.covers(p.Events, isOpt, idx, mkLen(pl.opts))
				c.ob(ok, "every option is applied", c.evAt(e), "%s", orOK(why))
			}
		}
		// in each iteration of the loop over the options, one option is called
		for _, key := range pl.optLoops() {
			seen := false
			for _, e := range p.Events {
				if e.Name == key && e.Kind == "loop" {
					seen = true
				}
			}
			lo, hi := p.Facts.bounds(mkLen(pl.opts))
			if !seen && lo <= hi && hi <= 0 {
				continue // there are none
			}
			c.ob(seen, "no submission is accepted without applying its options", at, "loop over the options skipped")
			if seen {
				t, why := p.total(key, p.Events, isOpt)
				c.ob(t == mkLen(pl.opts), "every option is applied", at, "applied %s times %s", t, why)
			}
		}
	}
	c.need(iter > 0, "role: options", "%s Submit applies its options", pl.rel)
	// what is looked at after the options is the final result
	return own
}

func sameOr(a, b *Term) *Term {
	if a != nil && a != b {
		return mkUnknown("several", nil)
	}
	return b
}

func (pl *poolType) isOption(t *Term) bool {
	if t.K == KLoad && t.Args[0].K == KIndexAddr {
		return t.Args[0].Args[0] == pl.opts
	}
	return t.K == KIndex && t.Args[0] == pl.opts
}

// optLoops are the loops of Submit in which options are called.
func (pl *poolType) optLoops() []string {
	m := map[string]bool{}
	for _, p := range pl.submit {
		for i, e := range p.Events {
			if e.Kind == "invoke" && len(e.Args) == 2 && pl.isOption(e.Args[0]) {
				for _, k := range loopsAround(p.Events, i) {
					m[k] = true
				}
			}
		}
	}
	return sortedKeys(m)
}

// noTrace: a rejected submission has no lasting effect.
func (pl *poolType) noTrace() {
	c := pl.c
	pl.rejectedPaths(func(p *Path) {
		at := c.pathAt(pl.fSubmit, p)
		n, k := isErrNil(p, p.Results[0])
		c.ob(k && !n, "a rejected submission returns a non-nil error", at, "returns %s", p.Results[0])
		var w, r int64
		for _, e := range p.Events {
			switch {
			case e.Kind == "wg.add":
				d, ok := delta(e)
				if !ok {
					d = 1000
				}
				w += d
			case strings.HasPrefix(e.Kind, "atomic.") && e.Kind != "atomic.load":
				d := int64(1000)
				if e.Kind == "atomic.add" {
					if x, ok := delta(e); ok {
						d = x
					}
				}
				r += d
			case e.Kind == "store" || e.Kind == "mapset" || e.Kind == "mapdel":
				c.ob(false, "a rejected submission changes nothing", c.evAt(e), "%s %v", e.Kind, e.Args)
			case e.Kind == "go":
				c.ob(false, "a rejected submission starts no goroutine", c.evAt(e), "go")
			}
		}
		c.ob(w == 0, "a rejected submission is not waited for", at, "WaitGroup changed by %d", w)
		c.ob(r == 0, "a rejected submission is not counted", at, "counter changed by %d", r)
		s, v := qOps(p.Events, pl.qOf())
		c.ob(s == v, "a rejected submission occupies no place", at, "%d sends, %d receives", s, v)
	})
}

// ---------------------------------------------------------------- C06, C07

func barrier(c *Check, pl *poolType) {
	pl.forLives(func(l life, at string) {
		ji, _ := pl.jobIndex(l)
		wgS, wgB := pl.wgAddr(pl.recv), pl.wgCells(l)
		pre := sumAdds(l.pre, wgS)
		c.ob(pre == 1, "a job is registered with the WaitGroup before it is handed over", at, "net %d before the hand-over", pre)
		if l.how != "inline" {
			po := sumAdds(l.post, wgS)
			c.ob(po == 0, "Submit does not change the WaitGroup after the hand-over", at, "net %d", po)
		}
		b1 := sumAdds(l.body[:ji], wgB...)
		b2 := sumAdds(l.body[ji:], wgB...)
		c.ob(b1 == 0, "a job is not signed off before it returned", at, "net %d before the job returned", b1)
		c.ob(b2 == -1, "a job is signed off exactly once after it returned", at, "net %d after", b2)
		for _, e := range l.body[ji+1:] {
			if e.Kind == "wg.add" && oneOf(e.Args[0], wgB) {
				break
			}
			c.ob(!blockingOp(e) || e.Kind == "recv" && e.Args[0] == pl.qOf(), "a job that returned is signed off without waiting", c.evAt(e), "%s before it is signed off", e.Kind)
		}
		for _, e := range allEvs(l.body, "wg.wait") {
			c.ob(!oneOf(e.Args[0], wgB), "a job does not wait for itself", c.evAt(e), "wg.wait")
		}
	})
	pl.rejectedPaths(func(p *Path) {
		w := sumAdds(p.Events, pl.wgAddr(pl.recv))
		c.ob(w == 0, "a rejected submission is not waited for", c.pathAt(pl.fSubmit, p), "net %d", w)
	})
	pl.otherMethods(func(fn *ssa.Function, recv *Term, ps []*Path) {
		wg := pl.wgAddr(recv)
		for _, p := range ps {
			for _, e := range allEvs(p.Events, "wg.add") {
				c.ob(e.Args[0] != wg, "only Submit and the job's goroutine change the WaitGroup", c.evAt(e), "changed by %s", fn.Name())
			}
			if fn == pl.fWait || fn == pl.fClose {
				if p.Kind != OReturn {
					continue
				}
				n := 0
				for _, e := range p.Events {
					if e.Kind == "wg.wait" && e.Args[0] == wg {
						n++
					} else if blockingOp(e) {
						c.ob(false, fn.Name()+" waits for nothing but the jobs", c.evAt(e), "%s", e.Kind)
					}
				}
				c.ob(n > 0, fn.Name()+" waits for every accepted job", c.pathAt(fn, p), "%d waits", n)
			}
		}
	})
}

// sumAdds sums the constant amounts added to a WaitGroup or counter.
func sumAdds(es []*Event, addr ...*Term) int64 {
	var n int64
	for _, e := range allEvs(es, "wg.add", "atomic.add", "atomic.store", "atomic.swap", "atomic.cas") {
		if !oneOf(e.Args[0], addr) {
			continue
		}
		d, ok := delta(e)
		if !ok || e.Kind != "wg.add" && e.Kind != "atomic.add" {
			return 1000
		}
		n += d
	}
	return n
}

func rC06(c *Check) {
	for _, pl := range c.pools() {
		barrier(c, pl)
		if pl.rel == relPool {
			pl.workerLoop()
			pl.workerCount()
		}
	}
}

func rC07(c *Check) {
	for _, pl := range c.pools() {
		a, ps := c.run(pl.e, pl.fRunning)
		for _, p := range ps {
			ok := false
			for _, e := range evs(p.Events, "atomic.load") {
				if e.Args[0] == pl.ctrAddr(a[0]) && len(p.Results) == 1 && p.Results[0] == e.Res[0] {
					ok = true
				}
			}
			c.ob(ok, "Running returns the counter", c.pathAt(pl.fRunning, p), "returns %v", p.Results)
		}
		pl.forLives(func(l life, at string) {
			ji, _ := pl.jobIndex(l)
			ctS, ctB, wgB := pl.ctrAddr(pl.recv), pl.ctrCells(l), pl.wgCells(l)
			pre := sumAdds(l.pre, ctS)
			b1, b2 := sumAdds(l.body[:ji], ctB...), sumAdds(l.body[ji:], ctB...)
			if l.how == "inline" {
				b2 = sumAdds(l.body, ctS)
				b1 = 0
			} else {
				po := sumAdds(l.post, ctS)
				c.ob(po == 0, "Submit does not change the counter after the hand-over", at, "net %d", po)
			}
			c.ob(pre == 1 && b1 == 0 || pre == 0 && b1 == 1 && l.how == "go", "a job is counted exactly once before it is called", at, "net %d before the hand-over, %d between it and the call", pre, b1)
			c.ob(b2 == -1, "a job is no longer counted exactly once after it returned", at, "net %d", b2)
			// before it is signed off
			ci, wi := -1, -1
			for i, e := range l.body {
				if e.Kind == "atomic.add" && oneOf(e.Args[0], ctB) && i > ji {
					ci = i
				}
				if e.Kind == "wg.add" && oneOf(e.Args[0], wgB) {
					wi = i
				}
			}
			c.ob(ci > ji && (wi < 0 || ci < wi), "a job is uncounted before it is signed off, so before Wait returns", at, "counter at step %d, WaitGroup at %d", ci, wi)
		})
		pl.rejectedPaths(func(p *Path) {
			w := sumAdds(p.Events, pl.ctrAddr(pl.recv))
			c.ob(w == 0, "a rejected submission is not counted", c.pathAt(pl.fSubmit, p), "net %d", w)
		})
		pl.otherMethods(func(fn *ssa.Function, recv *Term, ps []*Path) {
			for _, p := range ps {
				for _, e := range allEvs(p.Events, "atomic.add", "atomic.store", "atomic.swap", "atomic.cas", "store") {
					c.ob(e.Args[0] != pl.ctrAddr(recv), "only Submit and the job's goroutine change the counter", c.evAt(e), "changed by %s", fn.Name())
				}
			}
		})
		for _, p := range pl.success() {
			for _, e := range p.Events {
				if strings.HasPrefix(e.Kind, "atomic.") && e.Kind != "atomic.load" {
					c.ob(e.Args[0] != pl.cell(pl.ctr, p.Results[0], p), "a new pool counts no job", c.evAt(e), "%s", e.Kind)
				}
			}
		}
		if pl.rel == relPool {
			pl.workerLoop()
		}
	}
}

// ---------------------------------------------------------------- C08

func rC08(c *Check) {
	for _, pl := range c.pools() {
		seen := 0
		pl.forLives(func(l life, at string) {
			// a path that does not look at NonBlocking is one of a NonBlocking submission too
			nb, known := pl.nb(l.p)
			if known && !nb {
				return
			}
			seen++
			for _, e := range l.p.Events {
				c.ob(!blockingOp(e), "a NonBlocking Submit waits for nothing", c.evAt(e), "%s may block", e.Kind)
				if e.Kind == "lock" || e.Kind == "rlock" {
					c.ob(false, "a NonBlocking Submit waits for nothing", c.evAt(e), "takes a lock")
				}
			}
			ji, _ := pl.jobIndex(l)
			for _, e := range l.body[:ji] {
				c.ob(!blockingOp(e), "a NonBlocking job starts without waiting", c.evAt(e), "%s before the job", e.Kind)
			}
			c.ob(l.how != "inline", "a NonBlocking Submit does not run the job itself", at, "inline")
			if l.how == "queue" {
				for _, p := range pl.success() {
					q := p.heapVal(pl.qAddr(p.Results[0]))
					c.ob(q.K == KMakeChan && q.Args[0] == mkInt(0), "a job handed to the workers by NonBlocking is taken by an idle worker at once (unbuffered channel)", c.pathAt(pl.fNew, p), "channel is %s", q)
				}
			}
		})
		c.need(seen > 0, "role: NonBlocking", "%s Submit has NonBlocking paths", pl.rel)
		if pl.rel == relPool {
			pl.workerLoop()
		}
		// the option reaches Submit
		pl.optionChain()
		pl.nbOption()
	}
}

// ---------------------------------------------------------------- C09

func rC09(c *Check) {
	for _, pl := range c.pools() {
		for _, p := range pl.success() {
			e := c.eng(Config{RecordLoads: true})
			ps := c.runWith(e, pl.fLen, []*Term{p.Results[0]}, p.StateOf())
			for _, lp := range ps {
				if lp.Kind != OReturn {
					continue
				}
				c.ob(len(lp.Results) == 1 && lp.Results[0] == pl.newSize, "Len of a new pool is its size", c.pathAt(pl.fLen, lp), "returns %v", lp.Results)
				for _, ev := range lp.Events {
					if ev.Kind != "load" {
						continue
					}
					a := ev.Args[0]
					if a.K != KFieldAddr || a.root() != p.Results[0] {
						continue
					}
					v, _ := a.Ref.(*types.Var)
					if v == nil {
						continue
					}
					for _, s := range c.L.storesTo(v) {
						c.ob(c.L.onlyFrom(s.Parent(), pl.fNew), "what Len reads is set only while the pool is created", c.L.pos(s), "field %s stored in %s", v.Name(), fullName(s.Parent()))
					}
				}
				for _, ev := range lp.Events {
					c.ob(!blockingOp(ev) && ev.Kind != "lock" && !strings.HasPrefix(ev.Kind, "atomic"), "Len reads nothing that changes", c.evAt(ev), "%s", ev.Kind)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C10

func rC10(c *Check) {
	for _, pl := range c.pools() {
		a, ps := c.run(pl.e, pl.fClose)
		ps = c.firstOnly(pl.fClose, ps)
		recv := a[0]
		q := mkLoad(pl.qAddr(recv))
		_, gps := c.run(pl.e, pl.fName)
		nameT := gps[0].Results[0]
		// GetName of Close's receiver
		var nameOf *Term
		if nameT.K == KLoad {
			if r, ok := relPath(nameT.Args[0], mkParam("GetName."+pl.fName.Params[0].Name(), pl.fName.Params[0].Type())); ok {
				nameOf = mkLoad(rebase(recv, pl.st, r))
			}
		}
		c.need(nameOf != nil, "role: name", "%s GetName returns a field", pl.rel)
		for _, p := range ps {
			if p.Kind != OReturn {
				continue
			}
			at := c.pathAt(pl.fClose, p)
			waited, closed, del := false, 0, 0
			for _, e := range p.Events {
				switch {
				case e.Kind == "wg.wait" && e.Args[0] == pl.wgAddr(recv):
					waited = true
				case e.Kind == "close" && e.Args[0] == q:
					closed++
					c.ob(waited, "Close ends the workers only after the accepted jobs returned", c.evAt(e), "before the wait")
				case e.Kind == "mapdel":
					if isRegistry(c, e.Args[0]) {
						del++
						c.ob(waited, "Close unregisters the pool only after the accepted jobs returned", c.evAt(e), "before the wait")
						c.ob(e.Args[1] == nameOf, "Close unregisters its own name", c.evAt(e), "deletes %s", e.Args[1])
					}
				case blockingOp(e):
					c.ob(false, "Close waits for nothing but the jobs", c.evAt(e), "%s", e.Kind)
				case e.Kind == "store" || e.Kind == "atomic.store":
					c.ob(false, "Close does not change the pool", c.evAt(e), "%s %v", e.Kind, e.Args)
				}
			}
			// a pool with the empty name has no entry
			c.ob(del >= 1 || p.Facts.eqStr(nameOf, ""), "Close removes the pool from the registry", at, "%d deletions", del)
			if pl.rel == relPool {
				c.ob(closed == 1, "Close closes the workers' channel once", at, "%d times", closed)
			} else {
				c.ob(closed <= 1, "Close closes the channel at most once", at, "%d times", closed)
			}
		}
		c.lockDiscipline(pl.fClose, ps)
		if pl.rel == relPool {
			pl.workerLoop()
		}
		barrier(c, pl)
		// goroutines started for a job end with it
		pl.forLives(func(l life, at string) {
			if l.how != "go" {
				return
			}
			ji, _ := pl.jobIndex(l)
			for _, e := range l.body[ji+1:] {
				c.ob(!blockingOp(e) || e.Kind == "recv" && e.Args[0] == pl.qOf(), "a job's goroutine ends when the job returned", c.evAt(e), "%s after the job", e.Kind)
			}
		})
		// New registers under the name GetName returns, which never changes
		pl.nameFixed()
		for _, p := range pl.success() {
			for _, g := range evs(p.Events, "go") {
				c.ob(isWorker(g, p.heapVal(pl.qAddr(p.Results[0]))), "every goroutine New starts ends when the pool is closed", c.evAt(g), "goroutine that does not receive jobs")
			}
		}
	}
}

func (f *Fact) eqStr(t *Term, s string) bool {
	v, ok := f.lookup(mkBin("==", t, mkStr(s), nil))
	return ok && v
}

// isRegistry: the term is the registry map (a package variable of the register package).
func isRegistry(c *Check, t *Term) bool {
	if t.K != KLoad || t.Args[0].K != KGlobal {
		return false
	}
	g, ok := t.Args[0].Ref.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == c.L.Mod+"/"+relReg
}

// nameFixed: New registers the pool under its final name and nothing changes the name later.
func (pl *poolType) nameFixed() {
	c := pl.c
	e := c.eng(Config{})
	_ = e
	_, gps := c.run(pl.e, pl.fName)
	nt := gps[0].Results[0]
	c.need(nt.K == KLoad && nt.Args[0].K == KFieldAddr, "role: name", "%s GetName returns a field", pl.rel)
	r, _ := relPath(nt.Args[0], nt.Args[0].root())
	for _, p := range pl.success() {
		final := p.heapVal(rebase(p.Results[0], pl.st, r))
		n := 0
		for _, ev := range allEvs(p.Events, "mapset") {
			if isRegistry(c, ev.Args[0]) {
				n++
				c.ob(ev.Args[1] == final, "a pool is registered under the name it has", c.evAt(ev), "registered as %s, named %s", ev.Args[1], final)
				c.ob(unIface(ev.Args[2]) == p.Results[0], "the pool itself is registered", c.evAt(ev), "registers %s", ev.Args[2])
			}
		}
		c.ob(n == 1 || n == 0 && p.Facts.eqStr(final, ""), "a pool with a name is registered once", c.pathAt(pl.fNew, p), "%d registrations, name %s", n, final)
	}
	v, _ := nt.Args[0].Ref.(*types.Var)
	for _, s := range c.L.storesTo(v) {
		f := s.Parent()
		c.ob(c.L.onlyFrom(f, pl.fNew), "the name of a pool does not change after it was created", c.L.pos(s), "stored in %s", fullName(f))
	}
}

// ---------------------------------------------------------------- C11

func rC11(c *Check) {
	for _, pl := range c.pools() {
		pl.nameFixed()
		// follow the names New tries: from a base name, from base-2, and from base-N
		type visit struct {
			ep int
			v  *Term
		}
		byCell := map[string][]visit{}
		e := c.eng(Config{NoMerge: true, OnStr: func(cell string, ep int, v *Term, st *State) {
			if ep > 1 && c.found(st) {
				return // no name is tried any more
			}
			for _, x := range byCell[cell] {
				if x.ep == ep && x.v == v {
					return
				}
			}
			byCell[cell] = append(byCell[cell], visit{ep, v})
		}})
		args := e.params(pl.fNew)
		base := mkParam("base:name", types.Typ[types.String])
		args[0] = base
		ps := c.runWith(e, pl.fNew, args, nil)
		// the keys tried on each path
		n := 0
		for _, p := range ps {
			at := c.pathAt(pl.fNew, p)
			if p.Kind == OPanic {
				c.ob(false, "creating a pool does not panic", at, "panics after trying %s", keysTried(c, p))
				continue
			}
			if p.Kind != OReturn {
				continue
			}
			ok, k := isErrNil(p, p.Results[1])
			if !k || !ok {
				continue
			}
			n++
			keys := keysTriedT(c, p)
			if p.Facts.eqStr(base, "") {
				c.ob(len(allEvs(p.Events, "mapset")) == 0, "a pool with the empty name is not registered", at, "registered")
				c.ob(len(keys) == 0 || true, "", at, "")
				final := p.heapVal(pl.nameAddr(p.Results[0]))
				c.ob(final == base || final == mkStr(""), "a pool with the empty name keeps it", at, "named %s", final)
				continue
			}
			final := p.heapVal(pl.nameAddr(p.Results[0]))
			num, ok2 := nameNumber(final, base)
			c.ob(ok2, "the name of a pool is its base name, or base name, hyphen and number", at, "named %s", final)
			_ = num
			pl.checkInsert(p, final)
		}
		c.need(n > 0, "role: New", "%s New succeeds on abstract names", pl.rel)
		// every retry moves on to a higher number
		tried := 0
		for _, cell := range sortedKeys(byCell) {
			vs := byCell[cell]
			var at1, at2, at3, at4 []*Term
			for _, x := range vs {
				switch x.ep {
				case 1:
					at1 = append(at1, x.v)
				case 2:
					at2 = append(at2, x.v)
				case 3:
					at3 = append(at3, x.v)
				case 4:
					at4 = append(at4, x.v)
				}
			}
			if len(at4) == 0 {
				continue
			}
			tried++
			at := c.at(pl.fNew)
			for _, a := range at2 {
				x, ok := nameNumber(a, base)
				c.ob(ok && x != nil, "the second name tried is base-number", at, "%s", a)
				for _, b := range at3 {
					y, ok2 := nameNumber(b, base)
					c.ob(ok2 && y != nil && less(x, y), "each name tried has a higher number than the one before", at, "%s then %s", a, b)
				}
			}
			for _, b := range at3 {
				g := genNumber(b)
				gn, _ := nameNumber(g, base)
				for _, d := range at4 {
					dn, ok := nameNumber(d, base)
					c.ob(ok && dn != nil && less(gn, dn), "each name tried has a higher number than the one before", at, "%s then %s", g, d)
				}
			}
			_ = at1
		}
		c.ob(tried > 0, "New moves on to another name when a name is taken", c.at(pl.fNew), "%d name variables followed", tried)
		// the only reason to try again is that the name is taken
		for _, p := range ps {
			var prev *Event
			for _, ev := range p.Events {
				if ev.Kind != "mapget" || !isRegistry(c, ev.Args[0]) {
					continue
				}
				if prev != nil {
					taken := false
					if len(prev.Res) == 2 {
						v, k := p.Facts.Eval(prev.Res[1])
						taken = v && k
					} else {
						taken = p.Facts.nonNil(prev.Res[0])
					}
					c.ob(taken, "New tries another name only if the name is taken", c.evAt(ev), "tries again though %s was not found taken", prev.Args[1])
				}
				prev = ev
			}
			c.lockDiscipline(pl.fNew, []*Path{p})
		}
	}
	registryLocks(c)
	// a name is freed only by closing its own pool
	pls := c.pools()
	for _, pl := range pls {
		pl.otherMethods(func(fn *ssa.Function, recv *Term, ps []*Path) {
			for _, p := range ps {
				for _, e := range allEvs(p.Events, "mapdel", "mapset") {
					if isRegistry(c, e.Args[0]) {
						c.ob(e.Kind == "mapdel" && fn == pl.fClose, "only Close frees a name", c.evAt(e), "%s in %s", e.Kind, fn.Name())
						c.ob(e.Args[1] == mkLoad(pl.nameAddr(recv)), "Close frees its own name only", c.evAt(e), "frees %s", e.Args[1])
					}
				}
			}
		})
	}
}

// found: the name looked up last was not taken, or there was none to look up.
func (c *Check) found(st *State) bool {
	for t := st.trace; t != nil; t = t.prev {
		if ev := t.ev; ev.Kind == "mapget" && isRegistry(c, ev.Args[0]) {
			if len(ev.Res) == 2 {
				v, k := st.facts.Eval(ev.Res[1])
				return k && !v
			}
			return st.facts.isNil(ev.Res[0])
		}
	}
	return true
}

func (pl *poolType) nameAddr(base *Term) *Term {
	_, gps := pl.c.run(pl.e, pl.fName)
	nt := gps[0].Results[0]
	pl.c.need(nt.K == KLoad && nt.Args[0].K == KFieldAddr, "role: name", "%s GetName returns a field", pl.rel)
	r, _ := relPath(nt.Args[0], nt.Args[0].root())
	return rebase(base, pl.st, r)
}

// nameNumber splits base-number; the number is nil for the base itself.
func nameNumber(t, base *Term) (*Term, bool) {
	if t == base {
		return nil, true
	}
	ps := pieces(t)
	if len(ps) < 2 || ps[0] != base {
		return nil, false
	}
	if len(ps) == 2 {
		s, ok := ps[1].strConst()
		if !ok || len(s) < 2 || s[0] != '-' {
			return nil, false
		}
		var v int64
		for _, r := range s[1:] {
			if r < '0' || r > '9' {
				return nil, false
			}
			v = v*10 + int64(r-'0')
		}
		return mkInt(v), true
	}
	if len(ps) == 3 {
		s, ok := ps[1].strConst()
		if ok && s == "-" && isNum(ps[2]) {
			return ps[2].Args[0], true
		}
	}
	return nil, false
}

// less: x < y for numbers of the form const or symbol+const.
func less(x, y *Term) bool {
	if x == nil {
		return y != nil
	}
	if y == nil {
		return false
	}
	a, ok1 := x.intConst()
	b, ok2 := y.intConst()
	if ok1 && ok2 {
		return a < b
	}
	xb, xo := stripAdd(x)
	yb, yo := stripAdd(y)
	if xb == yb {
		return xo < yo
	}
	// successive values of a counting loop variable
	if xb.K == KLoopVar && yb.K == KLoopVar && xb.Op == yb.Op && xb.Idx < yb.Idx {
		return xo <= yo
	}
	return false
}

func keysTriedT(c *Check, p *Path) []*Term {
	var ks []*Term
	for _, e := range p.Events {
		if e.Kind == "mapget" && isRegistry(c, e.Args[0]) {
			ks = append(ks, e.Args[1])
		}
	}
	return ks
}

func keysTried(c *Check, p *Path) string {
	var s []string
	for _, k := range keysTriedT(c, p) {
		s = append(s, k.String())
	}
	return strings.Join(s, ", ")
}

// checkInsert: the name is looked up and inserted in one critical section.
func (pl *poolType) checkInsert(p *Path, final *Term) {
	c := pl.c
	var sets []*Event
	for _, e := range p.Events {
		if e.Kind == "mapset" && isRegistry(c, e.Args[0]) {
			sets = append(sets, e)
		}
	}
	if !c.ob(len(sets) == 1, "a pool with a name is registered once", c.pathAt(pl.fNew, p), "%d registrations", len(sets)) {
		return
	}
	set := sets[0]
	checked := false
	var mu *Term
	held := map[*Term]bool{}
	for _, e := range p.Events {
		switch e.Kind {
		case "lock":
			held[e.Args[0]] = true
		case "unlock":
			delete(held, e.Args[0])
			checked = false
		case "mapget":
			if isRegistry(c, e.Args[0]) && e.Args[1] == set.Args[1] && len(held) > 0 {
				if len(e.Res) == 2 {
					if v, k := p.Facts.Eval(e.Res[1]); k && !v {
						checked = true
					}
				} else if p.Facts.isNil(e.Res[0]) {
					checked = true
				}
			}
		}
		if e == set {
			break
		}
	}
	_ = mu
	c.ob(checked, "a name is checked and taken in one critical section", c.evAt(set), "the name was not found free under the lock it is inserted under")
}

// ---------------------------------------------------------------- C12

// registryLocks: every access to the registry is under its lock.
func registryLocks(c *Check) {
	pkg := c.L.pkg(relReg)
	c.need(pkg != nil, "anchor", "package %s exists", relReg)
	// the registry: the package variables of map type
	var maps []*ssa.Global
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := deref(g.Type()).Underlying().(*types.Map); ok {
				maps = append(maps, g)
			}
		}
	}
	c.need(len(maps) == 1, "role: registry", "package register has one map variable (%d)", len(maps))
	reg := maps[0]
	covered := map[*ssa.Function]bool{}
	var mu *Term
	accesses := 0
	for _, fn := range c.L.exported(relReg) {
		e := c.eng(Config{RecordLoads: true})
		_, ps := c.run(e, fn)
		for f := range e.Funcs {
			covered[f] = true
		}
		check := func(es []*Event) {
			locksAt(es, func(ev *Event, held map[*Term]string) {
				write, acc := false, false
				switch ev.Kind {
				case "mapget", "next":
					acc = isRegistry(c, ev.Args[0])
				case "mapset", "mapdel", "clear":
					acc = isRegistry(c, ev.Args[0])
					write = true
				case "load":
					acc = ev.Args[0].K == KGlobal && ev.Args[0].Ref == any(reg)
				case "store":
					acc = ev.Args[0].K == KGlobal && ev.Args[0].Ref == any(reg)
					write = true
				case "call":
					for _, a := range ev.Args {
						if isRegistry(c, a) {
							acc = true
						}
					}
				}
				if !acc {
					return
				}
				accesses++
				ok := false
				for m, mode := range held {
					if m.K != KGlobal {
						continue
					}
					if mode == "w" || !write {
						if mu == nil {
							mu = m
						}
						ok = ok || m == mu
					}
				}
				c.ob(ok, "every access to the registry is under its lock, changes exclusively", c.evAt(ev), "%s of the registry with %d locks held", ev.Kind, len(held))
			})
		}
		for _, p := range ps {
			check(p.Events)
			walkEvents(p.Events, func(ev *Event) {
				for _, b := range ev.Bodies {
					check(b.Events)
				}
			})
		}
		c.lockDiscipline(fn, ps)
	}
	c.need(accesses > 0, "role: registry", "the registry is accessed (%d)", accesses)
	// nothing else touches the variable
	for _, f := range c.L.All {
		if f.Name() == "init" && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if o != nil && *o == ssa.Value(reg) {
						okf := covered[f] || len(c.L.callers(f)) == 0 && f.Object() != nil && !f.Object().Exported()
						c.ob(okf, "the registry is used only by analysed functions", c.L.pos(i), "used in %s", fullName(f))
					}
				}
			}
		}
	}
}

func rC12(c *Check) {
	registryLocks(c)
	// the enumeration
	var enum *ssa.Function
	for _, f := range c.L.exported(relReg) {
		rs := f.Signature.Results()
		if f.Signature.Params().Len() == 0 && rs.Len() == 1 && isChan(rs.At(0).Type()) {
			enum = f
		}
	}
	c.need(enum != nil, "role: enumeration", "package register has a function returning a channel of pools")
	e := c.eng(Config{})
	_, ps := c.run(e, enum)
	iters := 0
	for _, p := range ps {
		if p.Kind != OReturn {
			continue
		}
		at := c.pathAt(enum, p)
		ch := p.Results[0]
		if !c.ob(ch.K == KMakeChan, "the enumeration returns a channel of its own", at, "returns %s", ch) {
			continue
		}
		// the goroutines it starts, each with its alternative paths
		groups := [][]*Path{{p}}
		walkEvents(p.Events, func(ev *Event) {
			if ev.Kind == "go" {
				groups = append(groups, ev.Bodies)
			}
		})
		sending := 0
		for gi, g := range groups {
			uses := false
			for _, q := range g {
				if len(onChan(q.Events, "send", ch)) > 0 || len(onChan(q.Events, "close", ch)) > 0 {
					uses = true
				}
			}
			if !uses {
				continue
			}
			sending++
			for _, q := range g {
				if q.Kind != OReturn {
					c.ob(false, "the enumeration ends", at, "code that does not return")
					continue
				}
				closed := 0
				locksAt(q.Events, func(ev *Event, held map[*Term]string) {
					switch {
					case ev.Kind == "send" && ev.Args[0] == ch:
						c.ob(closed == 0, "nothing is sent after the channel was closed", c.evAt(ev), "sent after close")
						if len(held) > 0 || gi == 0 {
							cp := ch.Args[0]
							fits := cp.K == KLen && (isRegistry(c, cp.Args[0]) || c.registrySlice(p, cp.Args[0]))
							if fits && isRegistry(c, cp.Args[0]) {
								n := len(evs(p.Events, "lock", "rlock"))
								if gi > 0 {
									n += len(evs(q.Events, "lock", "rlock"))
								}
								c.ob(n == 1, "the pools are counted and delivered under one hold of the lock", c.evAt(ev), "%d holds", n)
							}
							c.ob(fits, "delivering does not wait for the consumer, unless in a goroutine without the lock", c.evAt(ev), "send to a channel of capacity %s with %d locks held", cp, len(held))
						}
					case ev.Kind == "close" && ev.Args[0] == ch:
						closed++
					case blockingOp(ev):
						c.ob(len(held) == 0, "the registry lock is not held while waiting", c.evAt(ev), "%s with the lock held", ev.Kind)
					}
				})
				c.ob(closed == 1, "the enumeration ends: its channel is closed once", at, "closed %d times", closed)
				iters += c.enumerated(enum, p, q, ch)
			}
		}
		c.ob(sending == 1, "one goroutine delivers and closes", at, "%d", sending)
	}
	c.ob(iters > 0, "the enumeration iterates over the registry", c.at(enum), "%d iterations analysed", iters)
	for _, n := range []string{"Register", "Unregister"} {
		f := c.fn(relReg, n)
		_, ps := c.run(e, f)
		for _, p := range ps {
			for _, ev := range allEvs(p.Events, "send", "recv", "wg.wait", "sleep") {
				c.ob(!blockingOp(ev), "registering does not wait for anything but the lock", c.evAt(ev), "%s", ev.Kind)
			}
		}
	}
}

// registrySlice: v collects every pool of the registry.
func (c *Check) registrySlice(p *Path, v *Term) bool {
	elem, _ := p.collected(v)
	if elem == nil {
		return false
	}
	ok := false
	walkEvents(p.Events, func(e *Event) {
		if e.Kind == "next" && isRegistry(c, e.Args[0]) && len(e.Res) == 3 && e.Res[2] == elem {
			ok = true
		}
	})
	return ok
}

// collected: v was built by a loop that appends one element in each iteration to a slice that was empty.
func (p *Path) collected(v *Term) (elem *Term, key string) {
	if v.K == KAppend && len(v.Args) == 2 && v.Args[0].K == KLoopVar {
		elem, v = v.Args[1], v.Args[0]
	}
	if v.K != KLoopVar {
		return nil, ""
	}
	l := p.LV(v)
	if l == nil || len(l.Init) != 1 || len(l.Back) != 1 {
		return nil, ""
	}
	i := l.Init[0]
	if !(i == tNil || i.K == KList && len(i.Args) == 0 || i.K == KMakeSlice && i.Args[0] == mkInt(0)) {
		return nil, ""
	}
	b := l.Back[0]
	if b.K != KAppend || len(b.Args) != 2 || !(b.Args[0].K == KLoopVar && b.Args[0].Op == v.Op) {
		return nil, ""
	}
	return b.Args[1], v.Op[:strings.LastIndex(v.Op, "/")]
}

// enumerated: each pool of the registry is sent once. p is the path of the function, q that of the code that sends.
func (c *Check) enumerated(fn *ssa.Function, p, q *Path, ch *Term) int {
	at := c.pathAt(fn, p)
	es := append([]*Event(nil), p.Events...)
	if q != p {
		es = append(es, q.Events...)
	}
	facts := []*Fact{p.Facts, q.Facts}
	more := func(e *Event) bool { // the iteration has a pool
		for _, f := range facts {
			if v, k := f.Eval(e.Res[0]); k {
				return v
			}
		}
		return true
	}
	n := 0
	loops := map[string]bool{}
	for i, e := range es {
		if e.Kind == "next" && isRegistry(c, e.Args[0]) {
			for _, k := range loopsAround(es, i)[:1] {
				loops[k] = true
			}
		}
	}
	direct, indirect := 0, 0
	for _, key := range sortedKeys(loops) {
		iters := append(segments(es, key), tail(es, key))
		ended := false
		for _, it := range iters {
			var cur *Event
			sends := 0
			for _, e := range it {
				switch {
				case e.Kind == "next" && isRegistry(c, e.Args[0]):
					if more(e) {
						cur = e
					} else {
						ended = true
					}
				case e.Kind == "send" && e.Args[0] == ch:
					sends++
					c.ob(cur != nil && e.Args[1] == cur.Res[2], "the pools themselves are delivered", c.evAt(e), "sends %s", e.Args[1])
				}
			}
			if cur == nil {
				continue
			}
			n++
			direct += sends
			if sends == 0 {
				// the pool is kept in a slice
				kept := 0
				for _, e := range es {
					if e.Run == nil || e.Name != key || e.Kind != "loopback" {
						continue
					}
					for _, k := range sortedKeys(e.Run.LV) {
						for _, b := range e.Run.LV[k].Back {
							if b.K == KAppend && len(b.Args) == 2 && b.Args[1] == cur.Res[2] {
								kept++
							}
						}
					}
					break
				}
				indirect++
				c.ob(kept == 1, "each registered pool is delivered once", c.evAt(cur), "neither sent nor kept in the iteration, or more than once (%d)", kept)
				continue
			}
			c.ob(sends == 1, "each registered pool is delivered once", c.evAt(cur), "%d deliveries in one iteration", sends)
		}
		c.ob(ended, "the enumeration visits every pool", at, "the loop over the registry is left early")
	}
	c.ob(len(loops) == 1, "the enumeration visits the registry once", at, "%d loops over the registry", len(loops))
	// sends from the slice
	isSend := func(e *Event) bool { return e.Kind == "send" && e.Args[0] == ch }
	fromSlice := false
	for i, e := range es {
		if !isSend(e) {
			continue
		}
		in := loopsAround(es, i)
		if len(in) > 0 && loops[in[0]] {
			continue
		}
		v := e.Args[1]
		if !c.ob(v.K == KLoad && v.Args[0].K == KIndexAddr && c.registrySlice(p, v.Args[0].Args[0]), "the pools themselves are delivered", c.evAt(e), "sends %s", v) {
			continue
		}
		fromSlice = true
		src := v.Args[0].Args[0]
		qq := q
		ok, why := qq.covers(es, isSend, v.Args[0].Args[1], mkLen(src))
		c.ob(ok, "every pool kept is delivered", c.evAt(e), "%s", orOK(why))
	}
	c.ob(direct == 0 || !fromSlice, "each registered pool is delivered once", at, "delivered both directly and from a slice")
	_ = indirect
	return n
}

// ---------------------------------------------------------------- C13

func rC13(c *Check) {
	for _, pl := range c.pools() {
		succ := 0
		news := pl.news
		match := func(p *Path) (bool, bool) { return nameMatch(c, p, pl.newName) }
		for _, p := range pl.success() {
			if _, known := match(p); !known {
				// the name may be looked at character by character
				_, news = c.run(c.eng(Config{Cut: true, NoMerge: true}), pl.fNew)
				passes := runesPass(news, pl.newName)
				match = func(p *Path) (bool, bool) {
					if m, k := nameMatch(c, p, pl.newName); k {
						return m, k
					}
					return runeMatch(p, pl.newName, passes)
				}
				break
			}
		}
		for _, p := range news {
			if p.Kind == OPanic || p.Kind == OIter {
				continue // C11
			}
			if p.Kind != OReturn || len(p.Results) != 2 {
				c.ob(false, "New returns", c.pathAt(pl.fNew, p), "ends otherwise")
				continue
			}
			at := c.pathAt(pl.fNew, p)
			n, k := isErrNil(p, p.Results[1])
			c.ob(k, "New's error is known to be nil or not on each path", at, "returns %s", p.Results[1])
			lo, hi := p.Facts.bounds(pl.newSize)
			m, mk := match(p)
			if k && n {
				succ++
				c.ob(lo >= 1, "New rejects every size below 1", at, "accepts sizes from %d", lo)
				c.ob(mk && !m, "New rejects every invalid name", at, "accepts without the name being checked")
				c.ob(p.Facts.nonNil(p.Results[0]), "New returns a usable pool", at, "returns %s", p.Results[0])
				continue
			}
			c.ob(hi < 1 || mk && m, "New rejects only invalid sizes and names", at, "rejects sizes %d..%d, invalid name: %v", lo, hi, mk && m)
			r0 := p.Results[0]
			c.ob(r0 == tNil || p.Facts.isNil(r0), "New returns a nil pool with an error", at, "returns %s", r0)
			for _, e := range allEvs(p.Events, "go", "mapset", "mapdel", "store", "send") {
				c.ob(false, "New has no effect if it fails", c.evAt(e), "%s before failing", e.Kind)
			}
		}
		c.need(succ > 0, "role: New", "%s New can succeed", pl.rel)
		pl.nameFixed()
	}
}

// forbiddenSet: the characters are those names may not have.
func (c *Check) forbiddenSet(t *Term) bool {
	set, ok := t.strConst()
	for _, r := range set {
		ok = ok && forbiddenRune(r)
	}
	for _, r := range "0123456789- \t\n\f\r" {
		ok = ok && strings.ContainsRune(set, r)
	}
	c.ob(ok, "the characters refused in names are digits, hyphen and white space", c.at(c.fn(relReg, "ValidateBaseName")), "set %q", set)
	return ok
}

// evalRune evaluates a term in which val stands for the character r.
func evalRune(t, val *Term, r int64) (n int64, ok bool) {
	if t == val {
		return r, true
	}
	if k, ok := t.intConst(); ok {
		return k, true
	}
	if t.K != KBin || len(t.Args) != 2 {
		return 0, false
	}
	a, ok1 := evalRune(t.Args[0], val, r)
	b, ok2 := evalRune(t.Args[1], val, r)
	if !ok1 || !ok2 {
		return 0, false
	}
	is := func(v bool) (int64, bool) {
		if v {
			return 1, true
		}
		return 0, true
	}
	switch t.Op {
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "<":
		return is(a < b)
	case "==":
		return is(a == b)
	}
	return 0, false
}

// runesOf: whether all and whether some of the characters of a name that lead along the path are refused in names.
func runesOf(p *Path, val *Term) (all, some bool) {
	all = true
	for r := int64(0); r <= 0x10ffff; r++ {
		if r == 0x300 {
			r = 0x10fff0 // the classes in question are of characters below
		}
		sat := true
		for f := p.Facts; f != nil && sat; f = f.prev {
			if n, ok := evalRune(f.t, val, r); ok && f.t.contains(val) && (n != 0) != f.v {
				sat = false
			}
		}
		if sat {
			all = all && forbiddenRune(rune(r))
			some = some || forbiddenRune(rune(r)) && r != '\v' // not white space to regexp
		}
	}
	return all, some
}

// runesPass: no character that names may not have passes the loop over the characters of the name.
func runesPass(ps []*Path, name *Term) bool {
	n := 0
	for _, p := range ps {
		if p.Kind != OIter {
			continue
		}
		for _, e := range p.Events {
			if e.Kind == "next" && e.Args[0] == name {
				if v, k := p.Facts.Eval(e.Res[0]); k && !v {
					continue // behind the loop
				}
				n++
				if _, some := runesOf(p, e.Res[2]); some {
					return false
				}
			}
		}
	}
	return n > 0
}

// runeMatch is nameMatch for a loop over the characters of the name.
func runeMatch(p *Path, name *Term, passes bool) (bool, bool) {
	for _, e := range p.Events {
		if e.Kind != "next" || e.Args[0] != name {
			continue
		}
		v, k := p.Facts.Eval(e.Res[0])
		if k && !v {
			return false, passes
		}
		all, _ := runesOf(p, e.Res[2])
		return true, k && all
	}
	return false, false
}

// nameMatch: whether the path knows the name to be invalid (true) or valid (false).
func nameMatch(c *Check, p *Path, name *Term) (bool, bool) {
	for f := p.Facts; f != nil; f = f.prev {
		t, v := f.t, f.v
		for t.K == KUn && t.Op == "!" {
			t, v = t.Args[0], !v
		}
		if t.K == KPure && t.Op == "match" && t.Args[1] == name {
			pat, ok := c.L.regexpOf(t.Args[0])
			exact := ok && charClass(pat) && subsetOfForbidden(pat) && supersetOfForbidden(pat)
			c.ob(exact, "the characters refused in names are digits, hyphen and white space", c.at(c.fn(relReg, "ValidateBaseName")), "pattern %q", pat)
			return v, exact
		}
		if t.K == KPure && t.Op == "containsAny" && t.Args[0] == name {
			return v, c.forbiddenSet(t.Args[1])
		}
		if t.K != KBin {
			continue
		}
		for _, x := range t.Args {
			ix, _ := stripAdd(x)
			if ix.K != KPure || ix.Op != "indexAny" || ix.Args[0] != name {
				continue
			}
			lo, hi := p.Facts.bounds(ix)
			if lo >= 0 || hi < 0 {
				return lo >= 0, c.forbiddenSet(ix.Args[1])
			}
		}
	}
	return false, false
}

// ---------------------------------------------------------------- C14

func rC14(c *Check) {
	t := c.typ(relGor, "Errors")
	// the recorded errors: the field of type []error
	fs := fieldsOf(t, func(v *types.Var) bool {
		s, ok := v.Type().Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), types.Universe.Lookup("error").Type())
	})
	c.need(len(fs) == 1, "role: recorded errors", "Errors has one field of type []error (%d)", len(fs))
	type res struct {
		f    *ssa.Function
		recv *Term
		args []*Term
		ps   []*Path
	}
	all := map[string]res{}
	for _, f := range c.L.exported(relGor) {
		if f.Signature.Recv() == nil || deref(f.Signature.Recv().Type()) != types.Type(t) {
			continue
		}
		e := c.eng(Config{RecordLoads: true})
		a, ps := c.run(e, f)
		all[f.Name()] = res{f, a[0], a, ps}
		var mu *Term
		n := 0
		for _, p := range ps {
			locksAt(p.Events, func(ev *Event, held map[*Term]string) {
				if (ev.Kind != "load" && ev.Kind != "store") || ev.Args[0].root() != a[0] {
					return
				}
				fa := ev.Args[0]
				if fa.K == KFieldAddr && isOpaqueSync(fa.T) {
					return
				}
				n++
				ok := false
				for m, mode := range held {
					if m.root() == a[0] && (mode == "w" || ev.Kind == "load") {
						if mu == nil {
							mu = m
						}
						ok = ok || m == mu
					}
				}
				c.ob(ok, "the recorded errors are accessed only under the lock", c.evAt(ev), "%s with %d locks held", ev.Kind, len(held))
				if ev.Kind == "store" {
					c.ob(f.Name() == "Record", "only Record changes the recorded errors", c.evAt(ev), "changed by %s", f.Name())
				}
			})
			for _, ev := range p.Events {
				if ev.Kind == "go" || ev.Kind == "invoke" {
					c.ob(false, "the collector calls nothing while locked", c.evAt(ev), "%s", ev.Kind)
				}
			}
		}
		c.ob(n > 0, "method accesses the recorded errors", c.at(f), "%d accesses", n)
		c.lockDiscipline(f, ps)
		// the same lock everywhere
		if mu != nil {
			r, _ := relPath(mu, a[0])
			key := fmt.Sprint(r)
			if c.muKey("") == "" {
				c.muKey(key)
			}
			c.ob(c.muKey("") == key, "all methods use the same lock", c.at(f), "field path %s", key)
		}
	}
	for _, n := range []string{"Record", "Error", "Errors"} {
		c.need(all[n].f != nil, "anchor", "Errors.%s exists", n)
	}
	r := all["Record"]
	ea := mkFieldAddr(r.recv, fs[0], t)
	for _, p := range r.ps {
		if p.Kind != OReturn {
			continue
		}
		v := p.heapVal(ea)
		ok := v.K == KAppend && len(v.Args) == 2 && v.Args[0] == mkLoad(ea) && v.Args[1] == r.args[1]
		c.ob(ok || p.Facts.isNil(r.args[1]), "Record appends the error", c.pathAt(r.f, p), "the field becomes %s", v)
	}
	g := all["Errors"]
	ga := mkLoad(mkFieldAddr(g.recv, fs[0], t))
	for _, p := range g.ps {
		if p.Kind != OReturn {
			continue
		}
		v := p.Results[0]
		fresh := v.K == KAppend && len(v.Args) == 2 && v.Args[0] == tNil && v.Args[1] == mkSpread(ga)
		if v.K == KMakeSlice && v.Args[0] == mkLen(ga) {
			for _, e := range evs(p.Events, "copy") {
				if e.Args[0] == v && e.Args[1] == ga {
					fresh = true
				}
			}
		}
		if lo, hi := p.Facts.bounds(mkLen(ga)); lo <= hi && hi == 0 && (v == tNil || v.K == KList && len(v.Args) == 0) {
			fresh = true
		}
		if !fresh {
			fresh = c.copiedByLoop(p, v, ga) || c.filledByLoop(g.f, p, v, ga)
		}
		c.ob(fresh, "Errors returns a fresh copy of all recorded errors in order", c.pathAt(g.f, p), "returns %s", v)
	}
	f := all["Error"]
	fa := mkLoad(mkFieldAddr(f.recv, fs[0], t))
	some := 0
	for _, p := range f.ps {
		if p.Kind != OReturn {
			continue
		}
		v := p.Results[0]
		lo, hi := p.Facts.bounds(mkLen(fa))
		first := v == mkLoad(in.mk(Term{K: KIndexAddr, Args: []*Term{fa, mkInt(0)}, T: types.Universe.Lookup("error").Type()}, ""))
		if first {
			some++
			c.ob(lo >= 1, "Error returns the first error only if there is one", c.pathAt(f.f, p), "length from %d", lo)
		} else {
			c.ob(v == tNil && hi == 0, "Error returns the first error, or nil if there is none", c.pathAt(f.f, p), "returns %s with %d..%d errors", v, lo, hi)
		}
	}
	c.ob(some > 0, "Error returns the first error", c.at(f.f), "%d paths", some)
	// nobody else writes the field
	for _, s := range c.L.storesTo(fieldVar(t, fs[0])) {
		c.ob(c.L.onlyFrom(s.Parent(), r.f), "only Record changes the recorded errors", c.L.pos(s), "stored in %s", fullName(s.Parent()))
	}
}

// copiedByLoop: v is built by appending every element of src in order.
func (c *Check) copiedByLoop(p *Path, v, src *Term) bool {
	x, key := p.collected(v)
	if x == nil || x.K != KLoad || x.Args[0].K != KIndexAddr || x.Args[0].Args[0] != src {
		return false
	}
	idx := x.Args[0].Args[1]
	b, off := stripAdd(idx)
	l := p.LV(b)
	t := p.trip(key)
	if t == nil || l == nil || len(l.Init) != 1 || len(l.Back) != 1 {
		return false
	}
	if v.K == KAppend {
		t = mkBin("+", t, mkInt(1), types.Typ[types.Int])
	}
	y, s := stripAdd(l.Back[0])
	return t == mkLen(src) && y.K == KLoopVar && y.Op == b.Op && s == 1 && mkBin("+", l.Init[0], mkInt(off), types.Typ[types.Int]) == mkInt(0)
}

// filledByLoop: v is made as long as src and a loop over all indexes copies the elements.
func (c *Check) filledByLoop(f *ssa.Function, p *Path, v, src *Term) bool {
	if v.K != KMakeSlice || v.Args[0] != mkLen(src) || v.Args[1] != mkLen(src) {
		return false
	}
	_, ps := c.run(c.eng(Config{Cut: true}), f)
	key, n := "", 0
	elem := func(a, of *Term) *Term { // the index of the element of that list
		if a.K == KIndexAddr && a.Args[0] == of {
			return a.Args[1]
		}
		return nil
	}
	for _, q := range ps {
		if q.Kind != OIter {
			continue
		}
		cut := q.Events[len(q.Events)-1]
		if cut.Kind != "cut" {
			return false
		}
		m := 0
		for a, x := range q.Heap {
			idx := elem(a, v)
			if idx == nil {
				continue
			}
			for i := 0; i+1 < len(cut.Args); i += 2 {
				if y := cut.Args[i]; x.K == KLoopVar && y.K == KLoopVar && y.Op == x.Op {
					x = cut.Args[i+1]
					break
				}
			}
			b, off := stripAdd(idx)
			if b.K != KLoopVar && (x.K == KUnknown || x.K == KLoopVar) {
				continue // not written in this iteration
			}
			if x.K != KLoad || elem(x.Args[0], src) != idx || key != "" && key != cut.Name {
				return false
			}
			l := q.LV(b)
			if b.K != KLoopVar || !strings.HasPrefix(b.Op, cut.Name+"/") || l == nil || len(l.Init) != 1 {
				return false
			}
			if o, ok := l.Init[0].intConst(); !ok || o+off != 0 {
				return false
			}
			for i := 0; i+1 < len(cut.Args); i += 2 {
				if y, s := stripAdd(cut.Args[i+1]); cut.Args[i].K == KLoopVar && cut.Args[i].Op == b.Op && (y.K != KLoopVar || y.Op != b.Op || s != 1) {
					return false
				}
			}
			key = cut.Name
			m++
			n++
		}
		if m != 1 {
			return false
		}
	}
	if n == 0 {
		return false
	}
	for _, q := range ps {
		if q.Kind != OReturn {
			continue
		}
		// what was written after the last iteration that is gone back from
		last := int64(0)
		for a, x := range q.Heap {
			idx := elem(a, v)
			if idx == nil || x.K == KUnknown || x.K == KLoopVar {
				continue
			}
			if b, _ := stripAdd(idx); x.K != KLoad || elem(x.Args[0], src) != idx || b.K != KLoopVar || !strings.HasPrefix(b.Op, key+"/") {
				return false
			}
			last++
		}
		if t := q.trip(key); t == nil || last > 1 || mkBin("+", t, mkInt(last), types.Typ[types.Int]) != mkLen(src) {
			if _, hi := q.Facts.bounds(mkLen(src)); hi > 0 {
				return false
			}
		}
	}
	return true
}

func (c *Check) muKey(s string) string {
	if s != "" {
		c.Notes = append(c.Notes, "mu="+s)
	}
	for _, n := range c.Notes {
		if strings.HasPrefix(n, "mu=") {
			return n[3:]
		}
	}
	return ""
}
