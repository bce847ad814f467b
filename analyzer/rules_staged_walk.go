package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The worker walk follows one request through the paths of a worker: which values are the request's fields now, which
// stage is to run next, and what has been done since the last stage. At loop heads it keeps what holds on every entry
// and is restored by every iteration (greatest fixpoint over the candidates).

var tStart = mkConst("start", nil)

type tset map[*Term]bool

func (t tset) clone() tset {
	n := tset{}
	for k := range t {
		n[k] = true
	}
	return n
}

// position of one request.
type pos struct {
	on    bool
	recv  *Event
	f     []tset // what the request's fields are
	stage tset   // what runs next
	flag  map[string]bool
	sent  int
	cause *Term // the cancellation seen
	keys  tset  // names of the stage
	put   bool  // what was visited was given away
}

func (c *pos) clone() *pos {
	n := *c
	n.f = make([]tset, len(c.f))
	for i := range c.f {
		n.f[i] = c.f[i].clone()
	}
	n.stage = c.stage.clone()
	n.keys = c.keys.clone()
	n.flag = map[string]bool{}
	for k, v := range c.flag {
		n.flag[k] = v
	}
	return &n
}

const (
	flErr   = "no stage or pre-processor set Err"
	flNext  = "there is a next stage"
	flClear = "Next was cleared"
	flPps   = "all pre-processors were called"
	flCtx   = "the Context was looked at"
	flRan   = "a stage or pre-processor was called"
	flSeen  = "the stage was checked and noted"
)

type head struct {
	pos   *pos
	cands map[string]bool
	done  map[*Term]bool // loop variables that differ from these initial values once the request was passed on
}

type walker struct {
	s    *staged
	bad  map[string]bool
	emit bool
	p    *Path // of the worker
	at   string
	ppl  map[string]string // pre-processor loops: "" or what is wrong
	d    *dagInfo

	lists map[*Term]string
}

// walkWorkers checks all workers; rules not about the current property are not recorded.
func (s *staged) walkWorkers() { s.walkWith(nil) }

func (s *staged) walkWith(d *dagInfo) *walker {
	w := &walker{s: s, bad: map[string]bool{}, ppl: map[string]string{}, d: d, lists: map[*Term]string{}}
	bodies := func(f func(g *Event, b *Path)) {
		for _, g := range s.workers {
			for _, b := range g.Bodies {
				f(g, b)
			}
		}
	}
	for {
		n := len(w.bad)
		bodies(func(g *Event, b *Path) { w.walk(g, b) })
		if len(w.bad) == n {
			break
		}
	}
	w.emit = true
	n := 0
	bodies(func(g *Event, b *Path) { w.walk(g, b); n++ })
	s.c.need(n > 0, "role: workers", "workers have paths")
	return w
}

func (w *walker) ob(props string, ok bool, rule, f string, args ...any) {
	if !w.emit || !strings.Contains(props, w.s.c.Prop) {
		return
	}
	w.s.c.ob(ok, rule, w.at, f, args...)
}

func (w *walker) same(a, b *Term) bool {
	if a == b {
		return true
	}
	f := w.p.Facts
	if (a == tNil || f.isNil(a)) && (b == tNil || f.isNil(b)) {
		return true
	}
	if v, ok := f.Eval(mkBin("==", a, b, nil)); ok && v {
		return true
	}
	return false
}

func (w *walker) in(t *Term, set tset) bool {
	if set[t] {
		return true
	}
	for x := range set {
		if w.same(t, x) {
			return true
		}
	}
	return false
}

// inField: t is the request's field i, or a cleared Next.
func (w *walker) inField(t *Term, c *pos, i int) bool {
	if w.in(t, c.f[i]) {
		return true
	}
	if i == w.s.fNext && (t == tNil || w.p.Facts.isNil(t)) {
		return true // cleared
	}
	if i == w.s.fCtx {
		for x := range c.f[i] {
			if w.ctxSame(t, x) {
				return true
			}
		}
	}
	return false
}

// ctxSame: contexts that are cancelled together. A stage may leave no Context, then any is right.
func (w *walker) ctxSame(a, b *Term) bool {
	if ctxRoot(a) == ctxRoot(b) || w.p.Facts.isNil(b) || b == tNil {
		return true
	}
	// contexts the path knows to be equal
	for f := w.p.Facts; f != nil; f = f.prev {
		if f.v && f.t.K == KBin && f.t.Op == "==" {
			x, y := f.t.Args[0], f.t.Args[1]
			if x == b && ctxRoot(y) == ctxRoot(a) || y == b && ctxRoot(x) == ctxRoot(a) {
				return true
			}
		}
	}
	return false
}

func (w *walker) errNil(c *pos) bool {
	if c.flag[flErr] {
		return true
	}
	for t := range c.f[w.s.fErr] {
		if t == tNil || w.p.Facts.isNil(t) {
			return true
		}
	}
	return false
}

func (w *walker) nextSet(c *pos) bool {
	if c.flag[flNext] {
		return true
	}
	for t := range c.stage {
		if t == tStart || w.p.Facts.nonNil(t) {
			return true
		}
	}
	return false
}

func (w *walker) inStage(t *Term, c *pos) bool {
	if w.isStart(t) {
		return c.stage[tStart]
	}
	return w.in(t, c.stage)
}

// isStart: the Start method of the StateMachine as a function value.
func (w *walker) isStart(t *Term) bool {
	return t.K == KClosure && t.Fn != nil && t.Fn.Name() == "Start$bound" && len(t.Args) == 1 && w.isSM(t.Args[0])
}

func (w *walker) isSM(t *Term) bool {
	t = w.s.norm(t)
	return len(w.s.newA) > 2 && t == w.s.newA[2]
}

// walk follows a path of a worker.
func (w *walker) walk(g *Event, b *Path) {
	s := w.s
	w.p = b
	s.local(b)
	defer s.local(nil)
	w.lists = map[*Term]string{}
	w.at = s.c.evAt(g)
	if b.End != nil {
		w.at += ", path ending at " + s.c.L.pos(b.End)
	}
	all := "C28 C33"
	if w.d != nil && !w.possible(b) {
		return
	}
	if b.Kind == OPanic || b.Kind == OExit {
		w.ob(all, false, "a worker does not panic", "a path ends in a panic or exit")
		return
	}
	nf := structOf(s.reqT).NumFields()
	c := &pos{flag: map[string]bool{}}
	heads := map[string]*head{}
	closed := false
	for i, e := range b.Events {
		switch e.Kind {
		case "recv":
			if s.sym(e.Args[0]) != s.in {
				if e.Args[0].K == KPure && e.Args[0].Op == "ctxdone" {
					w.asked(c, e.Args[0].Args[0], true)
					continue
				}
				if c.on && c.sent == 0 {
					off := false
					for _, a := range e.Alts {
						off = off || a.Send && s.sym(a.Ch) == s.out
					}
					w.ob("C28", !e.Blocking || off, "a worker waits for nothing but its output", "receives at %s", s.c.L.pos(e.Instr))
				}
				continue
			}
			w.done(c, "before the next is received")
			c = &pos{flag: map[string]bool{flErr: true}, stage: tset{tStart: true}, recv: e}
			if e.Res[1] == tFalse {
				closed = true
				continue
			}
			w.ob("C28 C32", e.Res[1] == tTrue, "a worker notices that its input is closed", "it does not look at %s", s.c.L.pos(e.Instr))
			c.on = true
			c.f = make([]tset, nf)
			for j := range c.f {
				c.f[j] = tset{s.field(e.Res[0], j): true}
			}
		case "invoke":
			w.invoke(c, e, b.Events[:i])
		case "store", "mapset", "call":
			w.noted(c, e, b.Events[:i])
		case "ctxerr":
			w.asked(c, e.Args[0], e.Res[0] != tNil)
		case "seldefault":
			for _, a := range e.Alts {
				if !a.Send && a.Ch.K == KPure && a.Ch.Op == "ctxdone" {
					w.asked(c, a.Ch.Args[0], false)
				}
			}
		case "send":
			if s.sym(e.Args[0]) == s.out {
				w.send(c, e, b.Events[:i])
			}
		case "loop":
			if !c.on {
				heads[e.Name] = &head{pos: c.clone()}
				continue
			}
			heads[e.Name] = w.enter(c, e)
		case "cut":
			h := heads[e.Name]
			if h == nil {
				continue
			}
			if !h.pos.on {
				if c.recv != nil && c.recv != h.pos.recv {
					w.done(c, "when the next round begins")
				}
				if closed {
					w.ob("C32 C28", false, "a worker ends when its input is closed", "it goes on at %s", s.c.L.pos(e.Instr))
				}
				continue
			}
			w.ob("C28", c.sent == h.pos.sent || len(h.done) > 0, "a worker passes each request on exactly once", "%d times in a round of the loop at %s", c.sent-h.pos.sent, s.c.L.pos(e.Instr))
			w.ob("C35", c.put == h.pos.put, "an object is put back once", "in a round of the loop at %s", s.c.L.pos(e.Instr))
			w.cut(c, h, e)
		case "loopexit":
			if c.on {
				if _, ok := w.ppLoop(g, e.Name); ok {
					w.leavePps(c, b, e, b.Events[:i])
				}
			}
		case "lock", "rlock", "wg.wait", "sleep", "selectempty":
			w.ob("C28", false, "a worker waits for nothing but its output", "%s at %s", e.Kind, s.c.L.pos(e.Instr))
		case "go", "async":
			for _, x := range e.Bodies {
				for _, y := range evs(x.Events, "invoke") {
					w.ob("C33", s.reqArg(y) == nil, "stages are called one after the other", "called in a goroutine at %s", s.c.L.pos(y.Instr))
				}
			}
		}
	}
	if b.Kind == OReturn {
		w.done(c, "when the worker ends")
		w.ob("C28 C32", closed || c.recv == nil && len(s.on(b.Events, "recv", s.in)) == 0, "a worker goes on until its input is closed", "it ends otherwise")
		if !closed && c.recv == nil {
			w.ob("C28 C32", false, "a worker goes on until its input is closed", "it ends without receiving")
		}
	}
}

// done: the request has been passed on.
func (w *walker) done(c *pos, when string) {
	if c.on {
		w.ob("C28", c.sent == 1, "a worker passes each request on exactly once", "%d times %s", c.sent, when)
		if c.cause != nil {
			w.ob("C36", c.sent == 1, "a cancelled request is delivered", "%d times %s", c.sent, when)
		}
	}
}

// reqArg is the Request given to a user function, nil if there is none.
func (s *staged) reqArg(e *Event) *Term {
	for _, a := range e.Args[1:] {
		if s.isReqVal(a) {
			return a
		}
	}
	return nil
}

// elemOf splits an element of a slice.
func elemOf(t *Term) (list, idx *Term, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	if t.K == KLoad {
		t = t.Args[0]
		if t.K != KIndexAddr {
			return nil, nil, false
		}
	}
	if t.K != KIndex && t.K != KIndexAddr || len(t.Args) != 2 {
		return nil, nil, false
	}
	return t.Args[0], t.Args[1], true
}

func (s *staged) isPP(fv *Term) (idx *Term, ok bool) {
	if l, i, ok := elemOf(fv); ok && s.pps != nil && l == s.pps {
		return i, true
	}
	return nil, false
}

func (w *walker) invoke(c *pos, e *Event, before []*Event) {
	s := w.s
	v := s.reqArg(e)
	if v == nil {
		return
	}
	at := s.c.L.pos(e.Instr)
	idx, pp := (*Term)(nil), false
	if e.Name == "" {
		idx, pp = s.isPP(e.Args[0])
	}
	w.ob("C33", c.on && c.sent == 0, "stages are called for a request being processed", "called at %s", at)
	if !c.on {
		return
	}
	w.ob("C33 C34", w.errNil(c), "nothing is called after Err was set", "Err is not known to be nil at %s", at)
	w.ob("C33 C34", w.nextSet(c), "nothing is called when there is no next stage", "Next is not known to be set at %s", at)
	w.ob("C36", c.flag[flCtx], "the Context is looked at before a stage and its pre-processors are called", "not since the last stage, at %s", at)
	w.ob("C36", c.cause == nil, "nothing is called once the Context was seen cancelled", "called at %s", at)
	tag := "C33"
	what := "a stage"
	if pp {
		tag, what = "C34", "a pre-processor"
	}
	for _, i := range []int{s.fData, s.fErr, s.fCtx} {
		w.ob(tag, w.inField(s.field(v, i), c, i), what+" is given the Request the previous call returned", "%s is %s at %s", fieldVar(s.reqT, i).Name(), s.field(v, i), at)
	}
	nx := s.field(v, s.fNext)
	nilNext := nx == tNil || w.p.Facts.isNil(nx)
	w.ob(tag, w.inField(nx, c, s.fNext), what+" is given the Request the previous call returned", "Next is %s at %s", nx, at)
	for _, i := range []int{s.g, s.k} {
		if i >= 0 {
			w.ob("C28 C30", w.inField(s.field(v, i), c, i), "the identity of a request is kept", "%s is %s at %s", fieldVar(s.reqT, i).Name(), s.field(v, i), at)
		}
	}
	w.dagInvoke(c, v, e, before)
	if nilNext {
		c.flag[flClear] = true
	}
	if pp {
		c.flag[flPps] = false
		if idx == mkInt(0) && s.resets {
			c.flag[flClear] = true
		}
	} else {
		if e.Name != "" {
			w.ob("C33", strings.HasSuffix(e.Name, ").Start") && w.isSM(e.Args[0]) && c.stage[tStart], "the stage called is Start or the Next of the last stage", "%s is called at %s", e.Name, at)
		} else {
			w.ob("C33", w.inStage(e.Args[0], c), "the stage called is Start or the Next of the last stage", "%s is called at %s", e.Args[0], at)
		}
		w.ob("C33", c.flag[flClear] || s.resets && c.flag[flPps], "an old Next is cleared before a stage is called", "Next may be left from before at %s", at)
		w.ob("C34", c.flag[flPps], "all pre-processors are called before a stage", "not since the last stage, at %s", at)
	}
	// the Request it returned
	r := e.Res[0]
	for i := range c.f {
		c.f[i] = tset{s.field(r, i): true}
	}
	c.flag[flErr] = false
	c.flag[flRan] = true
	if !pp {
		c.stage = tset{s.field(r, s.fNext): true}
		c.flag[flNext], c.flag[flClear], c.flag[flPps], c.flag[flCtx], c.flag[flSeen] = false, false, false, false, false
		c.keys = tset{}
	}
}

// asked: the path looked whether a context is cancelled.
func (w *walker) asked(c *pos, root *Term, yes bool) {
	if !c.on {
		return
	}
	mine := false
	for x := range c.f[w.s.fCtx] {
		mine = mine || w.ctxSame(root, x)
	}
	if !mine {
		return
	}
	if yes {
		c.cause = root
	} else {
		c.flag[flCtx] = true
	}
}

func (w *walker) send(c *pos, e *Event, before []*Event) {
	s := w.s
	at := s.c.L.pos(e.Instr)
	v := e.Args[1]
	c.sent++
	w.ob("C28", c.on, "a worker passes on what it received", "sends without a request at %s", at)
	w.ob("C28", c.sent == 1, "a worker passes each request on exactly once", "%d times at %s", c.sent, at)
	if !c.on {
		return
	}
	for _, i := range []int{s.g, s.k} {
		if i >= 0 {
			w.ob("C28 C30", w.inField(s.field(v, i), c, i), "the identity of a request is kept", "%s is %s at %s", fieldVar(s.reqT, i).Name(), s.field(v, i), at)
		}
	}
	w.ob("C28 C33", w.inField(s.field(v, s.fData), c, s.fData), "what is passed on is what the last call returned", "Data is %s at %s", s.field(v, s.fData), at)
	er := s.field(v, s.fErr)
	own := w.inField(er, c, s.fErr)
	lib := c.cause != nil && er.K == KCtxErr && er.Args[0] == c.cause
	cyc := false
	if x := unIface(er); !own && x.T != nil && x != er {
		cyc = s.isCyclic(w.p, er)
	}
	w.ob("C28 C33", own || lib || cyc, "what is passed on is what the last call returned", "Err is %s at %s", er, at)
	w.ob("C36", c.cause == nil || lib, "a cancelled request leaves with its Context's error", "Err is %s at %s", er, at)
	w.dagSend(c, er, cyc, e, before)
	leaves := false
	for t := range c.f[s.fErr] {
		leaves = leaves || t.nonNil() || w.p.Facts.nonNil(t)
	}
	for t := range c.stage {
		leaves = leaves || t == tNil || w.p.Facts.isNil(t)
	}
	leaves = leaves || !own && (lib || cyc)
	w.ob("C33 C34", leaves, "a request leaves only with Err set or without a Next", "neither is known at %s", at)
}

// isCyclic: IsErrCyclic reports the error.
func (s *staged) isCyclic(p *Path, er *Term) bool {
	f := s.c.fn(relStaged, "IsErrCyclic")
	e := s.c.eng(Config{})
	ps := e.Run(f, []*Term{er}, nil)
	for _, q := range ps {
		if q.Kind != OReturn || q.Results[0] != tTrue {
			return false
		}
	}
	return len(ps) > 0
}

// ---------------------------------------------------------------- loops

func ck(loop string, i int, t *Term) string { return fmt.Sprintf("%s|%d|%d", loop, i, t.id) }

// enter keeps what may hold at a loop head in any iteration.
func (w *walker) enter(c *pos, e *Event) *head {
	h := &head{cands: map[string]bool{}}
	add := func(i int, t *Term, set tset) {
		if k := ck(e.Name, i, t); !w.bad[k] {
			h.cands[k] = true
			set[t] = true
		}
	}
	f := make([]tset, len(c.f))
	for i := range c.f {
		n := tset{}
		for t := range c.f[i] {
			add(i, t, n)
		}
		for j := 0; j+1 < len(e.Args); j += 2 {
			if w.inField(e.Args[j+1], c, i) {
				add(i, e.Args[j], n)
			}
		}
		f[i] = n
	}
	st := tset{}
	for t := range c.stage {
		add(-1, t, st)
	}
	for j := 0; j+1 < len(e.Args); j += 2 {
		if w.inStage(e.Args[j+1], c) {
			add(-1, e.Args[j], st)
		}
	}
	keys := tset{}
	if w.d != nil {
		for t := range c.keys {
			add(-3, t, keys)
		}
		for j := 0; j+1 < len(e.Args); j += 2 {
			if w.isKey(e.Args[j+1], c) {
				add(-3, e.Args[j], keys)
			}
		}
	}
	fl := map[string]bool{}
	for _, k := range []string{flErr, flNext, flClear, flPps, flCtx, flSeen} {
		v := c.flag[k]
		switch k {
		case flErr:
			v = w.errNil(c)
		case flNext:
			v = w.nextSet(c)
		}
		if v && !w.bad[e.Name+"|"+k] {
			fl[k] = true
			h.cands[e.Name+"|"+k] = true
		}
	}
	fl[flRan] = c.flag[flRan]
	h.pos = &pos{on: c.on, recv: c.recv, sent: c.sent, put: c.put}
	h.done = map[*Term]bool{}
	for j := 0; j+1 < len(e.Args); j += 2 {
		lv := e.Args[j]
		k := ck(e.Name, -2, lv)
		if b0, ok := constBool(e.Args[j+1]); ok && lv.K != KField && !w.bad[k] {
			h.done[lv] = b0
			if b, ok := w.p.Facts.Eval(lv); ok && b != b0 && c.sent == h.pos.sent {
				c.sent++
			}
		}
	}
	c.f, c.stage, c.flag, c.keys = f, st, fl, keys
	return h
}

// cut drops the candidates an iteration does not restore.
func (w *walker) cut(c *pos, h *head, e *Event) {
	back := map[*Term]*Term{}
	for j := 0; j+1 < len(e.Args); j += 2 {
		back[e.Args[j]] = e.Args[j+1]
	}
	for lv, b0 := range h.done {
		v := back[lv]
		if v == nil {
			v = lv
		}
		b, ok := constBool(v)
		if !ok {
			b, ok = w.p.Facts.Eval(v)
		}
		if !ok || c.sent-h.pos.sent != map[bool]int{true: 1}[b != b0] {
			w.bad[ck(e.Name, -2, lv)] = true
			delete(h.done, lv)
		}
	}
	for i := -3; i < len(c.f); i++ {
		if i == -2 {
			continue
		}
		for k := range h.cands {
			var t *Term
			for _, x := range w.termsOf(e.Name, i, k) {
				t = x
			}
			if t == nil {
				continue
			}
			v := t
			if b, ok := back[t]; ok {
				v = b
			}
			ok := false
			if i == -3 {
				ok = w.isKey(v, c)
			} else if i < 0 {
				ok = w.inStage(v, c) || v == tStart && c.stage[tStart]
			} else {
				ok = w.inField(v, c, i)
			}
			if !ok {
				if os.Getenv("DBGW") != "" {
					fmt.Println("bad", e.Name, i, t, "<-", v, "at", w.at, w.s.rec)
				}
				w.bad[k] = true
			}
		}
	}
	for _, k := range []string{flErr, flNext, flClear, flPps, flCtx, flSeen} {
		id := e.Name + "|" + k
		if !h.cands[id] {
			continue
		}
		v := c.flag[k]
		switch k {
		case flErr:
			v = w.errNil(c)
		case flNext:
			v = w.nextSet(c)
		}
		if !v {
			w.bad[id] = true
		}
	}
}

func (w *walker) termsOf(loop string, i int, k string) []*Term {
	var id int
	if n, _ := fmt.Sscanf(strings.TrimPrefix(k, fmt.Sprintf("%s|%d|", loop, i)), "%d", &id); n != 1 || !strings.HasPrefix(k, fmt.Sprintf("%s|%d|", loop, i)) {
		return nil
	}
	return []*Term{in.list[id]}
}

// ---------------------------------------------------------------- pre-processors

// ppLoop: the loop calls pre-processors.
func (w *walker) ppLoop(g *Event, key string) (string, bool) {
	if why, ok := w.ppl[key]; ok {
		return why, why != "no"
	}
	w.ppl[key] = "no"
	n := 0
	why := ""
	for _, b := range g.Bodies {
		for i, e := range b.Events {
			if e.Kind != "cut" || e.Name != key {
				continue
			}
			var calls []*Event
			for j := i - 1; j >= 0; j-- {
				if x := b.Events[j]; x.Kind == "loop" && x.Name == key {
					break
				} else if x.Kind == "invoke" {
					calls = append(calls, x)
				}
			}
			if len(calls) == 0 {
				why = "an iteration calls none"
				continue
			}
			var idx *Term
			for _, x := range calls {
				if ix, ok := w.s.isPP(x.Args[0]); ok && x.Name == "" {
					idx = ix
					n++
				} else {
					return "", false
				}
			}
			if len(calls) != 1 {
				why = fmt.Sprintf("an iteration calls %d", len(calls))
				continue
			}
			base, off := stripAdd(idx)
			lv := w.s.lv(base.Op)
			if base.K != KLoopVar || !strings.HasPrefix(base.Op, key+"/") || lv == nil || len(lv.Init) != 1 || len(lv.Back) != 1 {
				why = "the index is not counted by the loop"
				continue
			}
			if y, step := stripAdd(lv.Back[0]); y.K != KLoopVar || y.Op != base.Op || step != 1 {
				why = "the index is not stepped by one"
				continue
			}
			if first, ok := mkBin("+", lv.Init[0], mkInt(off), idx.T).intConst(); !ok || first != 0 {
				why = "the index does not start at 0"
			}
		}
	}
	if n == 0 {
		return "", false
	}
	w.ppl[key] = why
	return why, true
}

// leavePps: the loop over the pre-processors was left.
func (w *walker) leavePps(c *pos, b *Path, e *Event, es []*Event) {
	why := w.ppl[e.Name]
	for j := len(es) - 1; j >= 0; j-- {
		if es[j].Kind == "loop" && es[j].Name == e.Name {
			break
		}
		if es[j].Kind == "invoke" {
			return // left in the middle, by what a pre-processor returned
		}
	}
	q := &Path{Events: append(append([]*Event(nil), es...), e), E: b.E}
	t := q.trip(e.Name)
	w.ob("C34", why == "", "the pre-processors are called in order", "%s", orOK(why))
	if why == "" && t != nil && t == mkLen(w.s.pps) {
		c.flag[flPps] = true
	}
}

// findPreProcessors finds the slice of pre-processors the workers use.
func (s *staged) findPreProcessors() {
	c := s.c
	opt := c.L.fn(relStaged, "PreProcessors")
	c.need(opt != nil, "anchor", "PreProcessors exists")
	// the field the option changes
	e := c.eng(s.cfg())
	args, ps := c.run(e, opt)
	for _, p := range ps {
		c.need(p.Kind == OReturn && len(p.Results) == 1 && p.Results[0].K == KClosure, "role: option", "PreProcessors returns a closure")
		cl := p.Results[0]
		f := cl.Fn
		if o := f.Origin(); o != nil {
			f = o
		}
		as := e.params(f)
		for _, q := range e.RunClosure(f, cl.Args, as, p.StateOf()) {
			c.need(q.Kind == OReturn, "role: option", "PreProcessors returns")
			isNil, known := isErrNil(q, q.Results[0])
			c.need(known && isNil, "role: option", "PreProcessors cannot fail")
			st := structOf(s.pipT)
			for i := 0; i < st.NumFields(); i++ {
				a := mkFieldAddr(as[0], i, s.pipT)
				v := q.heapVal(a)
				if v == mkLoad(a) || expandable(st.Field(i).Type()) {
					continue
				}
				fv := fieldVar(s.pipT, i)
				c.need(s.ppsVar == nil || s.ppsVar == fv, "role: option", "PreProcessors changes one field")
				s.ppsVar = fv
				if c.Prop == "C34" {
					c.ob(v == mkAppend(mkLoad(a), mkSpread(args[0])), "PreProcessors adds what it is given at the end", c.at(opt), "the field becomes %s", v)
				}
			}
		}
	}
	c.need(s.ppsVar != nil, "role: option", "PreProcessors changes a field of the Pipelines")
	// its value once the options were applied
	G := s.base.Results[0]
	st := structOf(s.pipT)
	var addr *Term
	for i := 0; i < st.NumFields(); i++ {
		if fieldVar(s.pipT, i) == s.ppsVar {
			addr = mkFieldAddr(G, i, s.pipT)
		}
	}
	s.pps = s.base.heapVal(addr)
	// its initial value: only options may change it
	init := s.pps
	for d := 0; d < 20; d++ {
		if init.K == KHavoc && len(init.Args) > 1 {
			init = init.Args[1]
			continue
		}
		if init.K == KLoopVar {
			if lv := s.lv(init.Op); lv != nil && len(lv.Init) == 1 {
				init = lv.Init[0]
				continue
			}
		}
		break
	}
	first := init
	if init.K == KList && len(init.Args) > 0 {
		first = init.Args[0]
	}
	s.resets = (first.K == KFunc || first.K == KClosure) && first != init && s.clearsNext(first) && s.appendOnly()
}

// clearsNext: the function returns the Request it is given with Next nil.
func (s *staged) clearsNext(fn *Term) bool {
	e := s.c.eng(s.cfg())
	f := fn.Fn
	if o := f.Origin(); o != nil {
		f = o
	}
	as := e.params(f)
	ps := e.RunClosure(f, fn.Args, as, nil)
	for _, p := range ps {
		if p.Kind != OReturn || len(p.Results) != 1 {
			return false
		}
		for i := 0; i < structOf(s.reqT).NumFields(); i++ {
			v := s.field(p.Results[0], i)
			if i == s.fNext && v != tNil || i != s.fNext && v != s.field(as[0], i) {
				return false
			}
		}
	}
	return len(ps) > 0
}

// appendOnly: options only add to the pre-processors.
func (s *staged) appendOnly() bool {
	for _, w := range s.c.L.storesTo(s.ppsVar) {
		if s.c.L.onlyFrom(w.Parent(), s.newF) {
			continue
		}
		call, ok := w.Val.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		ld, ok := call.Call.Args[0].(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || fieldVar(deref(fa.X.Type()), fa.Field) != s.ppsVar {
			return false
		}
	}
	return true
}
