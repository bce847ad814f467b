package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relAtomics = "prim/atomics"
	relQueue   = "pipelines/stagedpipe/internal/queue"
)

// accPath names an address by the fields and pointers followed from a base.
func accPath(a, base *Term) (string, bool) {
	s := ""
	for a != base {
		switch a.K {
		case KFieldAddr:
			v, _ := a.Ref.(*types.Var)
			n := fmt.Sprint(a.Idx)
			if v != nil {
				n = v.Name()
			}
			s = "." + n + s
			a = a.Args[0]
		case KLoad:
			s = "*" + s
			a = a.Args[0]
		default:
			return "", false
		}
	}
	return s, true
}

func isAtomicWrite(e *Event) bool {
	switch e.Kind {
	case "atomic.store", "atomic.swap", "atomic.add", "atomic.other":
		return true
	case "atomic.cas":
		return e.Res[0] == tTrue
	}
	return false
}

// written is the value an atomic operation writes.
func written(e *Event) *Term {
	switch e.Kind {
	case "atomic.store", "atomic.swap":
		return e.Args[1]
	case "atomic.cas":
		return e.Args[2]
	}
	return nil
}

// methodRun is one exported function or method with its paths.
type methodRun struct {
	f    *ssa.Function
	e    *Engine
	args []*Term
	ps   []*Path
}

func (c *Check) runAll(rel string, cfg Config) []*methodRun {
	var r []*methodRun
	for _, f := range c.L.exported(rel) {
		m := &methodRun{f: f, e: c.eng(cfg)}
		m.args, m.ps = c.run(m.e, f)
		r = append(r, m)
	}
	return r
}

// ---------------------------------------------------------------- C26, C27

type rwvalue struct {
	c    *Check
	all  []*methodRun
	load *methodRun
	cell string // access path of the published pointer
}

func (c *Check) rwvalue() *rwvalue {
	r := &rwvalue{c: c}
	c.typ(relAtomics, "RWValue")
	r.all = c.runAll(relAtomics, Config{RecordLoads: true})
	for _, m := range r.all {
		if m.f == c.method(relAtomics, "RWValue", "Load") {
			r.load = m
		}
	}
	c.need(r.load != nil, "role: Load", "RWValue.Load is analysed")
	for _, p := range r.load.ps {
		for _, e := range evs(p.Events, "atomic.load") {
			if k, ok := accPath(e.Args[0], r.load.args[0]); ok {
				c.need(r.cell == "" || r.cell == k, "role: pointer", "Load reads one pointer")
				r.cell = k
			}
		}
	}
	c.need(r.cell != "", "role: pointer", "Load reads the value through an atomic pointer of the RWValue")
	return r
}

// value: v is the value behind the pointer read by event e: its target, or zero if the pointer is nil.
func (r *rwvalue) value(p *Path, v *Term, e *Event, t types.Type) (bool, string) {
	ptr := e.Res[0]
	if isNil, known := isErrNil(p, ptr); known {
		if isNil {
			return v == zeroOf(t), "the zero value if nothing was stored"
		}
		return v == mkLoad(ptr) || v.K == KLoad && v.Args[0] == ptr, "the value the pointer read points to"
	}
	return false, "the pointer is examined"
}

func (r *rwvalue) cellEvs(m *methodRun, es []*Event, kinds ...string) []*Event {
	var out []*Event
	if len(m.args) == 0 {
		return nil
	}
	for _, e := range evs(es, kinds...) {
		if k, ok := accPath(e.Args[0], m.args[0]); ok && k == r.cell {
			out = append(out, e)
		}
	}
	return out
}

// published checks that what is published is a fresh copy holding want, not written afterwards.
func (r *rwvalue) published(m *methodRun, p *Path, e *Event, want *Term) {
	c := r.c
	n := written(e)
	if !c.ob(n != nil && isFresh(n) && n.K == KAlloc, "what is published is a variable of its own", c.evAt(e), "%v", n) {
		return
	}
	after := false
	for _, x := range p.Events {
		if x == e {
			after = true
			continue
		}
		if after && (x.Kind == "store" || x.Kind == "copy") && x.Args[0].root() == n {
			c.ob(false, "a published value is not written", c.evAt(x), "%v", x.Args[0])
		}
		if x != e && isAtomicWrite(x) && written(x) == n {
			c.ob(false, "a value is published once", c.evAt(x), "again")
		}
		if x.Kind == "invoke" || x.Kind == "call" || x.Kind == "go" {
			for _, a := range x.Args {
				if a.root() == n {
					c.ob(false, "a published value is not handed to others", c.evAt(x), "%v", a)
				}
			}
		}
	}
	if want != nil {
		got := p.heapVal(n)
		c.ob(got == want, "exactly the value given is published", c.evAt(e), "%v, not %v", got, want)
	}
}

func rC26(c *Check) {
	r := c.rwvalue()
	fs, fl := c.method(relAtomics, "RWValue", "Store"), c.method(relAtomics, "RWValue", "LoadReplace")
	mus := map[string]bool{}
	first := true
	for _, m := range r.all {
		writes := 0
		for _, p := range m.ps {
			if len(m.args) == 0 {
				continue
			}
			// locks held at each write of the pointer; for LoadReplace from the read on
			locksAt(p.Events, func(e *Event, held map[*Term]string) {
				isCell := false
				if len(e.Args) > 0 {
					k, ok := accPath(e.Args[0], m.args[0])
					isCell = ok && k == r.cell
				}
				call := m.f == fl && e.Kind == "invoke" && e.Args[0] == m.args[1]
				if !(isCell && (isAtomicWrite(e) || m.f == fl && e.Kind == "atomic.load") || call) {
					return
				}
				if isCell && isAtomicWrite(e) {
					writes++
				}
				have := map[string]bool{}
				for a, w := range held {
					if k, ok := accPath(a, m.args[0]); ok && w == "w" {
						have[k] = true
					}
				}
				if first {
					mus, first = have, false
				} else {
					for k := range mus {
						if !have[k] {
							delete(mus, k)
						}
					}
				}
				c.ob(len(mus) > 0, "one mutex is held at every write, and in LoadReplace from the read of the value to its replacement", c.evAt(e), "no mutex common to all is held here")
			})
			if p.Kind == OReturn {
				r.oneHold(m, p, fl)
			}
			for _, e := range r.cellEvs(m, p.Events, "store", "atomic.add", "atomic.other") {
				c.ob(false, "the pointer is written by Store and Swap only", c.evAt(e), "%s", e.Kind)
			}
		}
		if m.f != fs && m.f != fl {
			c.ob(writes == 0, "only Store and LoadReplace change the value", c.at(m.f), "%d writes", writes)
		}
		c.lockDiscipline(m.f, m.ps)
		for _, p := range m.ps {
			if m.f == fs && p.Kind == OReturn {
				ws := r.cellEvs(m, p.Events, "atomic.store", "atomic.swap")
				if c.ob(len(ws) == 1, "Store stores once", c.pathAt(m.f, p), "%d times", len(ws)) {
					r.published(m, p, ws[0], m.args[1])
				}
			}
			if m.f == fs || m.f == fl {
				c.ob(p.Kind == OReturn || p.Kind == OCut, m.f.Name()+" returns", c.pathAt(m.f, p), "a path ends in a panic or exit")
			}
			if m.f != fl || p.Kind != OReturn {
				continue
			}
			at := c.pathAt(m.f, p)
			var calls []*Event
			for _, e := range p.Events {
				if e.Kind == "invoke" && e.Args[0] == m.args[1] {
					calls = append(calls, e)
				}
			}
			if !c.ob(len(calls) == 1 && len(calls[0].Args) == 2 && len(calls[0].Res) == 2, "LoadReplace calls its function exactly once", at, "%d times", len(calls)) {
				continue
			}
			u := calls[0]
			ls := r.cellEvs(m, p.Events, "atomic.load")
			ok, why := false, "the current value"
			tt := fl.Signature.Params().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type()
			for _, l := range ls {
				o, w := r.value(p, u.Args[1], l, tt)
				ok, why = ok || o, w
			}
			c.ob(ok, "the function gets the value stored", c.evAt(u), "%v; expected %s", u.Args[1], why)
			ws := r.cellEvs(m, p.Events, "atomic.store", "atomic.swap", "atomic.cas")
			n, er := u.Res[0], u.Res[1]
			isNil, known := isErrNil(p, er)
			switch {
			case !c.ob(known, "the function's error is examined", at, "it is not"):
			case isNil:
				c.ob(p.Results[0] == tNil || p.Results[0] == er, "no error is made up", at, "returns %v", p.Results[0])
				if c.ob(len(ws) == 1 && ws[0].Kind != "atomic.cas", "the result is stored once", at, "%d writes", len(ws)) {
					r.published(m, p, ws[0], n)
				}
			default:
				c.ob(len(ws) == 0, "nothing is stored after an error", at, "%d writes", len(ws))
				c.ob(wraps(p.Results[0], er), "the error is returned", at, "returns %v", p.Results[0])
			}
		}
	}
	c.ob(!first && len(mus) > 0, "writers exclude each other", "module", "mutexes %v", sortedKeys(mus))
}

// oneHold: between the read in LoadReplace and its last write the lock is not given up.
func (r *rwvalue) oneHold(m *methodRun, p *Path, fl *ssa.Function) {
	if m.f != fl {
		return
	}
	start, end := -1, -1
	for i, e := range p.Events {
		if len(e.Args) == 0 {
			continue
		}
		k, ok := accPath(e.Args[0], m.args[0])
		if ok && k == r.cell && (e.Kind == "atomic.load" || isAtomicWrite(e)) || e.Kind == "invoke" {
			if start < 0 {
				start = i
			}
			end = i
		}
	}
	for i := start; i >= 0 && i < end; i++ {
		if p.Events[i].Kind == "unlock" {
			r.c.ob(false, "the lock is held from the read to the replacement", r.c.evAt(p.Events[i]), "given up in between")
		}
	}
}

func rC27(c *Check) {
	r := c.rwvalue()
	m := r.load
	t := m.f.Signature.Results().At(0).Type()
	n := 0
	for _, p := range m.ps {
		if !c.ob(p.Kind == OReturn, "Load returns", c.pathAt(m.f, p), "a path ends otherwise") {
			continue
		}
		n++
		at := c.pathAt(m.f, p)
		for _, e := range p.Events {
			switch e.Kind {
			case "atomic.load", "load":
			case "store":
				c.ob(isFresh(e.Args[0].root()), "Load writes nothing shared", c.evAt(e), "%v", e.Args[0])
			default:
				c.ob(false, "Load does nothing but read", c.evAt(e), "%s %s", e.Kind, e.Name)
			}
			if e.Kind == "load" && !isFresh(e.Args[0].root()) {
				k, ok := accPath(e.Args[0], m.args[0])
				c.ob(!ok, "Load reads the RWValue through the atomic pointer only", c.evAt(e), "%s", k)
			}
		}
		ls := r.cellEvs(m, p.Events, "atomic.load")
		ok, why := false, "the value"
		for _, l := range ls {
			o, w := r.value(p, p.Results[0], l, t)
			ok = ok || o
			why = w
		}
		c.ob(ok, "Load returns one published value", at, "%v; expected %s", p.Results[0], why)
	}
	c.need(n > 0, "role: Load", "Load has paths")
	// what is published is never written again
	for _, m := range r.all {
		for _, p := range m.ps {
			for _, e := range p.Events {
				if len(m.args) == 0 {
					continue
				}
				if k, ok := accPathSafe(e, m.args[0]); ok && k == r.cell && isAtomicWrite(e) {
					r.published(m, p, e, nil)
				}
				if (e.Kind == "store" || e.Kind == "copy") && !isFresh(e.Args[0].root()) {
					c.ob(!throughAtomic(e.Args[0]), "nothing is written through a published pointer", c.evAt(e), "%v", e.Args[0])
				}
				// nothing else gets hold of a published pointer
				for i, a := range e.Args {
					if (e.Kind == "invoke" || e.Kind == "call") && i > 0 && a.K == KPure && a.Op == "atomic" {
						c.ob(false, "a published pointer is not handed out", c.evAt(e), "%v", a)
					}
				}
			}
			for _, v := range p.Results {
				c.ob(!(v.K == KPure && v.Op == "atomic" && isPtr(v.T)), "a published pointer is not handed out", c.pathAt(m.f, p), "%v", v)
			}
		}
	}
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func accPathSafe(e *Event, base *Term) (string, bool) {
	if len(e.Args) == 0 || e.Args[0] == nil {
		return "", false
	}
	return accPath(e.Args[0], base)
}

// throughAtomic: the address is reached through a pointer read atomically.
func throughAtomic(a *Term) bool {
	for a != nil {
		if a.K == KPure && a.Op == "atomic" {
			return true
		}
		if len(a.Args) == 0 {
			return false
		}
		a = a.Args[0]
	}
	return false
}

// ---------------------------------------------------------------- C41, C42

type lfqueue struct {
	c                    *Check
	all                  []*methodRun
	push, pop, cls, newf *methodRun
	head, tail           string // access paths of the list anchors
	next, val            int    // fields of a node
	nextVar              *types.Var
	nodeT                types.Type
	closed               string
	limit                string
	runs                 map[string]*LV // the variables of the loops of Push
}

func (c *Check) lfqueue() *lfqueue {
	q := &lfqueue{c: c, next: -1, val: -1}
	c.typ(relQueue, "Queue")
	q.all = c.runAll(relQueue, Config{RecordLoads: true})
	find := func(f *ssa.Function) *methodRun {
		for _, m := range q.all {
			if m.f == f {
				return m
			}
		}
		c.need(false, "role: method", "%s is analysed", f.Name())
		return nil
	}
	q.push = find(c.method(relQueue, "Queue", "Push"))
	q.pop = find(c.method(relQueue, "Queue", "Pop"))
	q.cls = find(c.method(relQueue, "Queue", "Close"))
	q.newf = find(c.fn(relQueue, "New"))
	// head is what Pop swings
	for _, p := range q.pop.ps {
		for _, e := range evs(p.Events, "atomic.cas") {
			if k, ok := accPath(e.Args[0], q.pop.args[0]); ok {
				c.need(q.head == "" || q.head == k, "role: head", "Pop unlinks at one place")
				q.head = k
			}
		}
	}
	// tail is where Push finds the last node, next what it links
	q.runs = map[string]*LV{}
	for _, p := range append(append([]*Path{}, q.push.ps...), q.pop.ps...) {
		for _, e := range p.Events {
			if e.Run != nil {
				for k, v := range e.Run.LV {
					q.runs[k] = q.runs[k].union(v)
				}
			}
		}
	}
	for _, p := range q.push.ps {
		for _, e := range evs(p.Events, "atomic.cas") {
			a := e.Args[0]
			if a.K == KFieldAddr {
				if k, ok := q.readFrom(a.Args[0], q.push.args[0], 0); ok {
					c.need(q.tail == "" || q.tail == k, "role: tail", "Push links at one place")
					q.tail = k
					q.next = a.Idx
					q.nextVar, _ = a.Ref.(*types.Var)
					if n := e.Args[2]; n.K == KAlloc {
						q.nodeT = n.T
					}
				}
			}
		}
	}
	c.need(q.head != "" && q.tail != "" && q.next >= 0, "role: list", "Push links nodes at a tail and Pop unlinks them at a head, by compare-and-swap (%q, %q)", q.head, q.tail)
	s := structOf(q.nodeT)
	c.need(s != nil && s.NumFields() == 2, "role: node", "a node is a value and the next node")
	q.val = 1 - q.next
	for _, p := range q.cls.ps {
		for _, e := range evs(p.Events, "atomic.store") {
			if k, ok := accPath(e.Args[0], q.cls.args[0]); ok {
				q.closed = k
			}
		}
	}
	c.need(q.closed != "", "role: closed", "Close sets an atomic flag of the queue")
	for _, p := range q.push.ps {
		for _, e := range evs(p.Events, "send") {
			ch := e.Args[0]
			if ch.K == KLoad {
				if k, ok := accPath(ch.Args[0], q.push.args[0]); ok {
					q.limit = k
				}
			}
		}
	}
	return q
}

// readFrom: the value was read from the atomic cell of the queue with this path; a variable, each time it was set.
func (q *lfqueue) readFrom(t, recv *Term, depth int) (string, bool) {
	if t.K == KPure && t.Op == "atomic" {
		return accPath(t.Args[0], recv)
	}
	if t.K != KLoopVar || depth > 3 {
		return "", false
	}
	lv := q.runs[t.Op]
	if lv == nil || len(lv.Init) == 0 {
		return "", false
	}
	k := ""
	for _, x := range append(append([]*Term{}, lv.Init...), lv.Back...) {
		if x.K == KLoopVar && x.Op == t.Op {
			continue
		}
		y, ok := q.readFrom(x, recv, depth+1)
		if !ok || k != "" && y != k {
			return "", false
		}
		k = y
	}
	return k, k != ""
}

// looksAgain: what a compare-and-swap found changed is read again before the next one, which otherwise never succeeds.
func (q *lfqueue) looksAgain(p *Path, what string) {
	es := evs(p.Events, "atomic.cas")
	for i, e := range es {
		if e.Res[0] != tFalse {
			continue
		}
		for _, o := range es[i+1:] {
			if o.Args[0] != e.Args[0] || o.Args[1] != e.Args[1] {
				continue
			}
			x := o.Args[1]
			if q.isNext(o.Args[0]) {
				x = o.Args[0].Args[0]
			}
			ok := false
			if x.K == KLoopVar {
				lv := q.runs[x.Op]
				if lv == nil {
					lv = &LV{}
				}
				ok = len(lv.Back) > 0
				for _, b := range lv.Back {
					if b.K == KLoopVar && b.Op == x.Op {
						ok = false
					}
					for _, a := range lv.Init {
						ok = ok && a != b
					}
				}
			}
			q.c.ob(ok, what+" looks again after a compare-and-swap that failed", q.c.evAt(o), "it tries %s again", x)
		}
	}
}

// isNext: the address is the next field of a node.
func (q *lfqueue) isNext(a *Term) bool {
	if a.K != KFieldAddr || q.nextVar == nil {
		return false
	}
	v, ok := a.Ref.(*types.Var)
	return ok && v.Origin() == q.nextVar.Origin()
}

// isNode: a variable that is a node.
func (q *lfqueue) isNode(t *Term) bool {
	s := structOf(t.T)
	return s != nil && s.NumFields() == 2 && s.Field(q.next).Origin() == q.nextVar.Origin()
}

func (q *lfqueue) isCell(a, recv *Term, k string) bool {
	x, ok := accPath(a, recv)
	return ok && x == k
}

func rC41(c *Check) { c.lfqueue().protocol(true) }

// rC45: the list grows only behind its last node, by one compare-and-swap that is the moment of the push, and shrinks only
// from its head to the node that follows it, by one compare-and-swap that is the moment of the pop; a Pop without a value
// saw the head without a next, which is the moment at which the queue was empty. So the order of the nodes is the order of
// the pushes and that of the pops.
func rC45(c *Check) { c.lfqueue().protocol(false) }

// protocol checks the list; closing: also when Pop may give up.
func (q *lfqueue) protocol(closing bool) {
	c := q.c
	// --- Push
	m := q.push
	recv, val := m.args[0], m.args[1]
	for _, p := range m.ps {
		at := c.pathAt(m.f, p)
		q.looksAgain(p, "Push")
		if p.Kind != OReturn {
			c.ob(p.Kind == OCut, "Push returns", at, "a path ends in a panic or exit")
			continue
		}
		var link *Event
		var node *Term
		tails := 0
		for i, e := range p.Events {
			switch {
			case e.Kind == "atomic.cas" && e.Res[0] == tFalse:
				// nothing changed
				c.ob(q.isNext(e.Args[0]), "Push links with compare-and-swap on next", c.evAt(e), "%v", e.Args[0])
			case e.Kind == "atomic.cas":
				ok := q.isNext(e.Args[0]) && link == nil && e.Args[1] == tNil
				c.ob(ok, "Push links its node exactly once, and only where no other follows", c.evAt(e), "%v", e.Args)
				t := e.Args[0].Args[0]
				k, fromTail := q.readFrom(t, recv, 0)
				c.ob(fromTail && k == q.tail, "Push links after the node found at the tail", c.evAt(e), "%v", t)
				link, node = e, e.Args[2]
				c.ob(isFresh(node) && node.K == KAlloc && q.isNode(node), "Push links a node of its own", c.evAt(e), "%v", node)
			case e.Kind == "atomic.store" && q.isCell(e.Args[0], recv, q.tail):
				tails++
				c.ob(link != nil && e.Args[1] == node, "the tail becomes the node just linked, by the one who linked it", c.evAt(e), "%v", e.Args[1])
			case isAtomicWrite(e):
				c.ob(false, "Push changes nothing but next and the tail", c.evAt(e), "%s %v", e.Kind, e.Args)
			case e.Kind == "store":
				c.ob(isFresh(e.Args[0].root()) && !(link != nil && e.Args[0].root() == node), "Push writes its node only before linking it", c.evAt(e), "%v", e.Args[0])
			}
			_ = i
		}
		c.ob(link != nil, "Push links its node before it returns", at, "it does not")
		c.ob(tails == 1, "Push moves the tail once", at, "%d times", tails)
		if node != nil && node.K == KAlloc {
			v := p.heapVal(mkFieldAddr(node, q.val, q.nodeT))
			c.ob(v == val, "the node holds the value pushed", at, "%v", v)
		}
	}
	// --- Pop
	m = q.pop
	recv = m.args[0]
	for _, p := range m.ps {
		at := c.pathAt(m.f, p)
		q.looksAgain(p, "Pop")
		if p.Kind != OReturn {
			c.ob(p.Kind == OCut, "Pop returns", at, "a path ends in a panic or exit")
			continue
		}
		okRes, known := constBool(p.Results[1])
		if !c.ob(known, "Pop says whether there is a value", at, "%v", p.Results[1]) {
			continue
		}
		var unlink *Event
		for _, e := range p.Events {
			switch {
			case e.Kind == "atomic.cas":
				h, n := e.Args[1], e.Args[2]
				k, fromHead := q.readFrom(h, recv, 0)
				ok := q.isCell(e.Args[0], recv, q.head) && fromHead && k == q.head
				c.ob(ok, "Pop unlinks by compare-and-swap from the head read", c.evAt(e), "%v", e.Args)
				ok = n.K == KPure && n.Op == "atomic" && q.isNext(n.Args[0]) && n.Args[0].Args[0] == h && p.Facts.nonNil(n)
				c.ob(ok, "the head becomes the node following it, which exists", c.evAt(e), "%v", n)
				if e.Res[0] == tTrue {
					c.ob(unlink == nil, "Pop unlinks once", c.evAt(e), "again")
					unlink = e
				}
			case isAtomicWrite(e):
				c.ob(false, "Pop changes nothing but the head", c.evAt(e), "%s %v", e.Kind, e.Args)
			case e.Kind == "store":
				c.ob(isFresh(e.Args[0].root()), "Pop writes nothing shared", c.evAt(e), "%v", e.Args[0])
			}
		}
		if okRes {
			if c.ob(unlink != nil, "Pop reports a value only after unlinking it", at, "nothing unlinked") {
				v := p.Results[0]
				want := mkLoad(mkFieldAddr(unlink.Args[2], q.val, q.nodeT))
				c.ob(v == want || v.K == KLoad && v.Args[0] == want.Args[0], "Pop returns the value of the node unlinked", at, "%v", v)
			}
			continue
		}
		c.ob(unlink == nil, "a value unlinked is returned", at, "reports none")
		// closed was seen before the queue was seen empty
		seen, ok := -1, false
		hs := map[*Term]int{}
		for i, e := range p.Events {
			if e.Kind != "atomic.load" {
				continue
			}
			switch {
			case q.isCell(e.Args[0], recv, q.closed):
				if v, k := p.Facts.Eval(e.Res[0]); k && v && seen < 0 {
					seen = i
				}
			case q.isCell(e.Args[0], recv, q.head):
				hs[e.Res[0]] = i
			case q.isNext(e.Args[0]):
				h := e.Args[0].Args[0]
				j, is := hs[h]
				if k, head := q.readFrom(h, recv, 0); h.K == KLoopVar && head && k == q.head {
					// read before the loop and at the end of each round
					for _, x := range q.runs[h.Op].Init {
						if k, on := hs[x]; on && (!is || k > j) {
							j, is = k, true
						}
					}
				}
				if is && (seen >= 0 && j > seen || !closing) && p.Facts.isNil(e.Res[0]) {
					ok = true
				}
			}
		}
		if !closing {
			c.ob(ok, "Pop reports no value only if it saw the head without a next", at, "no look at the list")
			continue
		}
		c.ob(seen >= 0, "Pop reports no value only if the queue is closed", at, "closed is not seen set")
		c.ob(ok, "Pop reports no value only if the queue is seen empty after it is seen closed", at, "no look at the list after reading the closed flag")
	}
	// --- Close and anything else
	for _, m := range q.all {
		if m == q.push || m == q.pop {
			continue
		}
		for _, p := range m.ps {
			for _, e := range p.Events {
				if closing && m == q.cls && e.Kind == "atomic.store" && q.isCell(e.Args[0], m.args[0], q.closed) {
					c.ob(e.Args[1] == tTrue, "Close sets the closed flag", c.evAt(e), "%v", e.Args[1])
					continue
				}
				if !closing && e.Kind == "atomic.store" && q.isCell(e.Args[0], m.args[0], q.closed) {
					continue
				}
				if isAtomicWrite(e) || e.Kind == "store" {
					c.ob(isFresh(e.Args[0].root()), "only Push, Pop and Close change the queue", c.evAt(e), "%s %v in %s", e.Kind, e.Args, m.f.Name())
				}
			}
			if closing && m == q.cls && p.Kind == OReturn {
				n := 0
				for _, e := range evs(p.Events, "atomic.store") {
					if q.isCell(e.Args[0], m.args[0], q.closed) {
						n++
					}
				}
				c.ob(n > 0, "Close sets the closed flag", c.pathAt(m.f, p), "it does not")
			}
		}
	}
	q.initial()
}

// initial: a new queue is one node without a next, at head and tail, and is not closed.
func (q *lfqueue) initial() {
	c := q.c
	m := q.newf
	for _, p := range m.ps {
		at := c.pathAt(m.f, p)
		if p.Kind != OReturn {
			c.ob(p.Kind == OCut, "New returns", at, "a path ends in a panic or exit")
			continue
		}
		r := p.Results[0]
		if !c.ob(isFresh(r), "New returns a queue of its own", at, "%v", r) {
			continue
		}
		// the cells of the new queue
		cell := func(k string) *Term { return q.resolve(p, r, k) }
		h, t := cell(q.head), cell(q.tail)
		if !c.ob(h != nil && t != nil, "New makes the list", at, "no list") {
			continue
		}
		val := map[*Term]*Term{}
		for _, e := range p.Events {
			if e.Kind == "atomic.load" && isFresh(e.Args[0].root()) {
				if v := val[e.Args[0]]; v != nil {
					val[e.Res[0]] = v
				}
			}
			if isAtomicWrite(e) {
				v := written(e)
				if x := val[v]; x != nil {
					v = x
				}
				val[e.Args[0]] = v
				c.ob(!q.isNext(e.Args[0]), "the first node has no next", c.evAt(e), "%v", e.Args)
				if k := cell(q.closed); k != nil && e.Args[0] == k {
					c.ob(v == tFalse, "a new queue is not closed", c.evAt(e), "%v", v)
				}
			}
		}
		ok := val[h] != nil && val[h] == val[t] && isFresh(val[h].root()) && q.isNode(val[h])
		c.ob(ok, "head and tail of a new queue are the same node", at, "%v and %v", val[h], val[t])
	}
}

// resolve follows an access path from a fresh object through the memory at the end of a path.
func (q *lfqueue) resolve(p *Path, r *Term, k string) *Term {
	a := r
	for k != "" {
		if k[0] == '*' {
			v := p.heapVal(a)
			if v == nil || !isFresh(v.root()) {
				return nil
			}
			a, k = v, k[1:]
			continue
		}
		e := strings.IndexAny(k[1:], ".*")
		n := k[1:]
		if e >= 0 {
			n = k[1 : e+1]
		}
		k = k[1+len(n):]
		fs := fieldsOf(a.T, nameIs(n))
		if len(fs) != 1 {
			return nil
		}
		a = mkFieldAddr(a, fs[0], a.T)
	}
	return a
}

func rC42(c *Check) {
	q := c.lfqueue()
	c.need(q.limit != "", "role: limit", "Push takes a place in a channel of the queue")
	isLim := func(m *methodRun, ch *Term) bool {
		return len(m.args) > 0 && ch.K == KLoad && q.isCell(ch.Args[0], m.args[0], q.limit)
	}
	for _, p := range q.push.ps {
		q.looksAgain(p, "Push")
	}
	steals := false
	for _, p := range q.pop.ps {
		if p.Kind == OReturn && p.Results[1] == tFalse {
			for _, e := range evs(p.Events, "recv", "seldefault") {
				_ = e
				steals = true
			}
		}
	}
	for _, m := range q.all {
		for _, p := range m.ps {
			if p.Kind != OReturn {
				continue
			}
			at := c.pathAt(m.f, p)
			var lim *Term
			if len(m.args) > 0 && m != q.newf {
				lim = mkLoad(q.rebasePath(m.args[0]))
			}
			nSend, nRecv, nTry := 0, 0, 0
			linked, unlinked := -1, -1
			sendAt, recvAt := -1, -1
			for i, e := range p.Events {
				switch e.Kind {
				case "atomic.cas":
					if e.Res[0] == tTrue {
						if m == q.push {
							linked = i
						} else {
							unlinked = i
						}
					}
				case "send":
					if c.ob(m == q.push && isLim(m, e.Args[0]), "only Push takes places", c.evAt(e), "send in %s", m.f.Name()) {
						nSend++
						sendAt = i
						c.ob(e.Blocking && len(e.Alts) <= 1, "Push waits for a place", c.evAt(e), "it does not")
					}
				case "recv":
					if c.ob(m == q.pop && isLim(m, e.Args[0]), "only Pop gives places back", c.evAt(e), "receive in %s", m.f.Name()) {
						nRecv++
						recvAt = i
						c.ob(!e.Blocking || p.Results[1] == tTrue && !steals, "giving a place back never blocks", c.evAt(e), "it may")
					}
				case "seldefault":
					ok := m == q.pop && len(e.Alts) == 1 && !e.Alts[0].Send && isLim(m, e.Alts[0].Ch)
					if c.ob(ok, "only a place is waited for", c.evAt(e), "select in %s", m.f.Name()) {
						nTry++
						recvAt = i
					}
				case "close", "copy", "go":
					c.ob(false, "places are taken and given back only", c.evAt(e), "%s in %s", e.Kind, m.f.Name())
				case "lock", "rlock", "wg.wait":
					c.ob(m != q.push, "Push blocks only while the queue is full", c.evAt(e), "%s", e.Kind)
				case "sleep":
					c.ob(m != q.push, "Push blocks only while the queue is full", c.evAt(e), "%s", e.Kind)
				case "store":
					if k, ok := accPathSafe(e, firstArg(m)); ok && k == q.limit {
						c.ob(false, "the limit is fixed", c.evAt(e), "written in %s", m.f.Name())
					}
				}
			}
			switch m {
			case q.push:
				isNil, known := isErrNil(p, lim)
				switch {
				case known && isNil:
					c.ob(nSend == 0, "an unlimited queue takes no place", at, "%d", nSend)
				case !known && nSend == 0:
					c.ob(false, "Push takes a place if there is a limit", at, "the limit is not examined")
				default:
					c.ob(nSend == 1 && linked > sendAt, "Push takes one place before it links its value", at, "%d taken, at step %d, linked at %d", nSend, sendAt, linked)
				}
			case q.pop:
				isNil, known := isErrNil(p, lim)
				n := nRecv + nTry
				c.ob(n == 0 || known && !isNil, "Pop gives a place back only if there is a limit", at, "the limit is not examined")
				if p.Results[1] == tTrue && known && !isNil {
					c.ob(n == 1 && recvAt > unlinked, "Pop gives one place back after unlinking a value", at, "%d given back, at step %d, unlinked at %d", n, recvAt, unlinked)
				} else if p.Results[1] == tTrue {
					c.ob(known, "Pop gives one place back after unlinking a value", at, "the limit is not examined")
				} else {
					c.ob(n <= 1, "Pop gives at most one place back", at, "%d", n)
				}
			}
		}
	}
	// New
	m := q.newf
	size := m.args[0]
	some := false
	for _, p := range m.ps {
		if p.Kind != OReturn || !isFresh(p.Results[0]) {
			c.ob(p.Kind == OCut, "New returns a queue of its own", c.pathAt(m.f, p), "it does not")
			continue
		}
		at := c.pathAt(m.f, p)
		a := q.resolve(p, p.Results[0], q.limit)
		if !c.ob(a != nil, "New sets the limit", at, "no limit field") {
			continue
		}
		v := p.heapVal(a)
		lo, hi := p.Facts.bounds(size)
		if v == tNil || p.Facts.isNil(v) {
			c.ob(hi <= 0, "only a queue of size 0 or less has no limit", at, "size %d to %d", lo, hi)
			continue
		}
		some = true
		c.ob(v.K == KMakeChan && len(v.Args) > 0 && v.Args[0] == size, "the limit is a channel with size places", at, "%v", v)
		c.ob(lo >= 1, "a queue of size 0 or less has no limit", at, "size %d to %d", lo, hi)
		c.ob(len(evs(p.Events, "send", "recv")) == 0, "a new queue has all places free", at, "some taken")
	}
	c.ob(some, "a queue of positive size has a limit", c.at(m.f), "never")
}

func firstArg(m *methodRun) *Term {
	if len(m.args) == 0 {
		return nil
	}
	return m.args[0]
}

// rebasePath is the address of the limit of a queue.
func (q *lfqueue) rebasePath(recv *Term) *Term {
	k := q.limit
	a := recv
	t := deref(recv.T)
	for k != "" {
		if k[0] == '*' {
			a = mkLoad(a)
			t = deref(a.T)
			k = k[1:]
			continue
		}
		n := k[1:]
		if e := strings.IndexAny(n, ".*"); e >= 0 {
			n = n[:e]
		}
		k = k[1+len(n):]
		fs := fieldsOf(t, nameIs(n))
		if len(fs) != 1 {
			return a
		}
		a = mkFieldAddr(a, fs[0], t)
		t = a.T
	}
	return a
}

func init() {
	reg("C26", rC26, "lockset at every write of the published pointer and, in LoadReplace, from the read to the replacement; provenance of the function's argument and of the value stored on every path")
	reg("C27", rC27, "effects of Load on every path (atomic read only), provenance of its result; every published pointer is a fresh variable not written afterwards")
	reg("C41", rC41, "compare-and-swap protocol of the list on every path of Push, Pop, Close and New: who writes next, tail, head and closed, with what; closed read before the last look at the list")
	reg("C45", rC45, "linearization points on every path of Push and Pop: one compare-and-swap on the next of the last node, one on the head towards the node that follows it, and a look at a head without a next")
	reg("C42", rC42, "operations on the limit channel on every path: taken once before linking, given back once after unlinking without blocking, its capacity and when it exists")
}
