package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C46: no data races between the calls the documentation allows at once, and no deadlock on the library's own locks.
//
// Every path of every exported function and of the goroutines it starts is reduced to its accesses to variables others
// may reach, each with the locks held, the Onces it is inside of or after, and what orders it with others. Accesses of
// different threads to one variable, one of them a write, need something that keeps them apart.

// place names a variable by how it is reached: the owner's type or the package variable, and the fields from there.
type place struct {
	root string
	path []*types.Var
	elem bool // an element of the slice or map in it
}

func (p place) String() string {
	s := p.root
	for _, v := range p.path {
		s += "." + v.Name()
	}
	if p.elem {
		s += "[...]"
	}
	return s
}

func (p place) overlaps(q place) bool {
	if p.root != q.root {
		return false
	}
	n := len(p.path)
	if len(q.path) < n {
		n = len(q.path)
	}
	for i := 0; i < n; i++ {
		if p.path[i] != q.path[i] {
			return false
		}
	}
	if len(p.path) == len(q.path) {
		return p.elem == q.elem
	}
	if len(p.path) < len(q.path) {
		return !p.elem
	}
	return !q.elem
}

// cellAcc is one access.
type cellAcc struct {
	at     place
	base   *Term // what the fields are counted from
	root   *Term
	write  bool
	locks  map[*Term]string
	in     map[string]bool // Onces whose function is running
	after  map[string]bool // Onces known to have run
	acq    map[*Term]bool  // channels received from and WaitGroups waited for before
	rel    map[*Term]bool  // channels sent to or closed and WaitGroups signed off after
	owner  bool            // by a call only the owner makes, once at a time, to a variable of the receiver itself
	fresh  bool            // the variable was made by the call itself
	body   *Event          // the start of the goroutine, nil in the call itself
	bodies map[*Event]bool // goroutines started before, by the call itself
	multi  bool            // several goroutines may do this at once
	entry  *ssa.Function
	ev     *Event
}

type races struct {
	c       *Check
	accs    []*cellAcc
	seen    map[string]bool
	written map[*types.Var]bool
	bound   map[ssa.Value]bool // variables used by a closure or goroutine
	order   map[string]map[string]string
}

// ownerOnly: calls that the documentation leaves to the owner, when nothing else is called.
func ownerOnly(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	n, _ := types.Unalias(deref(r.Type())).(*types.Named)
	if n == nil {
		return false
	}
	switch n.Obj().Name() + "." + f.Name() {
	case "Group.Wait", "RequestGroup.Close", "Pipelines.Close", "Pool.Close", "Queue.Close":
		return true
	}
	return false
}

func (r *races) placeOf(a *Term) (place, *Term, bool) {
	var path []*types.Var
	elem := false
	for {
		switch a.K {
		case KFieldAddr:
			if v, ok := a.Ref.(*types.Var); ok {
				path = append([]*types.Var{v.Origin()}, path...)
			}
			a = a.Args[0]
			continue
		case KIndexAddr:
			// an element of what is stored in a variable
			path, elem = nil, true
			x := a.Args[0]
			for x.K == KSlice || x.K == KHavoc && len(x.Args) > 0 && x.Args[0].K != KFieldAddr && x.Args[0].K != KGlobal && x.Args[0].K != KAlloc {
				x = x.Args[0]
			}
			if (x.K == KLoad || x.K == KHavoc) && len(x.Args) > 0 {
				a = x.Args[0]
				continue
			}
			if x.K == KAlloc || x.K == KFieldAddr {
				a = x
				continue
			}
			return place{}, nil, false
		}
		break
	}
	switch a.K {
	case KGlobal:
		return place{root: a.Op, path: path, elem: elem}, a, true
	case KParam, KLoad, KHavoc:
		if a.T == nil {
			return place{}, nil, false
		}
		n, _ := types.Unalias(deref(a.T)).(*types.Named)
		if n == nil {
			return place{}, nil, false
		}
		return place{root: n.Obj().Pkg().Path() + "." + n.Obj().Name(), path: path, elem: elem}, a, n.Obj().Pkg() != nil && r.c.L.isModPkg(n.Obj().Pkg().Path())
	case KMakeMap:
		return place{root: "map made at " + a.Op, path: path, elem: elem}, a, true
	case KAlloc:
		if n, _ := types.Unalias(a.T).(*types.Named); n != nil && n.Obj().Pkg() != nil && structOf(n) != nil && r.c.L.isModPkg(n.Obj().Pkg().Path()) {
			return place{root: n.Obj().Pkg().Path() + "." + n.Obj().Name(), path: path, elem: elem}, a, true
		}
		return place{root: fmt.Sprintf("variable at %s", r.c.L.pos(a.Ref.(ssa.Instruction))), path: path, elem: elem}, a, true
	}
	return place{}, nil, false
}

// heldAddr: what the pointer chain of an address starts at.
func reachedFrom(a *Term) *Term {
	for {
		switch a.K {
		case KFieldAddr, KIndexAddr, KSlice, KLoad, KHavoc:
			if len(a.Args) == 0 {
				return a
			}
			a = a.Args[0]
			continue
		}
		return a
	}
}

func (r *races) keep(e *Event) bool {
	a := e.Args[0]
	for x := a; ; x = x.Args[0] {
		if x.K == KFieldAddr {
			if v, ok := x.Ref.(*types.Var); ok && r.written[v.Origin()] {
				return true
			}
		}
		if x.K != KFieldAddr && x.K != KIndexAddr {
			if x.K == KGlobal {
				return true
			}
			if x.K == KAlloc {
				v, ok := x.Ref.(ssa.Value)
				return ok && r.bound[v]
			}
			if x.K == KLoad || x.K == KHavoc {
				return a.K == KIndexAddr
			}
			return false
		}
	}
}

// scan finds the fields written anywhere but in a variable the function itself makes, and the variables closures use.
func (r *races) scan() {
	r.written = map[*types.Var]bool{}
	r.bound = map[ssa.Value]bool{}
	var all []*ssa.Function
	for _, f := range r.c.L.All {
		all = append(all, f)
	}
	for _, f := range all {
		goes := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Go); ok {
					goes = true
				}
				if m, ok := i.(*ssa.MakeClosure); ok {
					for _, x := range m.Bindings {
						r.bound[x] = true
					}
				}
				if g, ok := i.(*ssa.Go); ok {
					for _, x := range g.Call.Args {
						r.bound[x] = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var a ssa.Value
				if s, ok := i.(*ssa.Store); ok {
					a = s.Addr
				}
				if a == nil {
					continue
				}
				var vs []*types.Var
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						if st := structOf(deref(fa.X.Type())); st != nil {
							vs = append(vs, st.Field(fa.Field).Origin())
						}
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if _, ok := a.(*ssa.Alloc); ok && !goes && !r.bound[a] {
					continue
				}
				for _, v := range vs {
					r.written[v] = true
				}
				if len(vs) == 0 {
					// the whole variable
					if st := structOf(deref(a.Type())); st != nil {
						for k := 0; k < st.NumFields(); k++ {
							r.written[st.Field(k).Origin()] = true
						}
					}
				}
			}
		}
	}
}

// onceName tells Onces apart.
func (r *races) onceName(a *Term) string {
	if p, _, ok := r.placeOf(a); ok {
		return p.String()
	}
	if a.K == KLoad || a.K == KHavoc {
		if p, _, ok := r.placeOf(a.Args[0]); ok {
			return "*" + p.String()
		}
	}
	return ""
}

// thread walks one goroutine's part of a path.
func (r *races) thread(f *ssa.Function, p []*Event, body *Event, locks map[*Term]string, after map[string]bool) {
	held := map[*Term]string{}
	in := map[string]bool{}
	aft := map[string]bool{}
	for k := range after {
		aft[k] = true
	}
	acq := map[*Term]bool{}
	started := map[*Event]bool{}
	var mine []*cellAcc
	add := func(e *Event, a *Term, write, elem bool) {
		pl, base, ok := r.placeOf(a)
		if !ok {
			return
		}
		if elem {
			pl.elem = true
		}
		root := reachedFrom(a)
		x := &cellAcc{at: pl, base: base, root: root, write: write, locks: map[*Term]string{}, in: map[string]bool{}, after: map[string]bool{}, acq: map[*Term]bool{}, rel: map[*Term]bool{}, body: body, bodies: map[*Event]bool{}, entry: f, ev: e}
		for k, v := range held {
			x.locks[k] = v
		}
		for k := range in {
			x.in[k] = true
		}
		for k := range aft {
			x.after[k] = true
		}
		for k := range acq {
			x.acq[k] = true
		}
		for k := range started {
			x.bodies[k] = true
		}
		mine = append(mine, x)
		x.fresh = root.K == KAlloc || root.K == KMakeMap
		if body == nil {
			if x.fresh {
				// made by the call itself: others see it only in what the call has started
				if len(started) == 0 {
					return
				}
			} else {
				x.owner = ownerOnly(f) && base == root && root.K == KParam
				x.multi = !x.owner
			}
		} else {
			switch {
			case x.fresh && strings.HasPrefix(root.Op, body.Site+"/go"):
				return // the goroutine's own
			case x.fresh:
				s, t := body.Site, root.Op
				i := 0
				for i < len(s) && i < len(t) && s[i] == t[i] {
					i++
				}
				x.multi = strings.Contains(s[i:], "@")
			default:
				x.multi = !(ownerOnly(f) && base == root)
			}
		}
		r.accs = append(r.accs, x)
	}
	for _, e := range p {
		for _, x := range mine {
			switch {
			case e.Kind == "close" || e.Kind == "send":
				x.rel[e.Args[0]] = true
			case e.Kind == "wg.add":
				if d, ok := delta(e); !ok || d < 0 {
					x.rel[e.Args[0]] = true
				}
			}
		}
		switch e.Kind {
		case "lock", "rlock":
			to, ok := r.lockName(e.Args[0])
			for h := range held {
				from, ok2 := r.lockName(h)
				if ok && ok2 && h != e.Args[0] {
					if r.order[from] == nil {
						r.order[from] = map[string]string{}
					}
					r.order[from][to] = r.c.evAt(e)
				}
			}
			held[e.Args[0]] = map[string]string{"lock": "w", "rlock": "r"}[e.Kind]
		case "unlock", "runlock":
			delete(held, e.Args[0])
		case "once.run":
			in[r.onceName(e.Args[0])] = true
		case "once.end":
			n := r.onceName(e.Args[0])
			delete(in, n)
			aft[n] = true
		case "once.skip":
			aft[r.onceName(e.Args[0])] = true
		case "recv", "wg.wait", "wait.wait":
			acq[e.Args[0]] = true
		case "load":
			add(e, e.Args[0], false, false)
		case "store":
			add(e, e.Args[0], true, false)
		case "mapget", "next", "mapset", "mapdel", "clear":
			if m := e.Args[0]; m.K == KLoad || m.K == KHavoc {
				add(e, m.Args[0], e.Kind != "mapget" && e.Kind != "next", true)
			} else if m.K == KMakeMap {
				add(e, m, e.Kind != "mapget" && e.Kind != "next", true)
			}
		case "go", "async", "wait.go":
			started[e] = true
			for _, b := range e.Bodies {
				r.thread(f, b.Events, e, nil, aft)
			}
		}
	}
}

func (r *races) lockName(a *Term) (string, bool) {
	p, _, ok := r.placeOf(a)
	return p.String(), ok
}

// guards: the lock belongs to the object the variable is in, or was made by the same call.
func (r *races) guards(l *Term, a *cellAcc) bool {
	lr := l.root()
	if lr.K == KAlloc && a.root.K == KAlloc && (a.body == nil || !strings.HasPrefix(lr.Op, a.body.Site+"/go")) {
		return true
	}
	b := a.base
	for {
		if lr == b {
			return true
		}
		// what a field of the object alone points to
		if (b.K == KLoad || b.K == KHavoc) && len(b.Args) > 0 && b.Args[0].K == KFieldAddr {
			if v, ok := b.Args[0].Ref.(*types.Var); ok && r.owned(v.Origin()) {
				b = b.Args[0].root()
				continue
			}
		}
		return false
	}
}

// owned: the field only ever gets the address of a variable made for it.
func (r *races) owned(v *types.Var) bool {
	n := 0
	for _, f := range r.c.L.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if st := structOf(deref(fa.X.Type())); st == nil || st.Field(fa.Field).Origin() != v {
					continue
				}
				n++
				if _, ok := s.Val.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return n > 0
}

// protect says what keeps two accesses apart.
func (r *races) protect(a, b *cellAcc) string {
	for l, m := range a.locks {
		ln, ok := r.lockName(l)
		if !ok || m == "r" && a.write {
			continue
		}
		for k, n := range b.locks {
			kn, ok := r.lockName(k)
			if !ok || kn != ln || n == "r" && b.write {
				continue
			}
			if m == "r" && n == "r" {
				continue
			}
			if l.root().K == KGlobal || r.guards(l, a) && r.guards(k, b) {
				return "lock"
			}
		}
	}
	once := func(x, y *cellAcc) bool {
		for o := range x.in {
			if o != "" && (y.in[o] || y.after[o]) {
				return true
			}
		}
		return false
	}
	if once(a, b) || once(b, a) {
		return "once"
	}
	// what the owner does comes after what signed off before it
	order := func(x, y *cellAcc) bool { // x before y
		for ch := range x.rel {
			if y.acq[ch] {
				return true
			}
			for w := range y.acq {
				if w.K == KFieldAddr && ch.K == KFieldAddr && w.Ref == ch.Ref && (x.body != nil || x.root == y.root) {
					return true
				}
			}
		}
		return false
	}
	if !a.multi || !b.multi {
		if (a.owner || a.fresh) && order(b, a) || (b.owner || b.fresh) && order(a, b) {
			return "waited for"
		}
	}
	return ""
}

// together: the two accesses can be those of two goroutines to one variable.
func (r *races) together(a, b *cellAcc) bool {
	if a == b {
		return a.multi
	}
	if a.owner && b.owner {
		return false
	}
	if a.body == nil && b.body == nil {
		if a.fresh || b.fresh || a.owner || b.owner {
			return false // its own variable, or left to the owner
		}
		return true
	}
	// the call itself and what it started
	if a.entry == b.entry {
		for _, x := range [][2]*cellAcc{{a, b}, {b, a}} {
			c, g := x[0], x[1]
			if c.body == nil && g.body != nil {
				if c.fresh && g.fresh {
					return c.root == g.root && c.bodies[g.body]
				}
				if c.owner && c.root == g.root {
					return c.bodies[g.body]
				}
			}
		}
		if a.body != nil && a.body == b.body && !a.multi && !b.multi {
			return false // one goroutine
		}
	}
	if a.fresh && b.fresh && a.entry == b.entry && a.body != nil && b.body != nil {
		if a.root != b.root {
			return false
		}
		if a.body.Instr == b.body.Instr && !a.multi {
			return a.body != b.body && a.body.Site != b.body.Site
		}
	}
	if a.fresh && a.body == nil && a.entry != b.entry || b.fresh && b.body == nil && a.entry != b.entry {
		return false
	}
	return true
}

func rC46(c *Check) {
	r := &races{c: c, seen: map[string]bool{}, order: map[string]map[string]string{}}
	r.scan()
	drop := func(e *Event) bool {
		if e.Kind == "load" || e.Kind == "store" {
			return !r.keep(e)
		}
		return strings.HasPrefix(e.Kind, "atomic.")
	}
	type set struct {
		rel string
		cfg Config
		in  func(*ssa.Function) bool
	}
	acc := accessCfg(c.L)
	acc.OnceEnd, acc.Drop = true, drop
	var isReq func(types.Type) bool
	s := &staged{c: c}
	_ = s
	isReq = func(t types.Type) bool {
		n, _ := types.Unalias(t).(*types.Named)
		return n != nil && n.Origin() == c.typ(relStaged, "Request")
	}
	st := Config{RecordLoads: true, OnceEnd: true, Cut: true, Coarse: true, Drop: drop, Carry: isReq}
	plain := Config{RecordLoads: true, OnceEnd: true, Drop: drop}
	for _, x := range []set{
		{relGor, plain, nil}, {relReg, plain, nil}, {relLim, plain, nil}, {relPool, plain, nil},
		{relAtomics, plain, nil}, {relQueue, plain, nil},
		{relWait, Config{RecordLoads: true, OnceEnd: true, Drop: drop, Async: asyncSubmit()}, nil},
		{relSlices, acc, nil}, {relChans, acc, nil}, {relStaged, st, nil},
	} {
		n := len(r.accs)
		fs := 0
		for _, f := range c.L.exported(x.rel) {
			fs++
			e := c.eng(x.cfg)
			_, ps := c.run(e, f)
			c.lockDiscipline(f, ps)
			for _, p := range ps {
				r.thread(f, p.Events, nil, nil, nil)
				walkEvents(p.Events, func(ev *Event) {
					for _, b := range ev.Bodies {
						if ev.Kind == "go" {
							c.lockDiscipline(f, []*Path{b})
						}
					}
				})
			}
		}
		c.need(fs > 0, "anchor", "package %s has exported functions", x.rel)
		_ = n
	}
	r.judge()
	r.lockOrder()
}

func (r *races) judge() {
	c := r.c
	groups := map[string][]*cellAcc{}
	for _, a := range r.accs {
		groups[a.at.root] = append(groups[a.at.root], a)
	}
	if os.Getenv("RACES") != "" {
		m := map[string]int{}
		for _, a := range r.accs {
			m[fmt.Sprintf("%s %s %s body=%v multi=%v owner=%v fresh=%v locks=%d in=%d", a.at, rw(a), a.entry.Name(), a.body != nil, a.multi, a.owner, a.fresh, len(a.locks), len(a.in))]++
		}
		for _, k := range sortedKeys(m) {
			fmt.Println(m[k], k)
		}
	}
	for _, k := range sortedKeys(groups) {
		// the accesses to one place next to each other, so that only places that overlap are compared
		at := map[string][]*cellAcc{}
		for _, a := range groups[k] {
			n := fmt.Sprintf("%s %v", a.at, a.at.elem)
			for _, v := range a.at.path {
				n += fmt.Sprintf(" %d", v.Pos())
			}
			at[n] = append(at[n], a)
		}
		names := sortedKeys(at)
		done := map[string]bool{}
		for i, n := range names {
			for _, m := range names[i:] {
				if !at[n][0].at.overlaps(at[m][0].at) {
					continue
				}
				for i, a := range at[n] {
					g := at[m]
					if n == m {
						g = g[i:]
					}
					for _, b := range g {
						if !a.write && !b.write || !r.together(a, b) {
							continue
						}
						why := r.protect(a, b)
						id := c.evAt(a.ev) + "|" + c.evAt(b.ev) + "|" + why
						if done[id] {
							continue
						}
						done[id] = true
						c.ob(why != "", "two goroutines never access a variable of the library at once, unless both read", c.evAt(a.ev), "%s: %s here and %s at %s; kept apart by: %s", a.at, rw(a), rw(b), c.evAt(b.ev), why)
					}
				}
			}
		}
	}
}

func rw(a *cellAcc) string {
	if a.write {
		return "write"
	}
	return "read"
}

// lockOrder: no cycle among the locks taken while others are held.
func (r *races) lockOrder() {
	var keys []string
	for k := range r.order {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, t := range sortedKeys(r.order[k]) {
			seen := map[string]bool{}
			var reach func(x string) bool
			reach = func(x string) bool {
				if x == k {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for y := range r.order[x] {
					if reach(y) {
						return true
					}
				}
				return false
			}
			r.c.ob(!reach(t), "locks are always taken in the same order", r.order[k][t], "%s while %s is held", t, k)
		}
	}
}

func init() {
	reg("C46", rC46, "Every access to a variable others can reach, on every path of every exported function and of the goroutines it starts, with the locks held, the Onces passed and the waits made; two accesses by goroutines that may run at once need a common lock, Once or wait unless both read; locks are released, not taken twice and taken in one order.")
}
