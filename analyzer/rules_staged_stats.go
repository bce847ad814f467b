package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The statistics: which cells Stats() reads decides what the cells mean; the workers are then followed to see what they
// do to those cells for each request.

// timed is staged.model for the rules about durations: readings of the clock become events and known values.
func timed(s *staged) func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
	return func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
		at := mkConst("site:"+site, nil)
		var r *Term
		switch name {
		case "time.Now":
			r = mkPure("now", nil, at)
		case "time.Since":
			r = mkPure("since", types.Typ[types.Int64], args[0], at)
		case "(time.Time).Sub":
			return []callOut{{st: st, res: mkPure("sub", types.Typ[types.Int64], args[0], args[1])}}
		case "(time.Duration).Nanoseconds":
			return []callOut{{st: st, res: args[0]}}
		default:
			return nil
		}
		st.ev(&Event{Kind: "clock", Name: name, Args: args, Res: []*Term{r}, Fn: fr.fn, Instr: ins, Site: site})
		return []callOut{{st: st, res: r}}
	}
}

// cells Stats reads.
type statCells struct {
	running, completed string
	ext                [4]string // Min, Max, IngestStats.Min, IngestStats.Max
	avg                [2]string // sums Avg and IngestStats.Avg are computed from
	none               [4]*Term  // what the cell holds before anything was recorded
	vars               map[string]*types.Var
}

var extNames = [4]string{"Min", "Max", "IngestStats.Min", "IngestStats.Max"}

// stats runs Stats.
func (s *staged) stats() *statCells {
	c := s.c
	f := c.method(relStaged, "Pipelines", "Stats")
	e := c.eng(s.cfg())
	_, ps := c.run(e, f)
	s.learn(ps)
	sc := &statCells{vars: map[string]*types.Var{}}
	st := c.typ(relStaged, "Stats")
	it := c.typ(relStaged, "IngestStats")
	get := func(v *Term, path string) *Term {
		t := st
		for _, n := range strings.Split(path, ".") {
			is := fieldsOf(t, nameIs(n))
			c.need(len(is) == 1, "anchor", "%s has field %s", t.Obj().Name(), n)
			v = mkField(v, is[0], t)
			t = it
		}
		return v
	}
	// the cell a value was read from on this path
	cellOf := func(p *Path, v *Term) (string, *Event) {
		for _, x := range p.Events {
			if x.Kind == "atomic.load" && x.Res[0] == v {
				n := s.sym(x.Args[0])
				if fv, ok := x.Args[0].Ref.(*types.Var); ok && x.Args[0].K == KFieldAddr {
					sc.vars[n] = fv.Origin()
				}
				return n, x
			}
		}
		return "", nil
	}
	same := func(old *string, n, what, at string) {
		c.ob(n != "" && strings.HasPrefix(n, "P.") && (*old == "" || *old == n), what+" is one atomic cell of the Pipelines", at, "it is %q", n)
		if n != "" {
			*old = n
		}
	}
	var rets []*Path
	for _, p := range ps {
		at := c.pathAt(f, p)
		if p.Kind != OReturn || len(p.Results) != 1 {
			c.ob(false, "Stats returns", at, "a path ends otherwise")
			continue
		}
		rets = append(rets, p)
		n, _ := cellOf(p, get(p.Results[0], "Running"))
		same(&sc.running, n, "Running", at)
		n, _ = cellOf(p, get(p.Results[0], "Completed"))
		same(&sc.completed, n, "Completed", at)
		for i, w := range extNames {
			v := get(p.Results[0], w)
			if n, _ := cellOf(p, v); n != "" {
				same(&sc.ext[i], n, w, at)
			}
		}
		for i, w := range []string{"Avg", "IngestStats.Avg"} {
			v := get(p.Results[0], w)
			if v.K == KBin && v.Op == "/" {
				n, _ := cellOf(p, v.Args[0])
				m, _ := cellOf(p, v.Args[1])
				if c.Prop == "C44" {
					same(&sc.avg[i], n, "the sum for "+w, at)
					c.ob(m == sc.completed, w+" is the sum divided by Completed", at, "divided by %q", m)
				}
			} else if c.Prop == "C44" {
				// 0 when nothing was completed
				ok := false
				for _, x := range p.Events {
					if x.Kind == "atomic.load" && s.sym(x.Args[0]) == sc.completed {
						b, known := p.Facts.Eval(mkBin("==", x.Res[0], mkInt(0), nil))
						ok = ok || known && b
						// a count is never below 0
						b, known = p.Facts.Eval(mkBin("<", mkInt(0), x.Res[0], nil))
						ok = ok || known && !b
					}
				}
				z, isZ := v.intConst()
				c.ob(ok && (isZ && z == 0 || isZeroTerm(v)), w+" is the sum divided by Completed", at, "it is %s", v)
			}
		}
	}
	c.need(sc.running != "" && sc.completed != "", "role: statistics", "Stats reads Running and Completed")
	c.need(sc.running != sc.completed, "role: statistics", "Running and Completed are different cells")
	seen := map[string]bool{sc.running: true, sc.completed: true}
	for i, w := range extNames {
		c.need(sc.ext[i] != "", "role: statistics", "Stats reads %s", w)
		c.ob(!seen[sc.ext[i]], "each statistic has its own cell", c.at(f), "%s shares %s", w, sc.ext[i])
		seen[sc.ext[i]] = true
	}
	for i := range sc.avg {
		if c.Prop == "C44" {
			c.need(sc.avg[i] != "", "role: statistics", "Stats reads the sums")
			c.ob(!seen[sc.avg[i]], "each statistic has its own cell", c.at(f), "%s is shared", sc.avg[i])
			seen[sc.avg[i]] = true
		}
	}
	if c.Prop != "C37" {
		return sc
	}
	// what the cells hold at first
	for i := range sc.ext {
		sc.none[i] = s.initial(sc.ext[i])
	}
	// and what Stats makes of it
	for _, p := range rets {
		at := c.pathAt(f, p)
		for i, w := range extNames {
			v := get(p.Results[0], w)
			k, ok := sc.none[i].intConst()
			if !ok {
				continue
			}
			var ld *Term
			for _, x := range p.Events {
				if x.Kind == "atomic.load" && s.sym(x.Args[0]) == sc.ext[i] {
					if _, y := cellOf(p, v); y == x || ld == nil {
						ld = x.Res[0]
					}
				}
			}
			if ld == nil {
				c.ob(false, w+" is what was recorded", at, "its cell is not read")
				continue
			}
			b, known := p.Facts.Eval(mkBin("==", ld, sc.none[i], nil))
			if k < 0 && !known {
				b, known = p.Facts.Eval(mkBin("<", ld, mkInt(0), nil))
			}
			z, isZ := v.intConst()
			isZ = isZ && z == 0 || isZeroTerm(v)
			switch {
			case v == ld:
				c.ob(k == 0 || known && !b, w+" is 0 before anything was recorded", at, "a cell that starts as %d is returned as it is", k)
			case isZ:
				c.ob(known && b, w+" is what was recorded", at, "0 although something may have been recorded")
			default:
				c.ob(false, w+" is what was recorded", at, "it is %s", v)
			}
		}
	}
	return sc
}

// initial is what a cell of the Pipelines holds when New returns it.
func (s *staged) initial(cell string) *Term {
	c := s.c
	var r *Term
	for _, p := range s.newP {
		if p.Kind != OReturn || len(p.Results) != 2 || p.Results[0] == tNil {
			continue
		}
		at := c.pathAt(s.newF, p)
		v := mkInt(0)
		started := false
		for _, e := range p.Events {
			switch {
			case e.Kind == "go":
				started = true
			case strings.HasPrefix(e.Kind, "atomic.") && e.Kind != "atomic.load" && s.sym(e.Args[0]) == cell:
				c.ob(!started && e.Kind == "atomic.store", "statistics start empty", at, "%s of %s at %s", e.Kind, cell, c.L.pos(e.Instr))
				if e.Kind == "atomic.store" {
					v = e.Args[1]
				}
			}
		}
		_, ok := v.intConst()
		c.ob(ok && (r == nil || r == v), "statistics start empty", at, "%s starts as %s", cell, v)
		r = v
	}
	c.need(r != nil, "role: statistics", "New returns a Pipelines")
	return r
}

// recording of an extreme.
type extRec struct {
	x      *Term // what was read last
	failed bool
	vals   []map[*Term]bool // what was recorded, one set of possible values per recording
	bad    string
}

type statWalk struct {
	s    *staged
	sc   *statCells
	at   string
	p    *Path
	emit bool
	done map[string]map[*Term]bool // what a loop recorded once its variable changed, nil if it may not have
}

func (w *statWalk) ob(ok bool, rule, f string, args ...any) bool {
	if w.emit {
		w.s.c.ob(ok, rule, w.at, f, args...)
	}
	return ok
}

func meet(a, b map[*Term]bool) map[*Term]bool {
	x := map[*Term]bool{}
	for t := range a {
		if b[t] {
			x[t] = true
		}
	}
	return x
}

// less tells whether a < b is known.
func (w *statWalk) less(a, b *Term) (bool, bool) {
	if v, ok := w.p.Facts.Eval(mkBin("<", a, b, nil)); ok {
		return v, true
	}
	if v, ok := w.p.Facts.Eval(mkBin("<", b, a, nil)); ok && v {
		return false, true
	}
	if v, ok := w.p.Facts.Eval(mkBin("==", a, b, nil)); ok && v {
		return false, true
	}
	return false, false
}

// settle ends a recording that did not change the cell.
func (w *statWalk) settle(i int, r *extRec) {
	if r.x == nil {
		return
	}
	x := r.x
	r.x = nil
	max := i%2 == 1
	set := map[*Term]bool{}
	for f := w.p.Facts; f != nil; f = f.prev {
		t := f.t
		for t.K == KUn && t.Op == "!" {
			t = t.Args[0]
		}
		if t.K != KBin || len(t.Args) != 2 || t.Op != "<" && t.Op != "==" {
			continue
		}
		for j := range t.Args {
			if t.Args[j] != x {
				continue
			}
			v := t.Args[1-j]
			a, b := v, x
			if max {
				a, b = x, v
			}
			if l, ok := w.less(a, b); ok && !l {
				set[v] = true
			}
		}
	}
	if len(set) == 0 {
		return // nothing was decided
	}
	if k, ok := w.sc.none[i].intConst(); ok {
		// the cell may be empty
		extreme := !max && w.top(w.sc.none[i]) || max && k <= 0
		if !extreme {
			b, known := w.p.Facts.Eval(mkBin("==", x, w.sc.none[i], nil))
			l, lk := w.p.Facts.Eval(mkBin("<", x, mkInt(0), nil))
			if !(known && !b || lk && !l) {
				r.bad = "the first duration may be ignored"
			}
		}
	}
	r.vals = append(r.vals, set)
}

func (w *statWalk) top(t *Term) bool { return t.K == KConst && t.Op == "9223372036854775807" }

// cas records a change.
func (w *statWalk) cas(i int, r *extRec, e *Event) {
	if e.Res[0] == tFalse {
		r.failed, r.x = true, nil
		return
	}
	if len(e.Args) < 3 || r.x == nil || e.Args[1] != r.x {
		r.bad = "it is replaced by CompareAndSwap without having been read"
		return
	}
	x, v := r.x, e.Args[2]
	r.x, r.failed = nil, false
	a, b := x, v // min: not x < v
	if i%2 == 1 {
		a, b = v, x
	}
	ok := false
	if l, known := w.less(a, b); known && !l {
		ok = true
	}
	if eq, known := w.p.Facts.Eval(mkBin("==", x, w.sc.none[i], nil)); known && eq {
		k, isC := w.sc.none[i].intConst()
		ok = ok || w.top(w.sc.none[i]) || isC && (k < 0 || i%2 == 1 && k == 0)
	}
	if k, isC := w.sc.none[i].intConst(); isC && k < 0 {
		if l, known := w.p.Facts.Eval(mkBin("<", x, mkInt(0), nil)); known && l {
			ok = true
		}
	}
	if !ok {
		r.bad = "it is replaced by a value not known to be more extreme"
	}
	r.vals = append(r.vals, map[*Term]bool{v: true})
}

func (w *statWalk) walk(b *Path) {
	s, c, sc := w.s, w.s.c, w.sc
	w.p = b
	on := false
	running, completed := int64(0), int64(0)
	var avg [2][]*Term
	var rec [4]*extRec
	type loopHead struct {
		running, completed, avg int64
		alias                   [4]*Term
		n                       [4]int
	}
	heads := map[string]loopHead{}
	depth := map[string]bool{}
	var recvT *Term
	clock := map[*Term]int{}  // index of clock readings
	nowOK := map[*Term]bool{} // readings taken before the first stage
	lastStage, firstStage := -1, -1
	reset := func() {
		running, completed = 0, 0
		avg = [2][]*Term{}
		for i := range rec {
			rec[i] = &extRec{}
		}
		clock, nowOK, depth = map[*Term]int{}, map[*Term]bool{}, map[string]bool{}
		lastStage, firstStage = -1, -1
	}
	reset()
	for n, e := range b.Events {
		at := c.L.pos(e.Instr)
		switch e.Kind {
		case "recv":
			if s.sym(e.Args[0]) != s.in {
				continue
			}
			reset()
			on = e.Res[1] == tTrue
			recvT = e.Res[0]
		case "clock":
			clock[e.Res[0]] = n
			if e.Name == "time.Now" && len(depth) == 0 && firstStage < 0 {
				nowOK[e.Res[0]] = true
			}
		case "invoke":
			if s.reqArg(e) == nil {
				continue
			}
			if firstStage < 0 {
				firstStage = n
			}
			lastStage = n
			if c.Prop == "C37" {
				w.ob(running == 1 && completed == 0, "a request counts as running from before its first stage", "running changed by %+d and completed by %+d when something is called at %s", running, completed, at)
			}
		case "loop":
			h := loopHead{running: running, completed: completed, avg: int64(len(avg[0]) + len(avg[1]))}
			for i, r := range rec {
				for j := 0; j+1 < len(e.Args); j += 2 {
					lv := e.Args[j]
					if r.x != nil && e.Args[j+1] == r.x {
						h.alias[i] = lv
					}
					if b0, ok := constBool(e.Args[j+1]); ok {
						if b, ok := b.Facts.Eval(lv); ok && b != b0 {
							if set := w.done[doneKey(e.Name, lv, i)]; len(set) > 0 {
								r.vals = append(r.vals, set)
								r.failed, r.x = false, nil
							}
						}
					}
				}
				if h.alias[i] != nil {
					r.x = h.alias[i]
				}
				h.n[i] = len(r.vals)
			}
			heads[e.Name] = h
			if on {
				depth[e.Name] = true
			}
		case "loopexit":
			delete(depth, e.Name)
		case "cut":
			h := heads[e.Name]
			for i, r := range rec {
				for j := 0; j+1 < len(e.Args); j += 2 {
					lv, v := e.Args[j], e.Args[j+1]
					if lv == h.alias[i] && v != r.x && v != lv {
						w.ob(false, "an extreme is compared with what was read last", "%s at %s", extNames[i], at)
					}
					if bv, ok := constBool(v); ok && h.alias[i] == nil {
						init := w.init(b, e.Name, lv)
						b0, ok := constBool(init)
						if !ok || bv == b0 {
							continue
						}
						k := doneKey(e.Name, lv, i)
						x := *r
						w.settle(i, &x)
						set := map[*Term]bool{}
						if len(x.vals) > h.n[i] && !x.failed && x.bad == "" {
							set = x.vals[h.n[i]]
						}
						if old, ok := w.done[k]; ok {
							set = meet(old, set)
						}
						w.done[k] = set
					}
				}
			}
			if depth[e.Name] && c.Prop == "C37" {
				w.ob(h.running == running && h.completed == completed, "a request is counted once", "running changes by %+d and completed by %+d in a round of the loop at %s", running-h.running, completed-h.completed, at)
			}
			if depth[e.Name] && c.Prop == "C44" {
				w.ob(h.avg == int64(len(avg[0])+len(avg[1])), "each duration is added to its sum once", "in a round of the loop at %s", at)
			}
		case "atomic.load":
			for i := range rec {
				if s.sym(e.Args[0]) == sc.ext[i] && c.Prop == "C37" {
					w.settle(i, rec[i])
					rec[i].x, rec[i].failed = e.Res[0], false
				}
			}
		case "atomic.add", "atomic.store", "atomic.swap", "atomic.cas", "atomic.other":
			cell := s.sym(e.Args[0])
			d := int64(0)
			if cell == sc.running || cell == sc.completed {
				ok := false
				if e.Kind == "atomic.add" {
					d, ok = wrap64(e.Args[1])
				}
				if c.Prop == "C37" {
					w.ob(ok, "Running and Completed are only counted", "%s at %s", e.Kind, at)
					w.ob(on, "Running and Completed change only while a request is processed", "at %s", at)
				}
			}
			if cell == sc.running {
				running += d
			}
			if cell == sc.completed {
				completed += d
			}
			for i := range sc.avg {
				if c.Prop == "C44" && cell == sc.avg[i] {
					w.ob(e.Kind == "atomic.add" && on, "sums are only added to, while a request is processed", "%s at %s", e.Kind, at)
					if e.Kind == "atomic.add" {
						avg[i] = append(avg[i], e.Args[1])
					}
				}
			}
			for i := range rec {
				if cell != sc.ext[i] || c.Prop != "C37" {
					continue
				}
				if e.Kind == "atomic.cas" {
					w.ob(on, "durations are recorded while a request is processed", "at %s", at)
					w.cas(i, rec[i], e)
				} else {
					w.ob(false, "an extreme is only changed by compare and swap", "%s of %s at %s", e.Kind, extNames[i], at)
				}
			}
		case "send":
			if s.sym(e.Args[0]) != s.out || !on {
				continue
			}
			on = false
			if c.Prop == "C44" {
				for i := range avg {
					ok := len(avg[i]) == 1
					w.ob(ok, "each duration is added to its sum once", "%d times before it is sent at %s", len(avg[i]), at)
					if ok {
						w.ob(w.duration(avg[i][0], i == 1, recvT, clock, nowOK, firstStage, lastStage), "what is recorded is the duration", "%s is recorded", avg[i][0])
					}
				}
				continue
			}
			w.ob(running == 0, "a request does not count as running once it was delivered", "running changed by %+d when it is sent at %s", running, at)
			w.ob(completed == 1, "a request is counted as completed once", "completed changed by %+d when it is sent at %s", completed, at)
			for i := 0; i < 4; i += 2 {
				var common map[*Term]bool
				ok := true
				for j := i; j < i+2; j++ {
					r := rec[j]
					w.settle(j, r)
					w.ob(r.bad == "", "an extreme is replaced exactly when a more extreme duration was recorded", "%s: %s", extNames[j], r.bad)
					w.ob(!r.failed, "a lost race to replace an extreme is repeated", "%s: nothing is recorded when the swap fails", extNames[j])
					if r.failed || r.bad != "" {
						ok = false
						continue
					}
					ok = w.ob(len(r.vals) > 0, "each request's durations are recorded", "%s is not looked at before it is sent at %s", extNames[j], at) && ok
					for _, set := range r.vals {
						if common == nil {
							common = set
							continue
						}
						common = meet(common, set)
					}
				}
				if !ok {
					continue
				}
				good := false
				for v := range common {
					good = good || w.duration(v, i == 2, recvT, clock, nowOK, firstStage, lastStage)
				}
				w.ob(good, "what is recorded is the duration", "for %s and %s no one duration of the request is compared", extNames[i], extNames[i+1])
			}
		}
	}
}

func doneKey(loop string, lv *Term, i int) string { return fmt.Sprintf("%s|%d|%d", loop, lv.id, i) }

// init is what a loop variable is when the loop is entered on the path.
func (w *statWalk) init(b *Path, loop string, lv *Term) *Term {
	for _, e := range b.Events {
		if e.Kind == "loop" && e.Name == loop {
			for j := 0; j+1 < len(e.Args); j += 2 {
				if e.Args[j] == lv {
					return e.Args[j+1]
				}
			}
		}
	}
	return nil
}

// duration: v is the time a request took in the stages, or (ingest) waited before.
func (w *statWalk) duration(v *Term, ingest bool, recv *Term, clock map[*Term]int, nowOK map[*Term]bool, first, last int) bool {
	s := w.s
	v = s.norm(v)
	if v.K != KPure || v.Op != "since" && v.Op != "sub" {
		return false
	}
	var from *Term
	end := -1
	if v.Op == "since" {
		n, ok := clock[v]
		if !ok {
			return false
		}
		from, end = v.Args[0], n
	} else {
		n, ok := clock[s.norm(v.Args[0])]
		if !ok {
			return false
		}
		from, end = v.Args[1], n
	}
	from = s.norm(from)
	if ingest {
		if first >= 0 && end > first {
			return false
		}
		for i, t := range s.queued() {
			if t && s.field(recv, i) == from {
				return true
			}
		}
		return false
	}
	return nowOK[from] && end > last
}

// queued: the fields Submit sets to the time.
func (s *staged) queued() []bool {
	r := make([]bool, structOf(s.reqT).NumFields())
	for i := range r {
		n := 0
		ok := true
		for _, p := range s.subP {
			for _, e := range evs(p.Events, "send") {
				if s.isReqVal(e.Args[1]) {
					n++
					v := s.field(e.Args[1], i)
					ok = ok && v.K == KPure && v.Op == "now"
				}
			}
		}
		r[i] = ok && n > 0
	}
	return r
}

func rStats(s *staged) {
	c := s.c
	sc := s.stats()
	if c.Prop == "C37" {
		for _, cell := range []string{sc.running, sc.completed} {
			z, ok := s.initial(cell).intConst()
			c.ob(ok && z == 0, "Running and Completed start at 0", c.at(s.newF), "%s starts otherwise", cell)
		}
	} else {
		for _, cell := range sc.avg {
			z, ok := s.initial(cell).intConst()
			c.ob(ok && z == 0, "sums start at 0", c.at(s.newF), "%s starts otherwise", cell)
		}
	}
	n := 0
	done := map[string]map[*Term]bool{}
	for _, emit := range []bool{false, true} {
		for _, g := range s.workers {
			for _, b := range g.Bodies {
				w := &statWalk{s: s, sc: sc, at: c.evAt(g), done: done, emit: emit}
				if b.End != nil {
					w.at += ", path ending at " + c.L.pos(b.End)
				}
				w.walk(b)
				n++
			}
		}
	}
	c.need(n > 0, "role: workers", "workers have paths")
	// nobody else changes the cells
	for cell, v := range sc.vars {
		s.cellOnly(v, cell)
	}
}

// cellOnly: outside of New and what it starts the field is only read.
func (s *staged) cellOnly(v *types.Var, cell string) {
	c := s.c
	for _, f := range c.L.All {
		if c.L.onlyFrom(f, s.newF) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || fieldVar(deref(fa.X.Type()), fa.Field).Origin() != v || fa.Referrers() == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					c.ob(s.onlyRead(r, fa, 0), "only the workers change statistics", c.at(f), "%s is used at %s", cell, c.L.pos(r))
				}
			}
		}
	}
}

// onlyRead: the instruction does no more than read what a points to.
func (s *staged) onlyRead(i ssa.Instruction, a ssa.Value, d int) bool {
	switch r := i.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return true
	case ssa.CallInstruction:
		g := r.Common().StaticCallee()
		if g == nil || d > 4 {
			return false
		}
		if strings.HasPrefix(g.Name(), "Load") && len(g.Blocks) == 0 {
			return true
		}
		for n, x := range r.Common().Args {
			if x != a {
				continue
			}
			if len(g.Blocks) == 0 || n >= len(g.Params) {
				return g.Name() == "Load"
			}
			if !s.c.L.isModPkg(pkgOf(g)) {
				return strings.HasPrefix(g.Name(), "Load")
			}
			for _, u := range *g.Params[n].Referrers() {
				if !s.onlyRead(u, g.Params[n], d+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func pkgOf(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func init() {
	reg("C37", stagedProp(rStats), "The cells Stats reads decide the roles; on every path of a worker the running cell is raised once before the first stage and lowered once before delivery, the completed cell raised once, and each extreme's cell goes through a compare-and-swap loop that replaces it exactly when the request's duration is more extreme; nothing else changes the cells.")
	reg("C44", stagedProp(rStats), "Avg is a sum cell divided by Completed; on every path of a worker the sum grows once by the request's duration before it is delivered.")
}
