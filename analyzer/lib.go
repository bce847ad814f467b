package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to a construct.
type Ob struct {
	Rule   string
	At     string
	Detail string
	OK     bool
	Known  bool // listed in the known findings
}

// Check decides one property.
type Check struct {
	L       *Loaded
	Prop    string
	Tier    string
	other   observed // from the other builds of the thorough tier
	Obs     []Ob
	engines []*Engine
	roots   map[string]bool
	Notes   []string
	Known   int
}

// abort is thrown when a construct a rule needs is missing.
type abort struct{ msg string }

// ob records an obligation.
func (c *Check) ob(ok bool, rule, at, f string, args ...any) bool {
	c.Obs = append(c.Obs, Ob{Rule: rule, At: at, Detail: fmt.Sprintf(f, args...), OK: ok})
	return ok
}

// need stops the check if a construct the rules are about cannot be found.
func (c *Check) need(ok bool, rule, f string, args ...any) {
	c.ob(ok, rule, "module", f, args...)
	if !ok {
		panic(abort{fmt.Sprintf(f, args...)})
	}
}

func (c *Check) eng(cfg Config) *Engine {
	e := NewEngine(c.L, cfg)
	c.engines = append(c.engines, e)
	return e
}

// fn finds a function the properties name.
func (c *Check) fn(rel, name string) *ssa.Function {
	f := c.L.fn(rel, name)
	c.need(f != nil, "anchor", "function %s.%s exists", rel, name)
	return f
}

func (c *Check) method(rel, typ, name string) *ssa.Function {
	f := c.L.method(rel, typ, name)
	c.need(f != nil, "anchor", "method %s.%s.%s exists", rel, typ, name)
	return f
}

func (c *Check) typ(rel, name string) *types.Named {
	t := c.L.typ(rel, name)
	c.need(t != nil, "anchor", "type %s.%s exists", rel, name)
	return t
}

// run explores a function with symbolic parameters.
func (c *Check) run(e *Engine, f *ssa.Function) ([]*Term, []*Path) {
	args := e.params(f)
	return args, c.runWith(e, f, args, nil)
}

func (c *Check) runWith(e *Engine, f *ssa.Function, args []*Term, st *State) []*Path {
	c.roots[fullName(f)] = true
	return e.Run(f, args, st)
}

// at names a function.
func (c *Check) at(f *ssa.Function) string {
	return fullName(f) + " (" + c.L.fnPos(f) + ")"
}

// evAt names the place of an event.
func (c *Check) evAt(e *Event) string {
	n := ""
	if e.Fn != nil {
		n = fullName(e.Fn)
	}
	return n + " (" + c.L.pos(e.Instr) + ")"
}

// pathAt names a path by where it ends.
func (c *Check) pathAt(f *ssa.Function, p *Path) string {
	s := fullName(f)
	if p != nil && p.End != nil {
		s += " (path ending at " + c.L.pos(p.End) + ")"
	}
	return s
}

func (l *Loaded) fnPos(f *ssa.Function) string {
	if !f.Pos().IsValid() {
		return "?"
	}
	q := l.Fset.Position(f.Pos())
	return strings.TrimPrefix(q.Filename, l.Dir+"/") + ":" + fmt.Sprint(q.Line)
}

// ---------------------------------------------------------------- addresses

// relPath gives the field path of an address below a base.
func relPath(a, base *Term) ([]int, bool) {
	var p []int
	for a != base {
		if a.K != KFieldAddr {
			return nil, false
		}
		p = append([]int{a.Idx}, p...)
		a = a.Args[0]
	}
	return p, true
}

// rebase applies a field path to a base of pointer type to t.
func rebase(base *Term, t types.Type, path []int) *Term {
	for _, i := range path {
		base = mkFieldAddr(base, i, t)
		t = structOf(t).Field(i).Type()
	}
	return base
}

func fieldsOf(t types.Type, pred func(*types.Var) bool) []int {
	var r []int
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			r = append(r, i)
		}
	}
	return r
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// heapVal reads a cell of a path's final memory.
func (p *Path) heapVal(a *Term) *Term { return p.E.load(p.StateOf(), a, a.T) }

// ---------------------------------------------------------------- events

func evs(es []*Event, kinds ...string) []*Event {
	var r []*Event
	for _, e := range es {
		for _, k := range kinds {
			if e.Kind == k {
				r = append(r, e)
			}
		}
	}
	return r
}

// allEvs are the events of a path and of all code it starts.
func allEvs(es []*Event, kinds ...string) []*Event {
	var r []*Event
	walkEvents(es, func(e *Event) {
		for _, k := range kinds {
			if e.Kind == k {
				r = append(r, e)
			}
		}
	})
	return r
}

// sends to ch, receives from ch.
func onChan(es []*Event, kind string, ch *Term) []*Event {
	var r []*Event
	for _, e := range es {
		if e.Kind == kind && e.Args[0] == ch {
			r = append(r, e)
		}
	}
	return r
}

// hasAlt: a select event with a communication on ch.
func hasAlt(e *Event, send bool, ch *Term) bool {
	for _, a := range e.Alts {
		if a.Send == send && a.Ch == ch {
			return true
		}
	}
	return false
}

// delta is the amount of an add event.
func delta(e *Event) (int64, bool) { return e.Args[1].intConst() }

// blockingOp: operations that may wait for another goroutine.
func blockingOp(e *Event) bool {
	switch e.Kind {
	case "send", "recv":
		return e.Blocking
	case "wg.wait", "sleep", "selectempty":
		return true
	case "call":
		return strings.Contains(e.Name, "sync.Cond).Wait")
	}
	return false
}

func isErrNil(p *Path, t *Term) (isNil, known bool) {
	if t == tNil || p.Facts.isNil(t) {
		return true, true
	}
	if p.Facts.nonNil(t) {
		return false, true
	}
	return false, false
}

// ---------------------------------------------------------------- locks

// locksAt calls f for each event with the locks held at it: address -> "w" or "r".
func locksAt(es []*Event, f func(e *Event, held map[*Term]string)) map[*Term]string {
	held := map[*Term]string{}
	for _, e := range es {
		switch e.Kind {
		case "lock":
			f(e, held)
			held[e.Args[0]] = "w"
			continue
		case "rlock":
			f(e, held)
			held[e.Args[0]] = "r"
			continue
		case "unlock", "runlock":
			delete(held, e.Args[0])
		}
		f(e, held)
	}
	return held
}

// lockDiscipline checks that locks are not taken twice and all are released at the end.
func (c *Check) lockDiscipline(f *ssa.Function, ps []*Path) {
	for _, p := range ps {
		if p.Kind != OReturn {
			continue
		}
		bad := ""
		held := locksAt(p.Events, func(e *Event, h map[*Term]string) {
			if (e.Kind == "lock" || e.Kind == "rlock") && h[e.Args[0]] != "" {
				bad = "lock taken while already held at " + c.evAt(e)
			}
		})
		c.ob(bad == "", "no lock is taken while held", c.at(f), "%s", orOK(bad))
		c.ob(len(held) == 0, "every lock is released before returning", c.pathAt(f, p), "%d locks held at the end", len(held))
	}
}

func orOK(s string) string {
	if s == "" {
		return "ok"
	}
	return s
}

// ---------------------------------------------------------------- loops

// trip is the number of complete iterations of a counting loop left by its condition.
func (p *Path) trip(key string) *Term {
	var run *loopRun
	var cond *Fact
	walkEvents(p.Events, func(e *Event) {
		if e.Run != nil && e.Name == key {
			run = e.Run
			if e.Kind == "loopexit" {
				cond = e.Cond
			}
		}
	})
	if run == nil || cond == nil {
		return nil
	}
	for _, f := range []*Fact{cond} {
		t := f.t
		if t.K != KBin || t.Op != "<" && t.Op != "==" {
			continue
		}
		a, ao := stripAdd(t.Args[0])
		b, bo := stripAdd(t.Args[1])
		if t.Op == "==" && b.K == KLoopVar && strings.HasPrefix(b.Op, key+"/") && loopInvariant(t.Args[0], key) {
			t = &Term{K: KBin, Op: "==", Args: []*Term{t.Args[1], t.Args[0]}, T: t.T}
			a, ao, b, bo = b, bo, a, ao
		}
		lv := func(x *Term) (*LV, int64) {
			if x.K != KLoopVar || !strings.HasPrefix(x.Op, key+"/") {
				return nil, 0
			}
			l := run.LV[x.Op]
			if l == nil || len(l.Init) != 1 || len(l.Back) != 1 {
				return nil, 0
			}
			y, s := stripAdd(l.Back[0])
			if y.K != KLoopVar || y.Op != x.Op || s != 1 && s != -1 {
				return nil, 0
			}
			return l, s
		}
		// an up-counting variable against a bound
		if l, s := lv(a); l != nil && s == 1 && !f.v && t.Op == "<" {
			// !(i+ao < B): runs B-(init+ao) times
			if loopInvariant(t.Args[1], key) {
				return mkBin("-", t.Args[1], mkBin("+", l.Init[0], mkInt(ao), types.Typ[types.Int]), types.Typ[types.Int])
			}
		}
		if l, s := lv(b); l != nil && s == 1 && f.v && t.Op == "<" {
			// A < i+bo: runs A-(init+bo)+1 times
			if loopInvariant(t.Args[0], key) {
				x := mkBin("-", t.Args[0], mkBin("+", l.Init[0], mkInt(bo), types.Typ[types.Int]), types.Typ[types.Int])
				return mkBin("+", x, mkInt(1), types.Typ[types.Int])
			}
		}
		if l, s := lv(a); l != nil && s == 1 && f.v && t.Op == "==" && loopInvariant(t.Args[1], key) {
			return mkBin("-", t.Args[1], mkBin("+", l.Init[0], mkInt(ao), types.Typ[types.Int]), types.Typ[types.Int])
		}
		if l, s := lv(a); l != nil && s == -1 && f.v && t.Op == "==" && loopInvariant(t.Args[1], key) {
			return mkBin("-", mkBin("+", l.Init[0], mkInt(ao), types.Typ[types.Int]), t.Args[1], types.Typ[types.Int])
		}
		// down-counting
		if l, s := lv(b); l != nil && s == -1 && !f.v && t.Op == "<" && loopInvariant(t.Args[0], key) {
			// !(A < i+bo)
			return mkBin("-", mkBin("+", l.Init[0], mkInt(bo), types.Typ[types.Int]), t.Args[0], types.Typ[types.Int])
		}
		if l, s := lv(a); l != nil && s == -1 && f.v && t.Op == "<" && loopInvariant(t.Args[1], key) {
			// i+ao < B
			x := mkBin("-", mkBin("+", l.Init[0], mkInt(ao), types.Typ[types.Int]), t.Args[1], types.Typ[types.Int])
			return mkBin("+", x, mkInt(1), types.Typ[types.Int])
		}
	}
	return nil
}

func loopInvariant(t *Term, key string) bool {
	if t.K == KLoopVar && strings.HasPrefix(t.Op, key+"/") {
		return false
	}
	for _, a := range t.Args {
		if !loopInvariant(a, key) {
			return false
		}
	}
	return true
}

// segments returns, for one loop, the events of each iteration on the path.
func segments(es []*Event, key string) [][]*Event {
	var r [][]*Event
	var cur []*Event
	inL := false
	for _, e := range es {
		if e.Name == key && (e.Kind == "loop" || e.Kind == "loopback") {
			if inL && e.Kind == "loopback" {
				r = append(r, cur)
			}
			cur = nil
			inL = true
			continue
		}
		if inL {
			cur = append(cur, e)
		}
	}
	return r
}

// loopsAround returns the keys of the loops event i lies in.
func loopsAround(es []*Event, i int) []string {
	var r []string
	done := map[string]bool{}
	for j := i; j >= 0; j-- {
		e := es[j]
		switch e.Kind {
		case "loopexit":
			done[e.Name] = true
		case "loop", "loopback":
			if !done[e.Name] {
				done[e.Name] = true
				r = append(r, e.Name)
			}
		}
	}
	return r
}

// tail returns the events of the last, unfinished iteration of a loop that was left.
func tail(es []*Event, key string) []*Event {
	start := -1
	var r []*Event
	for i, e := range es {
		if e.Name != key {
			continue
		}
		switch e.Kind {
		case "loop", "loopback":
			start = i + 1
		case "loopexit":
			if start >= 0 {
				r = es[start:i]
			}
			start = -1
		}
	}
	if start >= 0 {
		r = es[start:]
	}
	return r
}

// total is the number of times operations are done by a loop that does one in each iteration,
// nil if the loop is not a counting loop left by its condition. problem: the operation is not
// done once in each iteration.
func (p *Path) total(key string, es []*Event, is func(*Event) bool) (t *Term, problem string) {
	for _, s := range segments(es, key) {
		n := 0
		for _, e := range s {
			if is(e) {
				n++
			}
		}
		if n != 1 {
			return nil, fmt.Sprintf("done %d times in an iteration", n)
		}
	}
	n := 0
	for _, e := range tail(es, key) {
		if is(e) {
			n++
		}
	}
	if n > 1 {
		return nil, fmt.Sprintf("done %d times in an iteration", n)
	}
	t = p.trip(key)
	if t == nil {
		return nil, "the loop is left other than by its condition"
	}
	return mkBin("+", t, mkInt(int64(n)), types.Typ[types.Int]), ""
}

// covers: the operation, done in each iteration of a counting loop with index idx, is done for 0 through n-1.
func (p *Path) covers(es []*Event, is func(*Event) bool, idx, n *Term) (bool, string) {
	b, off := stripAdd(idx)
	if b.K != KLoopVar {
		return false, "index " + idx.String() + " is not a loop variable"
	}
	l := p.LV(b)
	if l == nil || len(l.Init) != 1 || len(l.Back) != 1 {
		return false, "index has no single step"
	}
	key := b.Op[:strings.LastIndex(b.Op, "/")]
	y, s := stripAdd(l.Back[0])
	if y.K != KLoopVar || y.Op != b.Op {
		return false, "index is not stepped by a constant"
	}
	t, why := p.total(key, es, is)
	if t == nil {
		return false, why
	}
	if t != n {
		return false, "done " + t.String() + " times, not " + n.String()
	}
	first := mkBin("+", l.Init[0], mkInt(off), types.Typ[types.Int])
	switch {
	case s == 1 && first == mkInt(0):
		return true, ""
	case s == -1 && first == mkBin("+", n, mkInt(-1), types.Typ[types.Int]):
		return true, ""
	}
	return false, "the index starts at " + first.String()
}

// ---------------------------------------------------------------- field writers

// exported functions and methods of the packages, from which everything is reachable.
func (l *Loaded) exported(rels ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range l.All {
		if f.Pkg == nil || f.Parent() != nil || f.Object() == nil || len(f.Blocks) == 0 {
			continue
		}
		ok := false
		for _, rel := range rels {
			if f.Pkg.Pkg.Path() == l.Mod+"/"+rel {
				ok = true
			}
		}
		if ok && f.Object().Exported() {
			r = append(r, f)
		}
	}
	return r
}

// storesTo returns the store instructions of the module to a field, with the functions they are in.
func (l *Loaded) storesTo(v *types.Var) []*ssa.Store {
	var r []*ssa.Store
	for _, f := range l.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if x := fieldVar(deref(fa.X.Type()), fa.Field); x == v {
					r = append(r, s)
				}
			}
		}
	}
	return r
}

// callers returns the module functions that mention f.
func (l *Loaded) callers(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, g := range l.All {
		found := false
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if x, ok := (*o).(*ssa.Function); ok {
						if x.Origin() != nil {
							x = x.Origin()
						}
						if x == f {
							found = true
						}
					}
				}
			}
		}
		if found {
			r = append(r, g)
		}
	}
	return r
}

// onlyFrom: f is one of the roots, or an unexported function (or closure) mentioned only by such functions.
func (l *Loaded) onlyFrom(f *ssa.Function, roots ...*ssa.Function) bool {
	return l.onlyFromD(f, roots, map[*ssa.Function]bool{})
}

func (l *Loaded) onlyFromD(f *ssa.Function, roots []*ssa.Function, seen map[*ssa.Function]bool) bool {
	for _, r := range roots {
		if f == r {
			return true
		}
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Parent() != nil {
		return l.onlyFromD(f.Parent(), roots, seen)
	}
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	// a function nobody mentions cannot run (unless it implements an interface; then it is reached by devirtualised calls only)
	for _, g := range l.callers(f) {
		if !l.onlyFromD(g, roots, seen) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- summary

func (c *Check) failed() []Ob {
	seen := map[string]bool{}
	var r []Ob
	for _, o := range c.Obs {
		if !o.OK {
			k := o.Rule + "|" + o.At
			if !seen[k] {
				seen[k] = true
				r = append(r, o)
			}
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].Rule < r[j].Rule })
	return r
}

func constBool(t *Term) (bool, bool) {
	switch t {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	return false, false
}

func nameIs(n string) func(*types.Var) bool { return func(v *types.Var) bool { return v.Name() == n } }

// firstOnly leaves out the paths of a later call: the whole of f is done through a Once that nothing else uses, which
// also waits for the first call.
func (c *Check) firstOnly(f *ssa.Function, ps []*Path) []*Path {
	own := map[*Term]bool{}
	for _, p := range ps {
		for _, e := range evs(p.Events, "once.run") {
			a := e.Args[0]
			if a.K == KLoad {
				a = a.Args[0]
			}
			v, ok := a.Ref.(*types.Var)
			if !ok || a.K != KFieldAddr || !ownReceiver(f, a) {
				continue
			}
			own[e.Args[0]] = c.usedOnlyBy(v.Origin(), f)
		}
	}
	var r []*Path
	for _, p := range ps {
		later := false
		for _, e := range evs(p.Events, "once.skip") {
			later = later || own[e.Args[0]]
		}
		if !later {
			r = append(r, p)
		}
	}
	return r
}

// ownReceiver: a field of f's receiver.
func ownReceiver(f *ssa.Function, a *Term) bool {
	r := a.root()
	return r.K == KParam && len(f.Params) > 0 && r == mkParam(f.Name()+"."+f.Params[0].Name(), f.Params[0].Type())
}

// usedOnlyBy: the field is mentioned in f only, apart from its initial value.
func (c *Check) usedOnlyBy(v *types.Var, f *ssa.Function) bool {
	for _, g := range c.L.All {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if st := structOf(deref(fa.X.Type())); st == nil || st.Field(fa.Field).Origin() != v {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); !ok && !c.L.onlyFrom(g, f) {
					return false
				}
			}
		}
	}
	return true
}
