package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Alt is one communication of a select statement.
type Alt struct {
	Send bool
	Ch   *Term
	Val  *Term
}

// Event is one relevant operation on an abstract path.
type Event struct {
	Kind     string
	Name     string
	Args     []*Term
	Res      []*Term
	Instr    ssa.Instruction
	Fn       *ssa.Function
	Blocking bool
	Alts     []Alt
	Bodies   []*Path // go, async: the paths of the started function
	Site     string
	Run      *loopRun // loop: the loop-carried values
	Cond     *Fact    // loopexit: the condition on which the loop was left
}

// Outcome kinds.
const (
	OReturn = iota
	OPanic
	OExit
	OCut
	OIter // Config.Cut: a loop body was completed, the path ends at the loop head
)

// Path is one complete abstract path.
type Path struct {
	Events  []*Event
	Facts   *Fact
	Heap    map[*Term]*Term
	Results []*Term
	Kind    int
	End     ssa.Instruction
	E       *Engine
}

type tnode struct {
	prev *tnode
	ev   *Event
	n    int
}

// Fact is a linked list of branch conditions known on a path.
type Fact struct {
	prev *Fact
	t    *Term
	v    bool
	n    int
}

// State is the abstract state of a path.
type State struct {
	heap   map[*Term]*Term
	facts  *Fact
	trace  *tnode
	allocs map[*Term]int
	drop   func(*Event) bool
}

func (s *State) clone() *State {
	n := &State{heap: make(map[*Term]*Term, len(s.heap)+8), facts: s.facts, trace: s.trace, drop: s.drop, allocs: make(map[*Term]int, len(s.allocs)+4)}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.allocs {
		n.allocs[k] = v
	}
	return n
}

func (s *State) ev(e *Event) {
	if s.drop != nil && s.drop(e) {
		return
	}
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &tnode{prev: s.trace, ev: e, n: n}
}

func (s *State) events() []*Event {
	if s.trace == nil {
		return nil
	}
	out := make([]*Event, s.trace.n)
	for t := s.trace; t != nil; t = t.prev {
		out[t.n-1] = t.ev
	}
	return out
}

type deferred struct {
	fn    *Term
	args  []*Term
	instr ssa.Instruction
	com   *ssa.CallCommon
}

type frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]*Term
	defers   []deferred
	id       string
	epoch    map[*ssa.BasicBlock]int
	snap     map[*ssa.BasicBlock]*snapshot
	runs     map[*ssa.BasicBlock]*loopRun
	parent   *frame
	cur      ssa.Instruction
	depth    int
	runningD bool
	// split: how a loop is followed whose control values are kept: 1 the first iteration, 2 an arbitrary one and
	// then the last, unfinished one, 3 an arbitrary one, then another, then the last
	split map[*ssa.BasicBlock]int
	// flat: loops with a small known number of iterations, which are followed one by one
	flat map[*ssa.BasicBlock]bool
}

type snapshot struct {
	heap   map[*Term]*Term
	nalloc int
	phis   map[*ssa.Phi]*Term
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.epoch = make(map[*ssa.BasicBlock]int, len(f.epoch))
	for k, v := range f.epoch {
		n.epoch[k] = v
	}
	n.runs = make(map[*ssa.BasicBlock]*loopRun, len(f.runs))
	for k, v := range f.runs {
		n.runs[k] = v
	}
	n.split = make(map[*ssa.BasicBlock]int, len(f.split))
	for k, v := range f.split {
		n.split[k] = v
	}
	n.flat = make(map[*ssa.BasicBlock]bool, len(f.flat))
	for k, v := range f.flat {
		n.flat[k] = v
	}
	n.snap = make(map[*ssa.BasicBlock]*snapshot, len(f.snap))
	for k, v := range f.snap {
		n.snap[k] = v
	}
	return &n
}

type outcome struct {
	st   *State
	kind int
	res  []*Term
	end  ssa.Instruction
}

// loopMeta is what is known about the loop-carried cells of one loop.
type loopMeta struct {
	wide    map[string]bool // widened cells
	cells   map[string]*Term
	mono    map[string]bool // cells that only grow
	noMono  map[string]bool
	ctl     map[string]bool // widened cells that may decide how the loop goes on
	split   bool            // an error or flag does decide: the first iteration is followed apart from later ones
	str     map[string]bool // string cells followed concretely (Config.OnStr)
	loud    bool            // an iteration records events
	changed bool
}

// LV describes a loop-carried value: its values on entry and along the back edges.
type LV struct {
	Cell *Term // where the value is in memory, nil for a variable
	Init []*Term
	Back []*Term
}

// loopRun is one exploration of a loop.
type loopRun struct {
	backed bool // an iteration that starts from the values on entry can be completed
	LV     map[string]*LV
}

// Config selects what an analysis sees.
type Config struct {
	// Opaque: functions of the module that are not inlined but recorded as a call.
	Opaque func(fn *ssa.Function) bool
	// OnRecv binds the value received from a channel. nil: unknown.
	OnRecv func(st *State, ch *Term) *Term
	// RecordLoads records plain loads from shared memory.
	RecordLoads bool
	// OnceEnd records where the function of a Once has returned.
	OnceEnd bool
	// Spans records operations on spans.
	Spans bool
	// SpanOf is the span of a Context whose origin is not known. nil: unknown.
	SpanOf func(ctx *Term) *Term
	// Model overrides the handling of a call. Returns nil if it does not apply.
	Model func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, instr ssa.Instruction) []callOut
	// Drop says which events are not recorded.
	Drop func(*Event) bool
	// Coarse forgets loops without a recorded event and joins outcomes of a call that differ in what it keeps to itself.
	Coarse bool
	// KeepStr keeps outcomes of a call apart that differ in a string.
	KeepStr bool
	// Loud makes Coarse keep the loops it holds for.
	Loud func(blocks map[*ssa.BasicBlock]bool) bool
	// Hold keeps outcomes of a call apart that know different things about such a term.
	Hold func(t *Term) bool
	// Cut ends a path when it comes back to a loop head, where the loop-carried values are arbitrary: the paths are those
	// through one arbitrary iteration of each loop. The events loop and cut then carry pairs of a loop-carried value and
	// what it becomes there.
	Cut bool
	// Carry: user functions that take and return a struct of this type return the one they were given with other values
	// in exported fields.
	Carry func(t types.Type) bool
	// Recording fixes whether spans record: tTrue, tFalse or nil for either.
	Recording *Term
	// NoMerge keeps paths apart that differ in string results only.
	NoMerge bool
	// OnStr switches on the following of string variables through loops: they keep their
	// concrete value for two iterations, in the third a trailing number is replaced by an
	// arbitrary one. It is called at each arrival at the loop head.
	OnStr func(cell string, ep int, v *Term, st *State)
	// MaxDepth bounds inlining.
	MaxDepth int
	// MaxFlat overrides maxFlat.
	MaxFlat int
	// AsyncNames are interface methods that run a closure argument asynchronously exactly
	// once if they return nil: name -> index of the function argument, context argument.
	Async map[string][2]int
}

// Engine explores functions.
type Engine struct {
	L     *Loaded
	cfg   Config
	loops map[*ssa.Function]*loopInfo
	meta  map[string]*loopMeta
	steps int
	// statistics
	Funcs    map[*ssa.Function]bool
	NPaths   int
	Overflow string
	Unsup    map[string]bool
	seenRet  map[*ssa.Return]bool
}

const maxSteps = 6000000

func NewEngine(l *Loaded, cfg Config) *Engine {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 14
	}
	return &Engine{L: l, cfg: cfg, loops: map[*ssa.Function]*loopInfo{}, meta: map[string]*loopMeta{}, Funcs: map[*ssa.Function]bool{}, Unsup: map[string]bool{}}
}

type loopInfo struct {
	loops map[*ssa.BasicBlock]*loop
	order []*ssa.BasicBlock
}

type loop struct {
	head     *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	bodyExit bool
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{loops: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := li.loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, l := range li.loops {
		for b := range l.blocks {
			if b == l.head {
				continue
			}
			for _, s := range b.Succs {
				if !l.blocks[s] {
					l.bodyExit = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if li.loops[b] != nil {
			li.order = append(li.order, b)
		}
	}
	e.loops[fn] = li
	return li
}

// site names an instruction on a path: call string, loop epochs and position.
func (e *Engine) site(fr *frame, in ssa.Instruction) string {
	b := in.Block()
	li := e.loopsOf(fr.fn)
	var sb strings.Builder
	sb.WriteString(fr.id)
	for _, h := range li.order {
		if li.loops[h].blocks[b] {
			sb.WriteString("@")
			sb.WriteString(strconv.Itoa(fr.epoch[h]))
		}
	}
	sb.WriteString(">")
	sb.WriteString(fr.fn.Name())
	sb.WriteString(":")
	idx := 0
	for i, x := range b.Instrs {
		if x == in {
			idx = i
			break
		}
	}
	fmt.Fprintf(&sb, "%d.%d", b.Index, idx)
	return sb.String()
}

// ---------------------------------------------------------------- facts

func (f *Fact) lookup(t *Term) (bool, bool) {
	for x := f; x != nil; x = x.prev {
		if x.t == t {
			return x.v, true
		}
	}
	return false, false
}

func stripAdd(t *Term) (*Term, int64) {
	if t.K == KBin && t.Op == "+" {
		if c, ok := t.Args[1].intConst(); ok {
			return t.Args[0], c
		}
	}
	return t, 0
}

const (
	minInt = -1 << 62
	maxInt = 1 << 62
)

// bounds returns the interval known for an integer term.
func (f *Fact) bounds(t *Term) (int64, int64) { return f.boundsD(t, 0) }

func (f *Fact) boundsD(t *Term, d int) (int64, int64) {
	if c, ok := t.intConst(); ok {
		return c, c
	}
	base, off := stripAdd(t)
	lo, hi := int64(minInt), int64(maxInt)
	switch base.K {
	case KLen, KCap:
		lo = 0
	case KPure:
		if base.Op == "indexAny" {
			lo = -1
		}
	}
	for x := f; x != nil; x = x.prev {
		c := x.t
		if c.K != KBin {
			continue
		}
		switch c.Op {
		case "<":
			a, ao := stripAdd(c.Args[0])
			b, bo := stripAdd(c.Args[1])
			if a == base {
				// base+ao < B
				var blo, bhi int64 = minInt, maxInt
				if k, ok := b.intConst(); ok {
					blo, bhi = k+bo, k+bo
				} else if d < 2 && b != base {
					blo, bhi = f.boundsD(c.Args[1], d+1)
				}
				if x.v {
					if bhi < maxInt && bhi-1-ao < hi {
						hi = bhi - 1 - ao
					}
				} else if blo > minInt && blo-ao > lo {
					lo = blo - ao
				}
			}
			if b == base {
				var alo, ahi int64 = minInt, maxInt
				if k, ok := a.intConst(); ok {
					alo, ahi = k+ao, k+ao
				} else if d < 2 && a != base {
					alo, ahi = f.boundsD(c.Args[0], d+1)
				}
				if x.v { // A < base+bo
					if alo > minInt && alo+1-bo > lo {
						lo = alo + 1 - bo
					}
				} else if ahi < maxInt && ahi-bo < hi {
					hi = ahi - bo
				}
			}
		case "==":
			a, ao := stripAdd(c.Args[0])
			if k, ok := c.Args[1].intConst(); ok && a == base {
				v := k - ao
				if x.v {
					if v > lo {
						lo = v
					}
					if v < hi {
						hi = v
					}
				}
			}
		}
	}
	// x != lo
	for again := true; again; {
		again = false
		for x := f; x != nil; x = x.prev {
			c := x.t
			if x.v || c.K != KBin || c.Op != "==" {
				continue
			}
			a, ao := stripAdd(c.Args[0])
			if k, ok := c.Args[1].intConst(); ok && a == base {
				if k-ao == lo {
					lo++
					again = true
				} else if k-ao == hi {
					hi--
					again = true
				}
			}
		}
	}
	if lo > minInt {
		lo += off
	}
	if hi < maxInt {
		hi += off
	}
	return lo, hi
}

// Eval decides a boolean term from the facts of a path.
func (f *Fact) Eval(t *Term) (val, known bool) {
	switch t {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	if t.K == KUn && t.Op == "!" {
		v, k := f.Eval(t.Args[0])
		return !v, k
	}
	if v, ok := f.lookup(t); ok {
		return v, true
	}
	if t.K == KBin {
		x, y := t.Args[0], t.Args[1]
		switch t.Op {
		case "==":
			if y.K == KConst {
				for c := f; c != nil; c = c.prev {
					if c.v && c.t.K == KBin && c.t.Op == "==" && c.t.Args[0] == x && c.t.Args[1].K == KConst && c.t.Args[1] != y {
						return false, true
					}
				}
				if y == tNil {
					if f.nonNil(x) {
						return false, true
					}
				}
				if _, ok := y.intConst(); ok {
					c, _ := y.intConst()
					lo, hi := f.bounds(x)
					if c < lo || c > hi {
						return false, true
					}
					if lo == hi && lo == c {
						return true, true
					}
				}
			} else {
				// x == y where one is nil and the other is not
				if f.isNil(x) && f.nonNil(y) || f.isNil(y) && f.nonNil(x) {
					return false, true
				}
				if f.isNil(x) && f.isNil(y) {
					return true, true
				}
			}
		case "<":
			xl, xh := f.bounds(x)
			yl, yh := f.bounds(y)
			if xh < yl {
				return true, true
			}
			if xl >= yh {
				return false, true
			}
			xb, xo := stripAdd(x)
			yb, yo := stripAdd(y)
			if xb == yb {
				return xo < yo, true
			}
			// facts on the same pair with other offsets
			for c := f; c != nil; c = c.prev {
				if c.t.K != KBin || c.t.Op != "<" {
					continue
				}
				cb, co := stripAdd(c.t.Args[0])
				db, do := stripAdd(c.t.Args[1])
				if cb == xb && db == yb {
					// cb+co < db+do known v
					if c.v && xo-co <= yo-do {
						return true, true
					}
					if !c.v && xo-co >= yo-do {
						return false, true
					}
				}
				if cb == yb && db == xb {
					// y+co < x+do true => not (x+do <= y+co)
					if c.v && xo-do >= yo-co {
						return false, true
					}
					if !c.v && xo < yo+do-co+1 && xo-do <= yo-co-1 {
						// x+do <= y+co => x+xo < y+yo if xo-do < yo-co
						return true, true
					}
				}
			}
		}
	}
	if t.K == KPure {
		switch t.Op {
		case "recording":
			if f.isNil(t.Args[0]) {
				return false, true
			}
		case "cancelled":
			if f.cancelled(t.Args[0]) {
				return true, true
			}
		}
	}
	return false, false
}

func (f *Fact) nonNil(x *Term) bool {
	if x.nonNil() {
		return true
	}
	if v, ok := f.lookup(mkBin("==", x, tNil, nil)); ok && !v {
		return true
	}
	for c := f; c != nil; c = c.prev {
		if c.v && c.t.K == KIsType && c.t.Args[0] == x {
			return true
		}
		if c.v && c.t.K == KPure && c.t.Op == "recording" && c.t.Args[0] == x {
			return true
		}
		// x == y with y known non-nil
		if c.v && c.t.K == KBin && c.t.Op == "==" && (c.t.Args[0] == x && c.t.Args[1].nonNil() || c.t.Args[1] == x && c.t.Args[0].nonNil()) {
			return true
		}
	}
	if x.K == KPure && x.Op == "join" {
		for _, a := range x.Args {
			if f.nonNil(a) {
				return true
			}
		}
	}
	return false
}

func (f *Fact) isNil(x *Term) bool {
	if x == tNil {
		return true
	}
	v, ok := f.lookup(mkBin("==", x, tNil, nil))
	return ok && v
}

// ctxRoot strips derivations that keep the cancellation of a context.
func ctxRoot(c *Term) *Term {
	for {
		switch {
		case c.K == KPure && c.Op == "valuectx":
			c = c.Args[0]
		case c.K == KIface && len(c.Args) == 1:
			c = c.Args[0]
		default:
			return c
		}
	}
}

// cancelled reports whether the context is known to be cancelled.
func (f *Fact) cancelled(c *Term) bool {
	c = ctxRoot(c)
	if v, ok := f.lookup(mkPure("cancelled", types.Typ[types.Bool], c)); ok && v {
		return true
	}
	if c.K == KPure && c.Op == "withcancel" {
		return f.cancelled(c.Args[0])
	}
	return false
}

func (st *State) assume(t *Term, v bool) {
	for t.K == KUn && t.Op == "!" {
		t = t.Args[0]
		v = !v
	}
	if t.K == KConst {
		return
	}
	if k, ok := st.facts.lookup(t); ok && k == v {
		return
	}
	n := 1
	if st.facts != nil {
		n = st.facts.n + 1
	}
	st.facts = &Fact{prev: st.facts, t: t, v: v, n: n}
}

// ---------------------------------------------------------------- memory

func isFresh(t *Term) bool {
	switch t.K {
	case KAlloc, KMakeSlice, KMakeMap, KMakeChan:
		return true
	}
	return false
}

func (e *Engine) load(st *State, addr *Term, t types.Type) *Term {
	if expandable(t) {
		if v, ok := st.heap[addr]; ok { // whole value (havoc)
			return v
		}
		s := structOf(t)
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = e.load(st, mkFieldAddr(addr, i, t), s.Field(i).Type())
		}
		// a struct none of whose fields was written is the initial value
		all := true
		for i, f := range fs {
			if !(f.K == KLoad && f.Args[0] == mkFieldAddr(addr, i, t)) {
				all = false
				break
			}
		}
		if all && len(fs) > 0 {
			return in.mk(Term{K: KLoad, Args: []*Term{addr}, T: t}, "")
		}
		return mkStruct(t, fs)
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	switch addr.K {
	case KFieldAddr:
		// written as a whole
		if v, ok := e.wholeAncestor(st, addr); ok {
			return v
		}
		if v, ok := listElem(addr.Args[0]); ok {
			return fieldOf(v, addr)
		}
	case KIndexAddr:
		if v, ok := e.wholeAncestor(st, addr); ok {
			return v
		}
		b := addr.Args[0]
		if v, ok := listElem(addr); ok {
			return v
		}
		if b.K == KMakeSlice {
			// an element of a fresh slice: unknown if other elements were written
			for a := range st.heap {
				if a.K == KIndexAddr && a.Args[0] == b {
					return mkUnknown("elem", t)
				}
			}
			return zeroOf(t)
		}
		if b.K == KAppend || b.K == KSlice {
			return in.mk(Term{K: KIndex, Args: []*Term{b, addr.Args[1]}, T: t}, "")
		}
	}
	r := addr.root()
	if r.K == KAlloc {
		// variable allocated on this path and not written
		return zeroOf(t)
	}
	x := mkLoad(addr)
	if x.T == nil {
		x.T = t
	}
	return x
}

// listElem is what a literal slice holds at an address in it.
func listElem(addr *Term) (*Term, bool) {
	switch addr.K {
	case KFieldAddr:
		if v, ok := listElem(addr.Args[0]); ok {
			return fieldOf(v, addr), true
		}
	case KIndexAddr:
		b := addr.Args[0]
		if i, ok := addr.Args[1].intConst(); ok && b.K == KList && int(i) < len(b.Args) && i >= 0 {
			for _, a := range b.Args[:i+1] {
				if a.K == KSpread {
					return nil, false
				}
			}
			return b.Args[i], true
		}
	}
	return nil, false
}

// wholeAncestor finds a value stored for an enclosing struct or array.
func (e *Engine) wholeAncestor(st *State, addr *Term) (*Term, bool) {
	var path []*Term
	a := addr
	for a.K == KFieldAddr || a.K == KIndexAddr {
		path = append(path, a)
		a = a.Args[0]
		if v, ok := st.heap[a]; ok {
			// only if a holds a struct or array (not a pointer to it)
			for i := len(path) - 1; i >= 0; i-- {
				p := path[i]
				if p.K == KFieldAddr {
					if v.K == KHavoc || v.K == KUnknown || v.K == KStruct || v.K == KRet || v.K == KPure || v.K == KLoopVar || v.K == KField || v.K == KParam || v.K == KLoad || (v.K == KConst && strings.HasPrefix(v.Op, "zero:")) {
						v = fieldOf(v, p)
					} else {
						return nil, false
					}
				} else {
					v = in.mk(Term{K: KIndex, Args: []*Term{v, p.Args[1]}, T: p.T}, "")
				}
			}
			return v, true
		}
	}
	return nil, false
}

func fieldOf(v, fa *Term) *Term {
	if v.K == KStruct && fa.Idx < len(v.Args) {
		return v.Args[fa.Idx]
	}
	return in.mk(Term{K: KField, Idx: fa.Idx, Args: []*Term{v}, T: fa.T, Ref: fa.Ref}, "")
}

func (e *Engine) store(st *State, addr, v *Term, t types.Type) {
	if expandable(t) {
		delete(st.heap, addr)
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, mkFieldAddr(addr, i, t), mkField(v, i, t), s.Field(i).Type())
		}
		return
	}
	// element writes invalidate other elements with an index not known to differ
	if addr.K == KIndexAddr {
		for a := range st.heap {
			if a.K == KIndexAddr && a != addr && a.Args[0] == addr.Args[0] {
				_, ok1 := a.Args[1].intConst()
				_, ok2 := addr.Args[1].intConst()
				if !(ok1 && ok2) {
					delete(st.heap, a)
					st.heap[a] = mkUnknown("elem"+strconv.Itoa(a.id), t)
				}
			}
		}
	}
	st.heap[addr] = v
}

// clearAlloc forgets everything about a variable allocated again.
func (st *State) clearRoot(r *Term) {
	for a := range st.heap {
		if a.root() == r {
			delete(st.heap, a)
		}
	}
}

// havoc marks everything reachable through a pointer as possibly written by unknown code.
func (e *Engine) havoc(st *State, p *Term, site string, seen map[*Term]bool) {
	if p == nil || seen[p] {
		return
	}
	seen[p] = true
	switch p.K {
	case KIface:
		e.havoc(st, p.Args[0], site, seen)
		return
	case KAlloc, KFieldAddr, KParam, KIndexAddr:
	default:
		return
	}
	if p.K == KParam {
		if p.T == nil {
			return
		}
		if _, ok := p.T.Underlying().(*types.Pointer); !ok {
			return
		}
	}
	if p.root().K == KAlloc {
		// what was not written yet is changed too
		var fill func(a *Term, t types.Type)
		fill = func(a *Term, t types.Type) {
			if _, ok := st.heap[a]; ok || t == nil {
				return
			}
			if _, ok := e.wholeAncestor(st, a); ok {
				return
			}
			if expandable(t) {
				s := structOf(t)
				for i := 0; i < s.NumFields(); i++ {
					fill(mkFieldAddr(a, i, t), s.Field(i).Type())
				}
				return
			}
			if _, arr := t.Underlying().(*types.Array); arr || isOpaqueSync(t) {
				return
			}
			st.heap[a] = e.load(st, a, t)
		}
		fill(p, p.T)
	}
	var addrs []*Term
	for a := range st.heap {
		b := a
		for {
			if b == p {
				addrs = append(addrs, a)
				break
			}
			if b.K != KFieldAddr && b.K != KIndexAddr {
				break
			}
			b = b.Args[0]
		}
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
	for _, a := range addrs {
		old := st.heap[a]
		if isOpaqueSync(a.T) {
			continue
		}
		st.heap[a] = in.mk(Term{K: KHavoc, Op: site, Args: []*Term{a, old}, T: a.T}, "")
	}
}

// isOpaqueSync: only its methods change a value of the type.
func isOpaqueSync(t types.Type) bool {
	if t == nil || !opaque(t) {
		return false
	}
	switch types.Unalias(t).(*types.Named).Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

// ---------------------------------------------------------------- running

// Run explores a function from its entry with the given arguments.
func (e *Engine) Run(fn *ssa.Function, args []*Term, st *State) []*Path {
	return e.RunClosure(fn, nil, args, st)
}

// RunClosure explores a function with bound variables.
func (e *Engine) RunClosure(fn *ssa.Function, bind, args []*Term, st *State) []*Path {
	if st == nil {
		st = &State{heap: map[*Term]*Term{}, allocs: map[*Term]int{}}
	} else {
		st = st.clone()
	}
	st.trace = nil
	st.drop = e.cfg.Drop
	outs := e.callFn(fn, bind, args, st, nil, fn.Name())
	return e.paths(outs)
}

func (e *Engine) paths(outs []outcome) []*Path {
	var ps []*Path
	for _, o := range outs {
		if o.kind == OCut {
			continue
		}
		ps = append(ps, &Path{Events: o.st.events(), Facts: o.st.facts, Heap: o.st.heap, Results: o.res, Kind: o.kind, End: o.end, E: e})
	}
	e.NPaths += len(ps)
	return ps
}

// StateOf gives a state that continues a path.
func (p *Path) StateOf() *State {
	st := &State{heap: p.Heap, facts: p.Facts, allocs: map[*Term]int{}}
	return st.clone()
}

func (e *Engine) params(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		args = append(args, mkParam(fn.Name()+"."+n, p.Type()))
	}
	return args
}

func (e *Engine) callFn(fn *ssa.Function, bind, args []*Term, st *State, parent *frame, id string) []outcome {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	e.Funcs[fn] = true
	if parent == nil && fn.Pkg != nil {
		id = fn.Pkg.Pkg.Path()[strings.LastIndex(fn.Pkg.Pkg.Path(), "/")+1:] + "." + id
	}
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, id: id, epoch: map[*ssa.BasicBlock]int{}, snap: map[*ssa.BasicBlock]*snapshot{}, split: map[*ssa.BasicBlock]int{}, flat: map[*ssa.BasicBlock]bool{}, runs: map[*ssa.BasicBlock]*loopRun{}, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = mkUnknown(id+":arg", p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.env[fv] = bind[i]
		} else {
			fr.env[fv] = mkParam(fn.Name()+".free."+fv.Name(), fv.Type())
		}
	}
	if len(fn.Blocks) == 0 {
		e.Unsup["no body: "+fn.String()] = true
		return nil
	}
	before := st.trace
	outs := e.enter(fr, st, fn.Blocks[0], nil)
	if e.cfg.Coarse && len(outs) > 1 && parent != nil {
		for i := range outs {
			outs[i].sweep(before, id)
		}
	}
	if !e.cfg.NoMerge {
		outs = e.merge(outs, before, id)
	}
	return outs
}

// merge joins the outcomes of a call that differ in nothing the rules look at.
func (e *Engine) merge(outs []outcome, before *tnode, id string) []outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []outcome
next:
	for _, o := range outs {
		if o.kind == OReturn && (o.st.trace == before || e.cfg.Coarse) {
			for i := range res {
				r := &res[i]
				if r.kind != OReturn || r.st.trace != o.st.trace || len(r.res) != len(o.res) || !sameHeap(r.st.heap, o.st.heap) {
					continue
				}
				ok := true
				var nr []*Term
				for j := range r.res {
					if r.res[j] == o.res[j] {
						nr = append(nr, r.res[j])
						continue
					}
					if !e.cfg.KeepStr && isStringType(r.res[j].T) && isStringType(o.res[j].T) {
						nr = append(nr, mkUnknown(id+":str"+strconv.Itoa(j), r.res[j].T))
						continue
					}
					ok = false
					break
				}
				if !ok || e.cfg.Hold != nil && (holds(r.st.facts, o.st.facts, e.cfg.Hold) || holds(o.st.facts, r.st.facts, e.cfg.Hold)) {
					continue
				}
				r.res = nr
				r.st.facts = intersect(r.st.facts, o.st.facts)
				continue next
			}
		}
		res = append(res, o)
	}
	return res
}

// sweep forgets the variables of a call that nothing refers to any more.
func (o *outcome) sweep(before *tnode, id string) {
	own := map[*Term][]*Term{}
	for a := range o.st.heap {
		if r := a.root(); r.K == KAlloc && strings.HasPrefix(r.Op, id) {
			own[r] = append(own[r], a)
		}
	}
	if len(own) == 0 {
		return
	}
	live := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || live[t] {
			return
		}
		live[t] = true
		for _, a := range t.Args {
			mark(a)
		}
		for _, a := range own[t] {
			mark(o.st.heap[a])
		}
	}
	for _, r := range o.res {
		mark(r)
	}
	for a, v := range o.st.heap {
		if own[a.root()] == nil {
			mark(v)
			mark(a)
		}
	}
	for t := o.st.trace; t != before && t != nil; t = t.prev {
		for _, a := range t.ev.Args {
			mark(a)
		}
		for _, a := range t.ev.Res {
			mark(a)
		}
	}
	for r, as := range own {
		if !live[r] {
			for _, a := range as {
				delete(o.st.heap, a)
			}
		}
	}
}

func sameHeap(a, b map[*Term]*Term) bool {
	if len(a) != len(b) {
		// cells that hold their initial content do not count
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// holds: a knows something of interest that b does not.
func holds(a, b *Fact, keep func(*Term) bool) bool {
	for f := a; f != nil && f != b; f = f.prev {
		if keep(f.t) {
			if v, ok := b.lookup(f.t); !ok || v != f.v {
				return true
			}
		}
	}
	return false
}

func intersect(a, b *Fact) *Fact {
	// common suffix first
	x, y := a, b
	for x != y {
		if x == nil || y == nil {
			x, y = nil, nil
			break
		}
		if x.n > y.n {
			x = x.prev
		} else if y.n > x.n {
			y = y.prev
		} else {
			x, y = x.prev, y.prev
		}
	}
	r := x
	for f := a; f != x; f = f.prev {
		if v, ok := b.lookup(f.t); ok && v == f.v {
			n := 1
			if r != nil {
				n = r.n + 1
			}
			r = &Fact{prev: r, t: f.t, v: f.v, n: n}
		}
	}
	return r
}

func (e *Engine) metaOf(fr *frame, h *ssa.BasicBlock) (string, *loopMeta) {
	li := e.loopsOf(fr.fn)
	var sb strings.Builder
	sb.WriteString(fr.id)
	for _, o := range li.order {
		if o != h && li.loops[o].blocks[h] {
			sb.WriteString("@" + strconv.Itoa(fr.epoch[o]))
		}
	}
	fmt.Fprintf(&sb, ">%s:loop%d", fr.fn.Name(), h.Index)
	k := sb.String()
	m := e.meta[k]
	if m == nil {
		m = &loopMeta{wide: map[string]bool{}, cells: map[string]*Term{}, mono: map[string]bool{}, noMono: map[string]bool{}, str: map[string]bool{}, ctl: map[string]bool{}}
		m.loud = e.cfg.Loud != nil && e.cfg.Loud(li.loops[h].blocks)
		e.meta[k] = m
	}
	return k, m
}

// enter moves control to block b coming from pred.
func (e *Engine) enter(fr *frame, st *State, b, pred *ssa.BasicBlock) []outcome {
	li := e.loopsOf(fr.fn)
	if pred != nil {
		if l := li.loops[pred]; l != nil && !fr.flat[pred] && l.blocks[b] && b != pred && !l.bodyExit && e.maxEp(fr, pred) < 4 && fr.epoch[pred] >= e.maxEp(fr, pred) {
			return nil // no second iteration needed, the first was an arbitrary one
		}
	}
	if pred != nil && len(li.order) > 0 && !e.leave(fr, st, li, b, pred) {
		return nil
	}
	l := li.loops[b]
	if l == nil {
		e.phis(fr, b, pred)
		return e.exec(fr, st, b, len(phisOf(b)))
	}
	entry := pred == nil || !l.blocks[pred]
	if entry {
		fr.flat[b] = pred != nil && e.isFlat(fr, l, b, pred)
		fr.epoch[b] = 0
	}
	if fr.flat[b] {
		fr.epoch[b]++
		e.phis(fr, b, pred)
		return e.exec(fr, st, b, len(phisOf(b)))
	}
	if entry {
		key, m := e.metaOf(fr, b)
		for try := 0; ; try++ {
			m.changed = false
			run := &loopRun{LV: map[string]*LV{}}
			var outs []outcome
			modes := []int{0}
			if m.split && len(m.str) == 0 && !e.cfg.Cut {
				modes = []int{1, 2, 3}
			}
			for _, mode := range modes {
				if mode > 1 && !run.backed {
					continue
				}
				f2, s2 := fr.clone(), st.clone()
				f2.epoch[b] = 1
				f2.split[b] = mode
				f2.snap[b] = &snapshot{}
				f2.runs[b] = run
				outs = append(outs, e.arrive(f2, s2, b, pred, key, m, true)...)
			}
			for _, k := range sortedKeys(run.LV) {
				mono := run.LV[k].isMono(k)
				if mono && !m.mono[k] && !m.noMono[k] {
					m.mono[k] = true
					m.changed = true
				} else if !mono && m.mono[k] {
					m.mono[k], m.noMono[k] = false, true
					m.changed = true
				}
			}
			if !m.changed {
				return outs
			}
			if try > 60 {
				e.Overflow = "loop fixpoint in " + fr.fn.String()
				return outs
			}
			if e.Overflow != "" {
				return nil
			}
		}
	}
	// back edge
	if m := fr.split[b]; m == 1 || m == 4 && fr.epoch[b] == 2 {
		fr.runs[b].backed = true
		return nil
	}
	if fr.epoch[b] >= e.maxEp(fr, b) {
		return nil
	}
	key, m := e.metaOf(fr, b)
	if fr.split[b] == 3 && fr.epoch[b] == 1 {
		// can this iteration be followed by another?
		probe, run := fr.clone(), &loopRun{LV: map[string]*LV{}}
		probe.split[b], probe.runs[b] = 4, run
		e.arrive(probe, st.clone(), b, pred, key, m, false)
		if !run.backed {
			return nil
		}
	}
	return e.arrive(fr, st, b, pred, key, m, false)
}

// maxFlat is how many iterations of a loop are followed one by one if their number is known.
const maxFlat = 4

// isFlat: the loop counts by 1 from a constant up to a constant not far away.
func (e *Engine) isFlat(fr *frame, l *loop, b, pred *ssa.BasicBlock) bool {
	max := int64(maxFlat)
	if e.cfg.MaxFlat > 0 {
		max = int64(e.cfg.MaxFlat)
	}
	x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] || !l.blocks[b.Succs[0]] {
		return false
	}
	c, ok := x.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != b {
		return false
	}
	if y, ok := c.Y.(ssa.Instruction); ok && l.blocks[y.Block()] {
		return false
	}
	inc := func(v ssa.Value) (*ssa.Phi, bool) {
		a, ok := v.(*ssa.BinOp)
		if !ok || a.Op != token.ADD {
			return nil, false
		}
		k, ok := a.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() != 1 {
			return nil, false
		}
		p, ok := a.X.(*ssa.Phi)
		return p, ok && p.Block() == b
	}
	off := int64(0)
	p, ok := c.X.(*ssa.Phi)
	if !ok {
		if p, ok = inc(c.X); !ok {
			return false
		}
		off = 1
	}
	if p.Block() != b {
		return false
	}
	i := int64(0)
	for j, from := range b.Preds {
		if from == pred {
			if i, ok = e.val(fr, p.Edges[j]).intConst(); !ok {
				return false
			}
		} else if q, ok := inc(p.Edges[j]); !ok || q != p {
			return false
		}
	}
	n, ok := e.val(fr, c.Y).intConst()
	return ok && n-i-off <= max
}

// leave records which loops are left on the way from pred to b. It returns false if the way need not be followed:
// the loop is left in what stands for an iteration that others follow.
func (e *Engine) leave(fr *frame, st *State, li *loopInfo, b, pred *ssa.BasicBlock) bool {
	var left []*loop
	for _, h := range li.order {
		if l := li.loops[h]; l.blocks[pred] && !l.blocks[b] && !fr.flat[h] {
			left = append(left, l)
		}
	}
	sort.SliceStable(left, func(i, j int) bool { return len(left[i].blocks) < len(left[j].blocks) })
	for _, l := range left {
		if m := fr.split[l.head]; m == 4 || m > 1 && fr.epoch[l.head] < m {
			return false
		}
		key, m := e.metaOf(fr, l.head)
		if e.cfg.Coarse && !m.loud && st.silent(key) {
			continue
		}
		ev := &Event{Kind: "loopexit", Name: key, Fn: fr.fn, Instr: b.Instrs[0], Site: key, Run: fr.runs[l.head]}
		if x, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
			t, v := e.val(fr, x.Cond), b == pred.Succs[0]
			for t.K == KUn && t.Op == "!" {
				t, v = t.Args[0], !v
			}
			ev.Cond = &Fact{t: t, v: v}
		}
		st.ev(ev)
	}
	return true
}

// silent forgets a loop in which nothing was recorded.
func (s *State) silent(key string) bool {
	for t := s.trace; t != nil; t = t.prev {
		switch t.ev.Kind {
		case "loop":
			if t.ev.Site == key {
				s.trace = t.prev
				return true
			}
		case "loopback", "loopexit":
		default:
			return false
		}
	}
	return false
}

// control values decide how a loop goes on: they are followed from one iteration to the next.
func isControl(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0 || u.Info()&types.IsString != 0
	case *types.Interface:
		return types.Identical(t, types.Universe.Lookup("error").Type())
	}
	return false
}

// settle replaces a value the path knows by the constant.
func settle(st *State, v *Term, t types.Type) *Term {
	if v == nil || v.K == KConst {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			if x, ok := st.facts.Eval(v); ok {
				if x {
					return tTrue
				}
				return tFalse
			}
		}
	case *types.Interface:
		if st.facts.isNil(v) {
			return tNil
		}
	}
	return v
}

// maxEp is the number of arrivals at a loop head that are followed.
func (e *Engine) maxEp(fr *frame, b *ssa.BasicBlock) int {
	if e.cfg.OnStr != nil {
		if _, m := e.metaOf(fr, b); len(m.str) > 0 {
			return 4
		}
	}
	if fr.split[b] >= 3 {
		return 3
	}
	return 2
}

// genNumber replaces a trailing constant number "-123" by an arbitrary one.
func genNumber(t *Term) *Term {
	if t.K != KStr {
		return t
	}
	last := t.Args[len(t.Args)-1]
	c, ok := last.strConst()
	if !ok {
		return t
	}
	i := len(c)
	for i > 0 && c[i-1] >= '0' && c[i-1] <= '9' {
		i--
	}
	if i == len(c) {
		return t
	}
	n := mkPure("itoa", types.Typ[types.String], mkParam("N", types.Typ[types.Int]))
	return mkConcat(append(append([]*Term(nil), t.Args[:len(t.Args)-1]...), mkStr(c[:i]), n)...)
}

// isMono: every back value is the value at the loop head plus a positive constant.
func (lv *LV) isMono(key string) bool {
	if len(lv.Back) == 0 || len(lv.Init) == 0 {
		return false
	}
	for _, b := range lv.Back {
		x, c := stripAdd(b)
		if x.K != KLoopVar || x.Op != key || c <= 0 {
			return false
		}
	}
	return true
}

func addUniq(l []*Term, t *Term) []*Term {
	for _, x := range l {
		if x == t {
			return l
		}
	}
	return append(l, t)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (e *Engine) phis(fr *frame, b, pred *ssa.BasicBlock) {
	ps := phisOf(b)
	if len(ps) == 0 {
		return
	}
	i := predIndex(b, pred)
	vals := make([]*Term, len(ps))
	for j, p := range ps {
		vals[j] = e.val(fr, p.Edges[i])
	}
	for j, p := range ps {
		fr.env[p] = vals[j]
	}
}

// arrive handles control reaching a loop head, on entry or along a back edge.
func (e *Engine) arrive(fr *frame, st *State, b, pred *ssa.BasicBlock, key string, m *loopMeta, entry bool) []outcome {
	ps := phisOf(b)
	pi := predIndex(b, pred)
	vals := make([]*Term, len(ps))
	for j, p := range ps {
		if pi < 0 {
			vals[j] = tNil
			continue
		}
		vals[j] = settle(st, e.val(fr, p.Edges[pi]), p.Type())
	}
	snap := fr.snap[b]
	for a, v := range st.heap {
		if !entry && snap.heap[a] != v && isControl(a.T) {
			st.heap[a] = settle(st, v, a.T)
		}
	}
	run := fr.runs[b]
	oldEpoch := fr.epoch[b]
	if !entry {
		fr.epoch[b] = oldEpoch + 1
	}
	ep := fr.epoch[b]

	var pairs []*Term
	var widenTo func(cell string, old *Term, t types.Type) *Term
	widenTo = func(cell string, old *Term, t types.Type) *Term {
		if expandable(t) && structOf(t).NumFields() > 0 {
			fs := make([]*Term, structOf(t).NumFields())
			for i := range fs {
				fs[i] = widenTo(cell+"."+strconv.Itoa(i), mkField(old, i, t), structOf(t).Field(i).Type())
			}
			return mkStruct(t, fs)
		}
		k := key + "/" + cell
		lv := run.LV[k]
		if lv == nil {
			lv = &LV{Cell: m.cells[cell]}
			run.LV[k] = lv
		}
		if entry {
			lv.Init = addUniq(lv.Init, old)
		} else {
			lv.Back = addUniq(lv.Back, old)
		}
		if e.cfg.Cut {
			pairs = append(pairs, in.mk(Term{K: KLoopVar, Op: k, Idx: 1, T: t}, ""), old)
		}
		x := in.mk(Term{K: KLoopVar, Op: k, Idx: ep, T: t}, "")
		if m.mono[k] {
			for _, i := range lv.Init {
				st.assume(mkBin("<", x, i, types.Typ[types.Bool]), false)
			}
		}
		return x
	}

	keep := func(c string) bool {
		return m.ctl[c] && (len(m.str) > 0 || fr.split[b] != 0 && fr.split[b] == ep || fr.split[b] == 4)
	}

	// compare with the state at the previous arrival
	if !entry {
		bad := false
		for j, p := range ps {
			if vals[j].K == KAlloc && isPtrPhi(p) {
				c := "phic" + strconv.Itoa(j)
				if !m.wide[c] {
					ov := snap.heap[snap.phis[p]]
					nv := st.heap[vals[j]]
					if ov != nv {
						m.wide[c] = true
						m.changed = true
						bad = true
					}
				}
				continue
			}
			c := "phi" + strconv.Itoa(j)
			if e.cfg.OnStr != nil && isStringType(p.Type()) {
				if !m.str[c] && vals[j] != snap.phis[p] {
					m.str[c] = true
					m.changed = true
					bad = true
				}
				continue
			}
			if !m.wide[c] && vals[j] != snap.phis[p] {
				m.wide[c] = true
				if isControl(p.Type()) {
					m.ctl[c] = true
					m.split = m.split || !isStringType(p.Type())
				}
				m.changed = true
				bad = true
			}
		}
		skip := map[*Term]bool{}
		for j, p := range ps {
			if vals[j].K == KAlloc && isPtrPhi(p) {
				skip[vals[j]] = true
				skip[snap.phis[p]] = true
			}
		}
		check := func(a, ov, nv *Term) {
			if ov == nv {
				return
			}
			r := a.root()
			if skip[r] {
				return
			}
			if isFresh(r) {
				if n, ok := st.allocs[r]; ok && n > snap.nalloc {
					return
				}
			}
			c := "cell" + strconv.Itoa(a.id)
			if e.cfg.OnStr != nil && isStringType(a.T) {
				if !m.str[c] {
					m.str[c] = true
					m.cells[c] = a
					m.changed = true
					bad = true
				}
				return
			}
			if !m.wide[c] {
				m.wide[c] = true
				m.cells[c] = a
				if isControl(a.T) {
					m.ctl[c] = true
					m.split = m.split || types.IsInterface(a.T)
				}
				m.changed = true
				bad = true
			}
		}
		for a, nv := range st.heap {
			check(a, snap.heap[a], nv)
		}
		for a, ov := range snap.heap {
			if _, ok := st.heap[a]; !ok {
				check(a, ov, nil)
			}
		}
		if bad {
			return nil
		}
	}
	// new values
	for j, p := range ps {
		if vals[j].K == KAlloc && isPtrPhi(p) {
			c := "phic" + strconv.Itoa(j)
			if m.wide[c] {
				et := deref(p.Type())
				old := e.load(st, vals[j], et)
				st.clearRoot(vals[j])
				e.store(st, vals[j], widenTo(c, old, et), et)
			}
			fr.env[p] = vals[j]
			continue
		}
		c := "phi" + strconv.Itoa(j)
		if m.str[c] {
			e.cfg.OnStr(key+"/"+c, ep, vals[j], st)
			fr.env[p] = vals[j]
			if ep == 3 {
				fr.env[p] = genNumber(vals[j])
			}
		} else if m.wide[c] {
			fr.env[p] = widenTo(c, vals[j], p.Type())
			if keep(c) {
				fr.env[p] = vals[j]
			}
		} else {
			fr.env[p] = vals[j]
		}
	}
	for _, c := range sortedKeys(m.cells) {
		a := m.cells[c]
		old := e.load(st, a, a.T)
		if r := a.root(); isFresh(r) {
			if _, ok := st.allocs[r]; !ok {
				continue // not allocated on this path
			}
		}
		if m.str[c] {
			e.cfg.OnStr(key+"/"+c, ep, old, st)
			if ep == 3 {
				st.heap[a] = genNumber(old)
			}
			continue
		}
		st.heap[a] = widenTo(c, old, a.T)
		if keep(c) {
			st.heap[a] = old
		}
	}
	if ep == 4 {
		return nil
	}
	if e.cfg.Cut && !entry {
		if e.cfg.Coarse && !m.loud {
			if st.silent(key) {
				return nil
			}
			m.loud, m.changed = true, true
		}
		st.ev(&Event{Kind: "cut", Name: key, Args: pairs, Fn: fr.fn, Instr: b.Instrs[0], Site: key, Run: run})
		return []outcome{{st: st, kind: OIter}}
	}
	ns := &snapshot{heap: make(map[*Term]*Term, len(st.heap)), nalloc: st.lastAlloc(), phis: map[*ssa.Phi]*Term{}}
	for k, v := range st.heap {
		ns.heap[k] = v
	}
	for _, p := range ps {
		ns.phis[p] = fr.env[p]
	}
	fr.snap[b] = ns
	kind := "loop"
	if !entry {
		kind = "loopback"
	}
	st.ev(&Event{Kind: kind, Name: key, Args: pairs, Fn: fr.fn, Instr: b.Instrs[0], Site: key, Run: run})
	return e.exec(fr, st, b, len(ps))
}

func isPtrPhi(p *ssa.Phi) bool {
	if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, x := range p.Edges {
		if _, ok := x.(*ssa.Alloc); !ok {
			return false
		}
	}
	return true
}

// exec runs the instructions of block b from index i.
func (e *Engine) exec(fr *frame, st *State, b *ssa.BasicBlock, i int) []outcome {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > maxSteps {
			e.Overflow = "too many steps in " + fr.fn.String()
		}
		if e.Overflow != "" {
			return nil
		}
		ins := b.Instrs[i]
		fr.cur = ins
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return e.enter(fr, st, b.Succs[0], b)
		case *ssa.If:
			c := e.val(fr, x.Cond)
			if v, ok := st.facts.Eval(c); ok {
				s := 1
				if v {
					s = 0
				}
				return e.enter(fr, st, b.Succs[s], b)
			}
			f2, s2 := fr.clone(), st.clone()
			st.assume(c, true)
			outs := e.enter(fr, st, b.Succs[0], b)
			s2.assume(c, false)
			return append(outs, e.enter(f2, s2, b.Succs[1], b)...)
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, r))
			}
			return []outcome{{st: st, kind: OReturn, res: rs, end: x}}
		case *ssa.Panic:
			st.ev(&Event{Kind: "panic", Args: []*Term{e.val(fr, x.X)}, Fn: fr.fn, Instr: ins})
			return []outcome{{st: st, kind: OPanic, end: x}}
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			outs := e.runDefers(fr, st, x)
			var res []outcome
			for k, o := range outs {
				if o.kind != OReturn {
					res = append(res, o)
					continue
				}
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.defers = nil
				res = append(res, e.exec(f2, o.st, b, i+1)...)
			}
			return res
		case *ssa.Defer:
			d := deferred{instr: ins, com: &x.Call}
			d.fn, d.args = e.callee(fr, st, &x.Call)
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			fn, args := e.callee(fr, st, &x.Call)
			e.spawn(fr, st, ins, fn, args, &x.Call)
		case *ssa.Call:
			fn, args := e.callee(fr, st, &x.Call)
			outs := e.call(fr, st, ins, fn, args, &x.Call, x.Type())
			return e.resume(fr, b, i, x, outs)
		case *ssa.Select:
			outs := e.doSelect(fr, st, x)
			return e.resume(fr, b, i, x, outs)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ch := e.val(fr, x.X)
				outs := e.recv(fr, st, ins, ch, x.CommaOk, true, nil, x.Type())
				return e.resume(fr, b, i, x, outs)
			}
			fr.env[x] = e.unop(fr, st, x)
		case *ssa.Send:
			ch, v := e.val(fr, x.Chan), e.val(fr, x.X)
			st.ev(&Event{Kind: "send", Args: []*Term{ch, v}, Blocking: true, Fn: fr.fn, Instr: ins, Site: e.site(fr, ins)})
		case *ssa.Store:
			a, v := e.val(fr, x.Addr), e.val(fr, x.Val)
			e.doStore(fr, st, ins, a, v, x.Val.Type())
		case *ssa.MapUpdate:
			st.ev(&Event{Kind: "mapset", Args: []*Term{e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)}, Fn: fr.fn, Instr: ins})
		default:
			v, ok := ins.(ssa.Value)
			if !ok {
				e.Unsup[fmt.Sprintf("%T", ins)] = true
				continue
			}
			fr.env[v] = e.value(fr, st, v)
		}
	}
	return nil
}

type callOut struct {
	st   *State
	res  *Term
	kind int
	end  ssa.Instruction
}

// resume continues the frame after a call-like instruction with each of its outcomes.
func (e *Engine) resume(fr *frame, b *ssa.BasicBlock, i int, v ssa.Value, outs []callOut) []outcome {
	var res []outcome
	for k, o := range outs {
		if o.kind == OPanic || o.kind == OExit || o.kind == OIter {
			res = append(res, outcome{st: o.st, kind: o.kind, end: o.end})
			continue
		}
		if o.kind == OCut {
			continue
		}
		f2 := fr
		if k < len(outs)-1 {
			f2 = fr.clone()
		}
		f2.env[v] = o.res
		res = append(res, e.exec(f2, o.st, b, i+1)...)
	}
	return res
}

func (e *Engine) runDefers(fr *frame, st *State, ins ssa.Instruction) []outcome {
	states := []outcome{{st: st, kind: OReturn}}
	for k := len(fr.defers) - 1; k >= 0; k-- {
		d := fr.defers[k]
		var next []outcome
		for _, o := range states {
			if o.kind != OReturn {
				next = append(next, o)
				continue
			}
			for _, c := range e.callD(fr, o.st, d.instr, d.fn, d.args, d.com, nil, k) {
				if c.kind == OCut {
					continue
				}
				next = append(next, outcome{st: c.st, kind: c.kind, end: c.end})
			}
		}
		states = next
	}
	return states
}

// shared reports whether an address may be visible outside this path's own variables.
func shared(a *Term) bool {
	r := a.root()
	return r.K != KAlloc && r.K != KMakeSlice && r.K != KList
}

func (e *Engine) doStore(fr *frame, st *State, ins ssa.Instruction, a, v *Term, t types.Type) {
	if shared(a) || e.cfg.RecordLoads {
		st.ev(&Event{Kind: "store", Args: []*Term{a, v}, Fn: fr.fn, Instr: ins, Site: e.site(fr, ins)})
	}
	e.store(st, a, v, t)
}

// val returns the abstract value of an operand.
func (e *Engine) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return in.mk(Term{K: KGlobal, Op: x.RelString(nil), T: deref(x.Type()), Ref: x}, "")
	case *ssa.Function:
		f := x
		if o := x.Origin(); o != nil {
			f = o
		}
		return in.mk(Term{K: KFunc, Op: f.String(), T: x.Type(), Fn: f}, fmt.Sprintf("%p", f))
	case *ssa.Builtin:
		return in.mk(Term{K: KBuiltin, Op: x.Name()}, "")
	}
	t, ok := fr.env[v]
	if !ok || t == nil {
		e.Unsup[fmt.Sprintf("value %s in %s", v.Name(), fr.fn)] = true
		return mkUnknown(fr.id+":"+v.Name(), v.Type())
	}
	return t
}

func (e *Engine) unop(fr *frame, st *State, x *ssa.UnOp) *Term {
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		t := e.load(st, v, x.Type())
		if e.cfg.RecordLoads && (shared(v) || true) {
			st.ev(&Event{Kind: "load", Args: []*Term{v}, Res: []*Term{t}, Fn: fr.fn, Instr: x})
		}
		return t
	case token.NOT:
		return mkNot(v)
	case token.SUB:
		if c, ok := v.intConst(); ok {
			return mkConst(strconv.FormatInt(-c, 10), x.Type())
		}
	}
	return in.mk(Term{K: KUn, Op: x.Op.String(), Args: []*Term{v}, T: x.Type()}, "")
}

func numeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) value(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := in.mk(Term{K: KAlloc, Op: e.site(fr, x), T: deref(x.Type()), Ref: x}, "")
		st.clearRoot(t)
		e.bumpAlloc(st, t)
		return t
	case *ssa.BinOp:
		return mkBin(x.Op.String(), e.val(fr, x.X), e.val(fr, x.Y), x.Type())
	case *ssa.ChangeType:
		return e.val(fr, x.X)
	case *ssa.ChangeInterface:
		return e.val(fr, x.X)
	case *ssa.Convert:
		y := e.val(fr, x.X)
		if numeric(x.Type()) && x.X.Type() != nil && numeric(x.X.Type()) {
			return y
		}
		return in.mk(Term{K: KConv, Args: []*Term{y}, T: x.Type()}, typeKey(x.Type()))
	case *ssa.MultiConvert:
		return e.val(fr, x.X)
	case *ssa.SliceToArrayPointer:
		return mkUnknown(e.site(fr, x), x.Type())
	case *ssa.MakeInterface:
		y := e.val(fr, x.X)
		return in.mk(Term{K: KIface, Args: []*Term{y}, T: x.X.Type()}, typeKey(x.X.Type()))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, b))
		}
		fn := x.Fn.(*ssa.Function)
		if o := fn.Origin(); o != nil {
			fn = o
		}
		return in.mk(Term{K: KClosure, Op: e.site(fr, x), Args: bs, T: x.Type(), Fn: fn}, fmt.Sprintf("%p", fn))
	case *ssa.MakeChan:
		t := in.mk(Term{K: KMakeChan, Op: e.site(fr, x), Args: []*Term{e.val(fr, x.Size)}, T: x.Type()}, "")
		e.bumpAlloc(st, t)
		return t
	case *ssa.MakeSlice:
		t := in.mk(Term{K: KMakeSlice, Op: e.site(fr, x), Args: []*Term{e.val(fr, x.Len), e.val(fr, x.Cap)}, T: x.Type()}, "")
		e.bumpAlloc(st, t)
		return t
	case *ssa.MakeMap:
		t := in.mk(Term{K: KMakeMap, Op: e.site(fr, x), T: x.Type()}, "")
		e.bumpAlloc(st, t)
		return t
	case *ssa.Slice:
		y := e.val(fr, x.X)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && x.Low == nil && x.High == nil && x.Max == nil && at.Len() <= 64 {
				var es []*Term
				for i := int64(0); i < at.Len(); i++ {
					ia := in.mk(Term{K: KIndexAddr, Args: []*Term{y, mkInt(i)}, T: at.Elem()}, "")
					es = append(es, e.load(st, ia, at.Elem()))
				}
				return in.mk(Term{K: KList, Args: es, T: x.Type()}, "")
			}
		}
		g := func(v ssa.Value) *Term {
			if v == nil {
				return mkConst("-", nil)
			}
			return e.val(fr, v)
		}
		if x.Low == nil && x.High == nil && x.Max == nil {
			return y
		}
		if isStringType(x.X.Type()) {
			if t := strSlice(y, g(x.Low), g(x.High)); t != nil {
				return t
			}
		}
		return in.mk(Term{K: KSlice, Args: []*Term{y, g(x.Low), g(x.High), g(x.Max)}, T: x.Type()}, "")
	case *ssa.FieldAddr:
		return mkFieldAddr(e.val(fr, x.X), x.Field, deref(x.X.Type()))
	case *ssa.Field:
		return mkField(e.val(fr, x.X), x.Field, x.X.Type())
	case *ssa.IndexAddr:
		return in.mk(Term{K: KIndexAddr, Args: []*Term{e.val(fr, x.X), e.val(fr, x.Index)}, T: deref(x.Type())}, "")
	case *ssa.Index:
		b, i := e.val(fr, x.X), e.val(fr, x.Index)
		if c, ok := i.intConst(); ok && b.K == KList && int(c) < len(b.Args) {
			return b.Args[c]
		}
		return in.mk(Term{K: KIndex, Args: []*Term{b, i}, T: x.Type()}, "")
	case *ssa.Lookup:
		m, k := e.val(fr, x.X), e.val(fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return in.mk(Term{K: KIndex, Args: []*Term{m, k}, T: x.Type()}, "")
		}
		s := e.site(fr, x)
		r := in.mk(Term{K: KLookup, Op: s, Args: []*Term{m, k}, T: x.Type()}, "")
		ev := &Event{Kind: "mapget", Args: []*Term{m, k}, Fn: fr.fn, Instr: x}
		if x.CommaOk {
			r.T = x.Type().(*types.Tuple).At(0).Type()
			okT := in.mk(Term{K: KLookupOK, Op: s, Args: []*Term{m, k}, T: types.Typ[types.Bool]}, "")
			ev.Res = []*Term{r, okT}
			st.ev(ev)
			return mkTuple(r, okT)
		}
		ev.Res = []*Term{r}
		st.ev(ev)
		return r
	case *ssa.Range:
		return in.mk(Term{K: KRangeIt, Op: e.site(fr, x), Args: []*Term{e.val(fr, x.X)}}, "")
	case *ssa.Next:
		it := e.val(fr, x.Iter)
		s := e.site(fr, x)
		sc := mkConst("site:"+s, nil)
		var c *Term = it
		if it.K == KRangeIt {
			c = it.Args[0]
		}
		tt := x.Type().(*types.Tuple)
		ok := mkPure("rangeok", types.Typ[types.Bool], c, sc)
		k := mkPure("rangekey", tt.At(1).Type(), c, sc)
		val := mkPure("rangeval", tt.At(2).Type(), c, sc)
		st.ev(&Event{Kind: "next", Args: []*Term{c}, Res: []*Term{ok, k, val}, Fn: fr.fn, Instr: x})
		return mkTuple(ok, k, val)
	case *ssa.TypeAssert:
		y := e.val(fr, x.X)
		if y.K == KIface {
			_, toIface := x.AssertedType.Underlying().(*types.Interface)
			if !toIface {
				if types.Identical(y.T, x.AssertedType) {
					if x.CommaOk {
						return mkTuple(y.Args[0], tTrue)
					}
					return y.Args[0]
				}
				if x.CommaOk {
					return mkTuple(zeroOf(x.AssertedType), tFalse)
				}
			}
		}
		a := in.mk(Term{K: KAssert, Args: []*Term{y}, T: x.AssertedType}, typeKey(x.AssertedType))
		if x.CommaOk {
			return mkTuple(a, in.mk(Term{K: KIsType, Args: []*Term{y}, T: x.AssertedType}, typeKey(x.AssertedType)))
		}
		return a
	case *ssa.Extract:
		t := e.val(fr, x.Tuple)
		if t.K == KTuple && x.Index < len(t.Args) {
			return t.Args[x.Index]
		}
		return mkRet(e.site(fr, x), x.Index, x.Type())
	}
	e.Unsup[fmt.Sprintf("%T in %s", v, fr.fn)] = true
	return mkUnknown(fr.id+":"+v.Name(), v.Type())
}

func (e *Engine) bumpAlloc(st *State, t *Term) { st.allocs[t] = st.lastAlloc() + 1 }

// lastAlloc is the number of the most recent allocation.
func (s *State) lastAlloc() int {
	max := 0
	for _, n := range s.allocs {
		if n > max {
			max = n
		}
	}
	return max
}

// ---------------------------------------------------------------- channels

func (e *Engine) recv(fr *frame, st *State, ins ssa.Instruction, ch *Term, commaOk, blocking bool, alts []Alt, t types.Type) []callOut {
	s := e.site(fr, ins)
	sc := mkConst("site:"+s, nil)
	var et types.Type = t
	if tt, ok := t.(*types.Tuple); ok && commaOk {
		et = tt.At(0).Type()
	}
	mk := func(st *State, v, ok *Term) callOut {
		st.ev(&Event{Kind: "recv", Args: []*Term{ch}, Res: []*Term{v, ok}, Blocking: blocking, Alts: alts, Fn: fr.fn, Instr: ins, Site: s})
		if ch.K == KPure && ch.Op == "ctxdone" {
			st.assume(mkPure("cancelled", types.Typ[types.Bool], ch.Args[0]), true)
		}
		if commaOk {
			return callOut{st: st, res: mkTuple(v, ok)}
		}
		return callOut{st: st, res: v}
	}
	if e.cfg.OnRecv != nil {
		if v := e.cfg.OnRecv(st, ch); v != nil {
			s2 := st.clone()
			outs := []callOut{mk(st, v, tTrue)}
			// closed
			if commaOk {
				outs = append(outs, mk(s2, zeroOf(et), tFalse))
			}
			return outs
		}
	}
	v := mkPure("recv", et, ch, sc)
	if !commaOk {
		return []callOut{mk(st, v, mkPure("recvok", types.Typ[types.Bool], ch, sc))}
	}
	// fork: a value, or closed with the zero value
	s2 := st.clone()
	return []callOut{mk(st, v, tTrue), mk(s2, zeroOf(et), tFalse)}
}

func (e *Engine) doSelect(fr *frame, st *State, x *ssa.Select) []callOut {
	var alts []Alt
	for _, s := range x.States {
		a := Alt{Send: s.Dir == types.SendOnly, Ch: e.val(fr, s.Chan)}
		if a.Send {
			a.Val = e.val(fr, s.Send)
		}
		alts = append(alts, a)
	}
	tt := x.Type().(*types.Tuple)
	var outs []callOut
	nrecv := 0
	recvIdx := make([]int, len(x.States))
	for i, s := range x.States {
		recvIdx[i] = -1
		if s.Dir == types.RecvOnly {
			recvIdx[i] = nrecv
			nrecv++
		}
	}
	site := e.site(fr, x)
	for i, s := range x.States {
		if alts[i].Ch == tNil || st.facts.isNil(alts[i].Ch) {
			continue
		}
		s2 := st.clone()
		base := make([]*Term, tt.Len())
		for j := range base {
			base[j] = zeroOf(tt.At(j).Type())
		}
		base[0] = mkInt(int64(i))
		if s.Dir == types.SendOnly {
			s2.ev(&Event{Kind: "send", Args: []*Term{alts[i].Ch, alts[i].Val}, Blocking: x.Blocking, Alts: alts, Fn: fr.fn, Instr: x, Site: site})
			outs = append(outs, callOut{st: s2, res: mkTuple(base...)})
			continue
		}
		et := tt.At(2 + recvIdx[i]).Type()
		rt := types.NewTuple(types.NewVar(0, nil, "", et), types.NewVar(0, nil, "", types.Typ[types.Bool]))
		for _, o := range e.recv(fr, s2, x, alts[i].Ch, true, x.Blocking, alts, rt) {
			b2 := append([]*Term(nil), base...)
			b2[1] = o.res.Args[1]
			b2[2+recvIdx[i]] = o.res.Args[0]
			if alts[i].Ch.K == KPure && alts[i].Ch.Op == "ctxdone" && b2[1] == tTrue {
				continue // Done never delivers a value
			}
			outs = append(outs, callOut{st: o.st, res: mkTuple(b2...)})
		}
	}
	if !x.Blocking {
		s2 := st.clone()
		s2.ev(&Event{Kind: "seldefault", Alts: alts, Fn: fr.fn, Instr: x, Site: site})
		base := make([]*Term, tt.Len())
		for j := range base {
			base[j] = zeroOf(tt.At(j).Type())
		}
		base[0] = mkInt(int64(-1))
		outs = append(outs, callOut{st: s2, res: mkTuple(base...)})
	}
	return outs
}

// ---------------------------------------------------------------- goroutines

// bodies explores a function that will run asynchronously from the current state.
func (e *Engine) bodies(fr *frame, st *State, site string, fn *Term, args []*Term, com *ssa.CallCommon) ([]*Path, map[*Term]*Term) {
	s2 := st.clone()
	s2.trace = nil
	e.racy(fr, s2)
	start := make(map[*Term]*Term, len(s2.heap))
	for k, v := range s2.heap {
		start[k] = v
	}
	f := fn
	sub := &frame{fn: fr.fn, id: site, depth: fr.depth, env: fr.env, epoch: fr.epoch, parent: fr, cur: fr.cur}
	outs := e.callTerm(sub, s2, fr.cur, f, args, com, nil, site+"/go")
	var os []outcome
	for _, o := range outs {
		var rs []*Term
		if o.res != nil {
			rs = []*Term{o.res}
			if o.res.K == KTuple {
				rs = o.res.Args
			}
		}
		os = append(os, outcome{st: o.st, kind: o.kind, end: o.end, res: rs})
	}
	return e.paths(os), start
}

func (e *Engine) spawn(fr *frame, st *State, ins ssa.Instruction, fn *Term, args []*Term, com *ssa.CallCommon) {
	site := e.site(fr, ins)
	bs, start := e.bodies(fr, st, site, fn, args, com)
	st.ev(&Event{Kind: "go", Args: append([]*Term{fn}, args...), Bodies: bs, Fn: fr.fn, Instr: ins, Site: site})
	e.absorb(st, bs, start, site)
}

// absorb makes the effects of asynchronous code on shared variables unknown to this path.
func (e *Engine) absorb(st *State, bs []*Path, start map[*Term]*Term, site string) {
	for _, p := range bs {
		for a, v := range p.Heap {
			if st.heap[a] == v || start[a] == v {
				continue
			}
			r := a.root()
			if isFresh(r) {
				if _, ok := st.allocs[r]; !ok {
					continue // the goroutine's own
				}
			}
			st.heap[a] = in.mk(Term{K: KHavoc, Op: site, Args: []*Term{a}, T: a.T}, "")
		}
	}
}

// racy makes variables unknown to a goroutine that its creator may still write.
func (e *Engine) racy(fr *frame, st *State) {
	for f := fr; f != nil; f = f.parent {
		if f.cur == nil {
			continue
		}
		for v, t := range f.env {
			a, ok := v.(*ssa.Alloc)
			if !ok || t.K != KAlloc || !a.Heap {
				continue
			}
			for _, path := range e.storedAfter(f.fn, a, f.cur) {
				// the cells the path names, and those within or around them
				pre := t
				pt := t.T
				for _, ix := range path {
					if ix < 0 || structOf(pt) == nil || ix >= structOf(pt).NumFields() {
						break
					}
					pre = mkFieldAddr(pre, ix, pt)
					pt = structOf(pt).Field(ix).Type()
				}
				hit := false
				for ad := range st.heap {
					if within(ad, pre) || within(pre, ad) {
						st.heap[ad] = in.mk(Term{K: KHavoc, Op: "racy", Args: []*Term{ad}, T: ad.T}, "")
						hit = true
					}
				}
				if !hit && !expandable(pre.T) {
					st.heap[pre] = in.mk(Term{K: KHavoc, Op: "racy", Args: []*Term{pre}, T: pre.T}, "")
				}
			}
		}
	}
}

// within: address a is p or part of what p addresses.
func within(a, p *Term) bool {
	for {
		if a == p {
			return true
		}
		if a.K != KFieldAddr && a.K != KIndexAddr {
			return false
		}
		a = a.Args[0]
	}
}

// addrBase collects the variables an address may be part of, with the field path (-1: element).
func addrBase(v ssa.Value, path []int, seen map[ssa.Value]bool, out map[*ssa.Alloc][][]int) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		out[x] = append(out[x], path)
	case *ssa.FieldAddr:
		addrBase(x.X, append([]int{x.Field}, path...), seen, out)
	case *ssa.IndexAddr:
		addrBase(x.X, append([]int{-1}, path...), seen, out)
	case *ssa.Phi:
		for _, y := range x.Edges {
			addrBase(y, path, seen, out)
		}
	}
}

// storedAfter returns the parts of a that are stored to after ins without allocating a anew.
func (e *Engine) storedAfter(fn *ssa.Function, a *ssa.Alloc, ins ssa.Instruction) [][]int {
	var hits [][]int
	seen := map[*ssa.BasicBlock]bool{}
	scan := func(is []ssa.Instruction) (stop bool) {
		for _, i := range is {
			if i == ssa.Instruction(a) {
				return true
			}
			if s, ok := i.(*ssa.Store); ok {
				m := map[*ssa.Alloc][][]int{}
				addrBase(s.Addr, nil, map[ssa.Value]bool{}, m)
				hits = append(hits, m[a]...)
			}
		}
		return false
	}
	b := ins.Block()
	if b == nil {
		return nil
	}
	idx := len(b.Instrs)
	for i, x := range b.Instrs {
		if x == ins {
			idx = i + 1
		}
	}
	if scan(b.Instrs[idx:]) {
		return hits
	}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if !scan(x.Instrs) {
			work = append(work, x.Succs...)
		}
	}
	return hits
}

// LV returns what is known about a loop-carried value of this path.
func (p *Path) LV(t *Term) *LV {
	if t == nil || t.K != KLoopVar {
		return nil
	}
	var found *LV
	walkEvents(p.Events, func(e *Event) {
		if e.Run != nil && strings.HasPrefix(t.Op, e.Name+"/") {
			if lv := e.Run.LV[t.Op]; lv != nil {
				found = lv
			}
		}
	})
	return found
}

// walkEvents visits the events of a path and of the asynchronous code it starts.
func walkEvents(es []*Event, f func(*Event)) {
	for _, e := range es {
		f(e)
		for _, b := range e.Bodies {
			walkEvents(b.Events, f)
		}
	}
}
