package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relStaged = "pipelines/stagedpipe"

// staged finds the parts of package stagedpipe by what they do. Objects are named by where a Pipelines ("P") or a
// RequestGroup ("G") keeps them: "P.in*" is what the pointer or channel field in holds, "G.wg" the field wg itself.
type staged struct {
	c     *Check
	rec   *Term // whether spans record
	reqT  *types.Named
	pipT  *types.Named
	grpT  *types.Named
	names map[*Term]string
	lvs   map[string]*LV
	own   map[string]*LV      // of the path being looked at
	fixed map[*types.Var]bool // fields set by the constructors only

	fCtx, fData, fErr, fNext int
	g, k                     int // routing and order fields of a Request

	newF, subF, nrgF, gclF, pclF, outF *ssa.Function
	subE, newE, nrgE                   *Engine
	subA, newA                         []*Term
	subP, newP, nrgP, gclP, pclP       []*Path

	in      string // what Submit sends to
	out     string // what the workers send to
	groupWG string
	pipWG   string
	id      string // of a group
	demux   string
	user    string // what Out returns
	workers []*Event
	fwd     []*forwarder
	keyFn   *Term
	pps     *Term // the pre-processors workers are given
	ppsVar  *types.Var
	resets  bool // the first pre-processor clears Next and does nothing else
	base    *Path
	builds  map[*ssa.Function]bool // C38: the functions that build a Pipelines
	// C40: the span of the request a worker received, whether it is taken to be recording, and the Contexts of loops
	// that are taken to carry it
	rs      *Term
	assume  bool
	assumed map[*Term]bool
}

// forwarder is the code that passes on what the demultiplexer gives to a group.
type forwarder struct {
	p     *Path // of NewRequestGroup
	ev    *Event
	ch    *Term
	user  *Term
	order *Event // NewInOrder, nil if there is none
}

func (c *Check) dropStaged(e *Event) bool {
	if c.Prop == "C37" || c.Prop == "C44" {
		return false
	}
	if !strings.HasPrefix(e.Kind, "atomic.") || e.Kind == "atomic.add" {
		return false
	}
	// the counters of a group and of the Pipelines are read as well
	if len(e.Args) > 0 && e.Args[0].K == KFieldAddr {
		if o := e.Args[0].Args[0]; o.T != nil && (isPtrTo(o.T, c.typ(relStaged, "RequestGroup")) || isPtrTo(o.T, c.typ(relStaged, "Pipelines"))) {
			return false
		}
	}
	return true
}

func (s *staged) cfg() Config {
	if s.c.Prop == "C35" {
		return Config{
			Cut: true, Coarse: true, Recording: s.rec, KeepStr: true, Loud: searches,
			RecordLoads: true,
			Drop: func(e *Event) bool {
				if e.Kind == "load" || e.Kind == "store" && (e.Args[1].K != KAppend || !isStringType(e.Args[1].Args[len(e.Args[1].Args)-1].T)) {
					return true
				}
				return strings.HasPrefix(e.Kind, "atomic.") || e.Kind == "call" && !strings.HasPrefix(e.Name, "(*sync.Pool).") && !strings.Contains(e.Name, "/dynamics/demux.")
			},
			Hold: visitFact, Carry: s.isReq, Model: s.modelFn(),
		}
	}
	if s.c.Prop == "C40" {
		return Config{
			Cut: true, Coarse: true, Spans: true,
			Drop:  s.c.dropStaged,
			Hold:  func(t *Term) bool { return aboutCtx(t) || t.K == KPure && t.Op == "recording" },
			Carry: s.isReq,
		}
	}
	var loud func(map[*ssa.BasicBlock]bool) bool
	if s.c.Prop == "C38" {
		if s.builds == nil {
			s.builds = s.building()
		}
		loud = func(bs map[*ssa.BasicBlock]bool) bool {
			for b := range bs {
				return s.builds[b.Parent()]
			}
			return false
		}
	}
	return Config{
		Cut: true, Coarse: true, Recording: s.rec, Loud: loud,
		Drop:  s.c.dropStaged,
		Hold:  aboutCtx,
		Carry: s.isReq,
		Model: s.modelFn(),
	}
}

// aboutCtx: a comparison of Contexts.
func aboutCtx(t *Term) bool {
	if t.K != KBin || t.Op != "==" {
		return false
	}
	for _, a := range t.Args {
		if a.T != nil && isContext(a.T) {
			return true
		}
	}
	return false
}

// model: accessors of the demultiplexer that change nothing a rule looks at.
func (s *staged) modelFn() func(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
	switch s.c.Prop {
	case "C37", "C44":
		return timed(s)
	case "C35":
		return named(s)
	case "C38":
		return counts(s)
	}
	return nil
}

func (s *staged) isReq(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Origin().Obj() == s.reqT.Obj()
}

func isPtrTo(t types.Type, n *types.Named) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	m, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && m.Origin().Obj() == n.Obj()
}

func (s *staged) field(v *Term, i int) *Term { return mkField(v, i, s.reqT) }

// ---------------------------------------------------------------- names

// norm removes what user options and goroutines may do to fields that only constructors set, and loops that leave a
// value alone.
func (s *staged) norm(t *Term) *Term { return s.normD(t, 0) }

func (s *staged) normD(t *Term, d int) *Term {
	if t == nil || d > 20 {
		return t
	}
	switch t.K {
	case KHavoc:
		if v, ok := t.Args[0].Ref.(*types.Var); ok && s.fixed[v] && len(t.Args) > 1 {
			return s.normD(t.Args[1], d+1)
		}
	case KLoopVar:
		lv := s.lv(t.Op)
		if lv == nil || len(lv.Init) != 1 {
			return t
		}
		n := s.normD(lv.Init[0], d+1)
		for _, b := range lv.Back {
			b = s.strip(b, t.Op, d+1)
			if b != nil && b != n {
				return t
			}
		}
		return n
	}
	return t
}

// strip is norm for a value on a back edge: nil if it is the loop's own value.
func (s *staged) strip(t *Term, op string, d int) *Term {
	for t.K == KHavoc && len(t.Args) > 1 {
		if v, ok := t.Args[0].Ref.(*types.Var); !ok || !s.fixed[v] {
			return t
		}
		t = t.Args[1]
	}
	if t.K == KLoopVar && t.Op == op {
		return nil
	}
	return s.normD(t, d)
}

func (s *staged) learn(ps []*Path) {
	for _, p := range ps {
		walkEvents(p.Events, func(e *Event) {
			if e.Run != nil {
				for k, v := range e.Run.LV {
					s.lvs[k] = s.lvs[k].union(v)
				}
			}
		})
	}
}

// union: loops entered in different states share the names of their values.
func (l *LV) union(o *LV) *LV {
	if l == nil || l == o {
		return o
	}
	u := &LV{Cell: l.Cell}
	for _, x := range []*LV{l, o} {
		for _, t := range x.Init {
			u.Init = addUniq(u.Init, t)
		}
		for _, t := range x.Back {
			u.Back = addUniq(u.Back, t)
		}
	}
	return u
}

// local makes norm speak about one path.
func (s *staged) local(p *Path) {
	s.own = map[string]*LV{}
	if p == nil {
		return
	}
	walkEvents(p.Events, func(e *Event) {
		if e.Run != nil {
			for k, v := range e.Run.LV {
				s.own[k] = v
			}
		}
	})
}

// lv is what is known about a value a loop carries.
func (s *staged) lv(op string) *LV {
	if l := s.own[op]; l != nil {
		return l
	}
	return s.lvs[op]
}

func (s *staged) sym(t *Term) string {
	t = s.norm(t)
	if t == nil {
		return "?"
	}
	if n, ok := s.names[t]; ok {
		return n
	}
	switch t.K {
	case KParam, KLoad:
		if isPtrTo(t.T, s.pipT) {
			return "P"
		}
		if isPtrTo(t.T, s.grpT) {
			return "G"
		}
	}
	switch t.K {
	case KLoad:
		return s.sym(t.Args[0]) + "*"
	case KFieldAddr:
		if v, ok := t.Ref.(*types.Var); ok {
			return s.sym(t.Args[0]) + "." + v.Name()
		}
	}
	return fmt.Sprintf("t%d", t.id)
}

// nameObj names what the fields of an object hold at the end of a path.
func (s *staged) nameObj(p *Path, obj *Term, t types.Type, prefix string, d int) {
	st := structOf(t)
	if st == nil || d > 4 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		a := mkFieldAddr(obj, i, t)
		n := prefix + "." + st.Field(i).Name()
		if expandable(st.Field(i).Type()) {
			s.nameObj(p, a, st.Field(i).Type(), n, d+1)
			continue
		}
		v := s.norm(p.E.load(p.StateOf(), a, a.T))
		switch v.K {
		case KMakeChan, KAlloc, KParam, KPure, KRet:
			if isPtrTo(v.T, s.pipT) || isPtrTo(v.T, s.grpT) {
				continue
			}
			s.names[v] = n + "*"
			if v.K == KAlloc {
				s.nameObj(p, v, v.T, n+"*", d+1)
			}
		}
	}
}

// ---------------------------------------------------------------- setup

func (c *Check) staged(rec *Term) *staged { return c.stagedAs(rec, false) }

func (c *Check) stagedAs(rec *Term, assume bool) *staged {
	s := &staged{c: c, rec: rec, assume: assume, assumed: map[*Term]bool{}, names: map[*Term]string{}, lvs: map[string]*LV{}, fixed: map[*types.Var]bool{}, g: -1, k: -1}
	s.reqT, s.pipT, s.grpT = c.typ(relStaged, "Request"), c.typ(relStaged, "Pipelines"), c.typ(relStaged, "RequestGroup")
	f := func(n string) int {
		is := fieldsOf(s.reqT, nameIs(n))
		c.need(len(is) == 1, "anchor", "Request has field %s", n)
		return is[0]
	}
	s.fCtx, s.fData, s.fErr, s.fNext = f("Ctx"), f("Data"), f("Err"), f("Next")
	s.newF = c.fn(relStaged, "New")
	s.subF = c.method(relStaged, "RequestGroup", "Submit")
	s.gclF = c.method(relStaged, "RequestGroup", "Close")
	s.outF = c.method(relStaged, "RequestGroup", "Out")
	s.nrgF = c.method(relStaged, "Pipelines", "NewRequestGroup")
	s.pclF = c.method(relStaged, "Pipelines", "Close")

	// fields only constructors set
	for _, t := range []*types.Named{s.pipT, s.grpT} {
		st := structOf(t)
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i).Origin()
			ok := true
			for _, w := range c.L.storesTo(v) {
				if !c.L.onlyFrom(w.Parent(), s.newF, s.nrgF) {
					ok = false
				}
			}
			s.fixed[v] = ok && !s.addressTaken(v)
		}
	}

	run := func(f *ssa.Function) (*Engine, []*Term, []*Path) {
		e := c.eng(s.cfg())
		a, ps := c.run(e, f)
		s.learn(ps)
		return e, a, ps
	}
	s.subE, s.subA, s.subP = run(s.subF)
	c.need(len(s.subA) == 2, "role: parameters", "Submit takes a Request")
	_, _, s.gclP = run(s.gclF)
	s.gclP = c.firstOnly(s.gclF, s.gclP)
	_, _, s.pclP = run(s.pclF)
	s.nrgE, _, s.nrgP = run(s.nrgF)

	// what Submit sends to
	for _, p := range s.subP {
		for _, e := range evs(p.Events, "send") {
			if s.isReqVal(e.Args[1]) {
				n := s.sym(e.Args[0])
				c.need(s.in == "" || s.in == n, "role: input", "Submit sends to one channel")
				s.in = n
			}
		}
	}
	c.need(strings.HasPrefix(s.in, "P."), "role: input", "Submit sends the Request to a channel of the Pipelines (%s)", s.in)
	// what the Close methods wait for
	for _, p := range s.gclP {
		for _, e := range evs(p.Events, "wg.wait") {
			if n := s.sym(e.Args[0]); strings.HasPrefix(n, "G.") {
				s.groupWG = n
			}
		}
	}
	for _, p := range s.pclP {
		for _, e := range allEvs(p.Events, "wg.wait") {
			if n := s.sym(e.Args[0]); strings.HasPrefix(n, "P.") {
				s.pipWG = n
			}
		}
	}
	// what Out gives
	oe := c.eng(s.cfg())
	_, ops := c.run(oe, s.outF)
	for _, p := range ops {
		if p.Kind == OReturn {
			n := s.sym(p.Results[0])
			c.need(s.user == "" || s.user == n, "role: output", "Out returns one channel")
			s.user = n
		}
	}
	c.need(strings.HasPrefix(s.user, "G."), "role: output", "Out returns a channel of the group (%s)", s.user)

	s.newWorkers()
	s.newForwarders()
	return s
}

func (s *staged) isReqVal(t *Term) bool { return t != nil && t.T != nil && s.isReq(t.T) }

// addressTaken: the address of the field goes anywhere but into a load, a store or a method call.
func (s *staged) addressTaken(v *types.Var) bool {
	for _, f := range s.c.L.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || fieldVar(deref(fa.X.Type()), fa.Field) != v || fa.Referrers() == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					case *ssa.Store:
						if r.Val == ssa.Value(fa) {
							return true
						}
					default:
						if isOpaqueSync(v.Type()) {
							continue
						}
						return true
					}
				}
			}
		}
	}
	return false
}

// newWorkers analyses New: the channels, the demultiplexer and the workers.
func (s *staged) newWorkers() {
	c := s.c
	cfg := s.cfg()
	if c.Prop == "C44" {
		cfg.Drop = func(e *Event) bool {
			return e.Kind == "atomic.load" || e.Kind == "atomic.cas"
		}
	}
	cleared := s.cleared()
	var inT *Term
	if s.assume {
		cfg.SpanOf = func(ctx *Term) *Term {
			if ctx.K == KLoopVar && s.rs != nil {
				s.assumed[ctx] = true
				return s.rs
			}
			return nil
		}
	}
	cfg.OnRecv = func(st *State, ch *Term) *Term {
		if inT == nil || s.sym(ch) != s.in {
			return nil
		}
		// what Submit always sets to the same constant
		et := ch.T.Underlying().(*types.Chan).Elem()
		v := mkPure("request", et, ch)
		fs := make([]*Term, structOf(et).NumFields())
		for i := range fs {
			fs[i] = mkField(v, i, et)
			if cleared[i] != nil {
				fs[i] = cleared[i]
			}
		}
		if c.Prop == "C40" {
			s.rs = leafOf(v, et, c.spanCell(s.reqT))
			ct := structOf(et).Field(s.fCtx).Type()
			fs[s.fCtx] = mkPure("valuectx", ct, fs[s.fCtx], mkConst("withspan", nil), s.rs)
			if s.assume {
				st.assume(mkPure("recording", types.Typ[types.Bool], s.rs), true)
			}
		}
		return mkStruct(et, fs)
	}
	// first to find the channels, then to follow the workers
	for pass := 0; pass < 2; pass++ {
		s.newE = c.eng(cfg)
		s.newA, s.newP = c.run(s.newE, s.newF)
		s.learn(s.newP)
		s.base = nil
		for _, p := range s.newP {
			if p.Kind == OReturn && len(p.Results) == 2 && p.Results[0] != tNil {
				c.need(p.Results[0].K == KAlloc, "role: Pipelines", "New returns a Pipelines it made (%s)", c.pathAt(s.newF, p))
				s.names[p.Results[0]] = "P"
				s.nameObj(p, p.Results[0], deref(p.Results[0].T), "P", 0)
				if structOf(p.Results[0].T) != nil {
					s.nameObj(p, p.Results[0], p.Results[0].T, "P", 0)
				}
				s.base = p
			}
		}
		c.need(s.base != nil, "role: Pipelines", "New can return a Pipelines")
		for t, n := range s.names {
			if n == s.in && t.K == KMakeChan {
				inT = t
			}
		}
		c.need(inT != nil, "role: input", "New makes the channel Submit sends to")
	}
	for _, p := range s.newP {
		for _, e := range evs(p.Events, "call") {
			if isDemuxFn(e.Name, "New") && len(e.Args) >= 2 {
				n := s.sym(e.Args[0])
				c.need(s.out == "" || s.out == n, "role: demux", "New passes one channel to the demultiplexer")
				s.out, s.keyFn = n, e.Args[1]
				s.demux = s.sym(e.Res[0])
			}
		}
	}
	c.need(s.out != "" && s.keyFn != nil, "role: demux", "New starts a demultiplexer")
	s.g = s.keyField(s.newE, s.keyFn, "the demultiplexer's key")

	seen := map[*Event]bool{}
	for _, p := range s.newP {
		for _, e := range allEvs(p.Events, "go") {
			if seen[e] {
				continue
			}
			seen[e] = true
			for _, b := range e.Bodies {
				if len(s.on(b.Events, "recv", s.in)) > 0 {
					s.workers = append(s.workers, e)
					break
				}
			}
		}
	}
	c.need(len(s.workers) > 0, "role: workers", "New starts goroutines that receive from what Submit sends to")
	s.findPreProcessors()
}

// cleared: the fields of a Request Submit sets to the same constant on all paths.
func (s *staged) cleared() map[int]*Term {
	r := map[int]*Term{}
	first := true
	for _, p := range s.subP {
		for _, e := range evs(p.Events, "send") {
			if !s.isReqVal(e.Args[1]) {
				continue
			}
			for i := 0; i < structOf(s.reqT).NumFields(); i++ {
				v := s.field(e.Args[1], i)
				if first && v.K == KConst {
					r[i] = v
				} else if r[i] != v {
					delete(r, i)
				}
			}
			first = false
		}
	}
	return r
}

func isDemuxFn(name, fn string) bool {
	return strings.HasSuffix(name, "/dynamics/demux."+fn)
}

func isDemuxMethod(name, m string) bool {
	return strings.Contains(name, "/dynamics/demux.") && strings.HasSuffix(name, ")."+m)
}

// on are the operations on a named channel.
func (s *staged) on(es []*Event, kind, name string) []*Event {
	var r []*Event
	for _, e := range es {
		if e.Kind == kind && s.sym(e.Args[0]) == name {
			r = append(r, e)
		}
	}
	return r
}

// keyField is the field of a Request a key function returns.
func (s *staged) keyField(e *Engine, fn *Term, what string) int {
	c := s.c
	c.need(fn.K == KFunc || fn.K == KClosure, "role: key", "%s is a known function", what)
	f := fn.Fn
	if o := f.Origin(); o != nil {
		f = o
	}
	var bind []*Term
	if fn.K == KClosure {
		bind = fn.Args
	}
	args := e.params(f)
	k := -1
	for _, p := range e.RunClosure(f, bind, args, nil) {
		c.need(p.Kind == OReturn && len(p.Results) == 1, "role: key", "%s returns", what)
		r := p.Results[0]
		c.need(r.K == KField && r.Args[0] == args[0] && (k < 0 || k == r.Idx), "role: key", "%s is one field of the Request (%s)", what, r)
		k = r.Idx
	}
	v := fieldVar(s.reqT, k)
	c.need(v != nil && !v.Exported(), "role: key", "%s is a field user code cannot set", what)
	return k
}

// newForwarders finds the code of NewRequestGroup that passes on what the demultiplexer gives.
func (s *staged) newForwarders() {
	c := s.c
	for _, p := range s.nrgP {
		at := c.pathAt(s.nrgF, p)
		if p.Kind != OReturn {
			c.ob(false, "NewRequestGroup returns a group", at, "a path ends in a panic or exit")
			continue
		}
		G := p.Results[0]
		c.need(G.K == KAlloc, "role: group", "NewRequestGroup returns a group it made")
		s.names[G] = "G"
		s.nameObj(p, G, s.grpT, "G", 0)
		reg := s.registrations(p)
		c.need(len(reg) == 1, "role: group", "NewRequestGroup registers a channel with the demultiplexer once (%d times, %s)", len(reg), at)
		st := structOf(s.grpT)
		t := s.grpT
		id := ""
		for i := 0; i < st.NumFields(); i++ {
			if p.heapVal(mkFieldAddr(G, i, t)) == reg[0].Args[1] {
				id = "G." + st.Field(i).Name() + "*"
			}
		}
		c.need(id != "" && (s.id == "" || s.id == id), "role: group", "the group keeps the identity it is registered with")
		s.id = id
		u := p.heapVal(s.groupField(G, s.user))
		fw := &forwarder{p: p, ch: reg[0].Args[2], user: u}
		for _, e := range evs(p.Events, "call") {
			if isDemuxFn(e.Name, "NewInOrder") {
				c.need(fw.order == nil, "role: order", "one InOrder is made (%s)", at)
				fw.order = e
				if len(e.Args) == 2 {
					k := s.keyField(s.nrgE, e.Args[0], "the order key")
					c.need(s.k < 0 || s.k == k, "role: order", "one order key")
					s.k = k
				}
			}
		}
		for _, e := range evs(p.Events, "go") {
			for _, b := range e.Bodies {
				if len(onChan(b.Events, "recv", fw.ch)) > 0 {
					c.need(fw.ev == nil || fw.ev == e, "role: forwarder", "one goroutine receives what the demultiplexer gives (%s)", at)
					fw.ev = e
				}
			}
		}
		c.need(fw.ev != nil, "role: forwarder", "a goroutine receives what the demultiplexer gives (%s)", at)
		s.fwd = append(s.fwd, fw)
	}
	c.need(len(s.fwd) > 0, "role: forwarder", "NewRequestGroup returns")
	if s.k == s.g {
		c.ob(false, "requests are ordered and routed by different fields", c.at(s.nrgF), "one field is used for both")
	}
}

func (s *staged) registrations(p *Path) []*Event {
	var r []*Event
	for _, e := range evs(p.Events, "call") {
		if isDemuxMethod(e.Name, "AddReceiver") && len(e.Args) == 3 {
			r = append(r, e)
		}
	}
	return r
}

// groupField is the address of a field named like "G.user*" in a group.
func (s *staged) groupField(G *Term, name string) *Term {
	n := strings.TrimSuffix(strings.TrimPrefix(name, "G."), "*")
	var t types.Type = s.grpT
	a := G
	for _, f := range strings.Split(n, ".") {
		is := fieldsOf(t, nameIs(f))
		s.c.need(len(is) == 1, "role: group", "the group keeps %s in a field of its own", name)
		a = mkFieldAddr(a, is[0], t)
		t = structOf(t).Field(is[0]).Type()
	}
	return a
}

// ---------------------------------------------------------------- Submit

// submits visits the returning paths of Submit: sent is what it sends, nil if nothing.
func (s *staged) submits(f func(p *Path, sent *Event, ok bool, at string)) {
	c := s.c
	n := 0
	for _, p := range s.subP {
		at := c.pathAt(s.subF, p)
		if p.Kind != OReturn {
			c.ob(false, "Submit returns", at, "a path ends in a panic or does not end")
			continue
		}
		isNil, known := isErrNil(p, p.Results[0])
		if !known {
			isNil = p.Results[0].K == KConst
		}
		if !c.ob(known, "whether Submit fails is decided by what it did", at, "returns %s", p.Results[0]) {
			continue
		}
		var sent *Event
		m := 0
		for _, e := range s.on(allEvs(p.Events, "send"), "send", s.in) {
			sent = e
			m++
		}
		if isNil {
			n++
			c.ob(m == 1, "Submit hands the request over exactly once when it returns nil", at, "%d times", m)
		} else {
			c.ob(m == 0, "Submit does not hand the request over when it fails", at, "%d times", m)
		}
		f(p, sent, isNil, at)
	}
	c.need(n > 0, "role: Submit", "Submit can succeed")
}

// sameReq: the sent Request is the one given, but for the given fields.
func (s *staged) routed(sent *Event, at string) {
	c := s.c
	v, in := sent.Args[1], s.subA[1]
	c.ob(s.sym(s.field(v, s.g)) == s.id, "Submit sets the identity of its group on the request", at, "field %s is %s", fieldVar(s.reqT, s.g).Name(), s.field(v, s.g))
	c.ob(s.field(v, s.fData) == s.field(in, s.fData), "Submit hands over the Data it was given", at, "sends %s", s.field(v, s.fData))
	c.ob(s.field(v, s.fErr) == s.field(in, s.fErr) || s.field(v, s.fErr) == tNil, "Submit hands over the request it was given", at, "sends Err %s", s.field(v, s.fErr))
	cr := ctxRoot(s.field(v, s.fCtx))
	c.ob(cr == ctxRoot(s.field(in, s.fCtx)), "Submit hands over the Context it was given", at, "sends %s", s.field(v, s.fCtx))
}

// wgNet is what a path adds to a WaitGroup.
func (s *staged) wgNet(es []*Event, name string) (n int64) {
	for _, e := range allEvs(es, "wg.add") {
		if s.sym(e.Args[0]) == name {
			d, ok := delta(e)
			if !ok {
				return -1 << 20
			}
			n += d
		}
	}
	return n
}

// before are the events before e.
func before(es []*Event, e *Event) []*Event {
	for i, x := range es {
		if x == e {
			return es[:i]
		}
	}
	return es
}

func after(es []*Event, e *Event) []*Event {
	for i, x := range es {
		if x == e {
			return es[i+1:]
		}
	}
	return nil
}

// counted: accepted requests are counted before they are handed over, refused ones are not counted in the end.
func (s *staged) counted(wg, what string) {
	c := s.c
	c.need(wg != "", "role: WaitGroup", "%s waits for a WaitGroup of its own", what)
	s.submits(func(p *Path, sent *Event, ok bool, at string) {
		if sent != nil {
			n := s.wgNet(before(p.Events, sent), wg)
			c.ob(n == 1, "an accepted request is counted before it is handed over", at, "%s is %+d by then", wg, n)
			n = s.wgNet(p.Events, wg)
			c.ob(n == 1, "an accepted request is counted exactly once", at, "%s is %+d at the end", wg, n)
			return
		}
		n := s.wgNet(p.Events, wg)
		c.ob(n == 0, "a refused request is not counted", at, "%s is %+d at the end", wg, n)
		run := int64(0)
		for _, e := range p.Events {
			if e.Kind == "wg.add" && s.sym(e.Args[0]) == wg {
				d, _ := delta(e)
				run += d
				c.ob(run >= 0, "a request is counted before it is discounted", at, "%s is %+d at %s", wg, run, c.L.pos(e.Instr))
			}
		}
	})
	// nobody else counts
	s.others(func(f *ssa.Function, p *Path) {
		n := 0
		for _, e := range allEvs(p.Events, "wg.add") {
			if s.sym(e.Args[0]) == wg {
				n++
			}
		}
		c.ob(n == 0, "only Submit and the group's forwarder count requests", c.pathAt(f, p), "%s is changed %d times", wg, n)
	})
}

// others visits the paths of the other exported functions, and of New and the Close methods.
func (s *staged) others(f func(fn *ssa.Function, p *Path)) {
	c := s.c
	for _, fn := range c.L.exported(relStaged) {
		switch fn {
		case s.subF, s.nrgF:
			continue
		case s.newF:
			for _, p := range s.newP {
				f(fn, p)
			}
			continue
		case s.gclF:
			for _, p := range s.gclP {
				f(fn, p)
			}
			continue
		case s.pclF:
			for _, p := range s.pclP {
				f(fn, p)
			}
			continue
		}
		e := c.eng(s.cfg())
		_, ps := c.run(e, fn)
		for _, p := range ps {
			f(fn, p)
		}
	}
}

// ---------------------------------------------------------------- forwarders

// forward checks the code that passes requests on to the group's user.
func (s *staged) forward(f func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string), end func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string)) {
	c := s.c
	for _, fw := range s.fwd {
		for _, b := range fw.ev.Bodies {
			at := c.evAt(fw.ev)
			if b.End != nil {
				at += ", path ending at " + c.L.pos(b.End)
			}
			rs := onChan(b.Events, "recv", fw.ch)
			if b.Kind == OPanic || b.Kind == OExit {
				// allowed only where ordering reports an impossible error
				ok := false
				for _, e := range evs(b.Events, "call") {
					if isDemuxMethod(e.Name, "Add") && len(e.Res) == 1 {
						if isNil, known := isErrNil(b, e.Res[0]); known && !isNil {
							ok = true
						}
					}
				}
				c.ob(ok, "the forwarder does not panic", at, "a path ends in a panic or exit")
				continue
			}
			if len(rs) == 0 {
				c.ob(b.Kind == OIter, "the forwarder receives until its channel is closed", at, "it ends without receiving")
				continue
			}
			for i, r := range rs {
				stop := len(b.Events)
				if i+1 < len(rs) {
					for j, e := range b.Events {
						if e == rs[i+1] {
							stop = j
						}
					}
				}
				rest := after(b.Events[:stop], r)
				switch r.Res[1] {
				case tTrue:
					f(fw, b, r, rest, at)
					c.ob(i+1 < len(rs) || b.Kind == OIter, "the forwarder receives until its channel is closed", at, "it ends after a request")
				case tFalse:
					c.ob(b.Kind == OReturn, "the forwarder ends when its channel is closed", at, "it goes on")
					end(fw, b, r, rest, at)
				default:
					c.ob(false, "the forwarder notices that its channel is closed", at, "it does not look")
				}
			}
		}
	}
}

// deliveries are the events that pass a request to the user.
func (s *staged) deliveries(fw *forwarder, es []*Event) []*Event {
	var r []*Event
	for _, e := range es {
		switch e.Kind {
		case "send":
			if e.Args[0] == fw.user {
				r = append(r, e)
			}
		case "call":
			if fw.order != nil && isDemuxMethod(e.Name, "Add") && e.Args[0] == fw.order.Res[0] {
				r = append(r, e)
			}
		}
	}
	return r
}

func (s *staged) delivered() {
	c := s.c
	for _, fw := range s.fwd {
		at := c.pathAt(s.nrgF, fw.p)
		c.ob(fw.ch.K == KMakeChan && fw.user.K == KMakeChan && fw.ch != fw.user, "a group has its own channels", at, "registered %s, given to the user %s", fw.ch, fw.user)
		if fw.order != nil {
			c.ob(len(fw.order.Args) == 2 && fw.order.Args[1] == fw.user, "ordered output goes to the channel Out returns", at, "goes to %s", fw.order.Args[1])
		}
	}
	s.forward(func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string) {
		ds := s.deliveries(fw, rest)
		c.ob(len(ds) == 1, "each request the group receives is passed on exactly once", at, "%d times", len(ds))
		for _, d := range ds {
			c.ob(d.Kind != "send" || d.Blocking && len(d.Alts) <= 1, "the forwarder waits until the user takes the request", at, "it may give up")
			c.ob(d.Kind == "send" == (fw.order == nil), "ordered groups pass requests on through the InOrder", at, "by %s", d.Kind)
			v := d.Args[1]
			for _, i := range []int{s.fData, s.fErr, s.fNext, s.k} {
				if i >= 0 {
					c.ob(s.field(v, i) == s.field(recv.Res[0], i), "the forwarder passes the request on as it is", at, "%s becomes %s", fieldVar(s.reqT, i).Name(), s.field(v, i))
				}
			}
			c.ob(ctxRoot(s.field(v, s.fCtx)) == ctxRoot(s.field(recv.Res[0], s.fCtx)), "the forwarder passes the request on as it is", at, "Ctx becomes %s", s.field(v, s.fCtx))
		}
		for _, e := range rest {
			c.ob(!blockingOp(e) || isIn(ds, e), "the forwarder waits for nothing but the user", at, "%s at %s", e.Kind, c.L.pos(e.Instr))
		}
	}, func(fw *forwarder, b *Path, recv *Event, rest []*Event, at string) {
		ds := s.deliveries(fw, rest)
		c.ob(len(ds) == 0, "nothing is passed on that was not received", at, "%d requests after the channel was closed", len(ds))
	})
	// nobody else takes part
	chans := map[string]bool{s.in: true, s.out: true, s.user: true}
	for _, fw := range s.fwd {
		st := structOf(s.grpT)
		for i := 0; i < st.NumFields(); i++ {
			if fw.p.heapVal(mkFieldAddr(fw.p.Results[0], i, s.grpT)) == fw.ch {
				chans["G."+st.Field(i).Name()+"*"] = true
			}
		}
	}
	isWorker := map[*Event]bool{}
	for _, w := range s.workers {
		isWorker[w] = true
	}
	s.others(func(f *ssa.Function, p *Path) {
		var scan func(es []*Event)
		scan = func(es []*Event) {
			for _, e := range es {
				if isWorker[e] {
					continue
				}
				if (e.Kind == "send" || e.Kind == "recv") && chans[s.sym(e.Args[0])] {
					c.ob(false, "only Submit, the workers and the forwarder move requests", c.evAt(e), "%s on %s", e.Kind, s.sym(e.Args[0]))
				}
				for _, b := range e.Bodies {
					scan(b.Events)
				}
			}
		}
		scan(p.Events)
	})
	for _, fw := range s.fwd {
		var scan func(es []*Event)
		scan = func(es []*Event) {
			for _, e := range es {
				if e == fw.ev {
					continue
				}
				if (e.Kind == "send" || e.Kind == "recv") && (chans[s.sym(e.Args[0])] || e.Args[0] == fw.ch || e.Args[0] == fw.user) {
					c.ob(false, "only Submit, the workers and the forwarder move requests", c.evAt(e), "%s on %s", e.Kind, e.Args[0])
				}
				for _, b := range e.Bodies {
					scan(b.Events)
				}
			}
		}
		scan(fw.p.Events)
	}
}

func isIn(es []*Event, e *Event) bool {
	for _, x := range es {
		if x == e {
			return true
		}
	}
	return false
}

// registered: the group's channel is registered under the group's identity before the group is given away.
func (s *staged) registered() {
	c := s.c
	for _, fw := range s.fwd {
		at := c.pathAt(s.nrgF, fw.p)
		r := s.registrations(fw.p)[0]
		c.ob(s.sym(r.Args[0]) == s.demux, "the group is registered with the demultiplexer the workers feed", at, "registered with %s, not %s", s.sym(r.Args[0]), s.demux)
		c.ob(r.Args[2] == fw.ch, "the group's forwarder receives from the registered channel", at, "%s", r.Args[2])
	}
}

// ---------------------------------------------------------------- both ways of recording

// stagedProp runs the rules with spans recording and not recording.
func stagedProp(f func(s *staged)) func(c *Check) {
	return func(c *Check) {
		for _, rec := range []*Term{tFalse, tTrue} {
			f(c.staged(rec))
		}
	}
}

func init() {
	reg("C28", stagedProp(rC28), "Submit sends once with the group's identity when it returns nil; every worker sends each received request on once with its identity and results; key function, registration and forwarder lead it to the channel Out returns.")
}

func rC28(s *staged) {
	s.submits(func(p *Path, sent *Event, ok bool, at string) {
		if sent != nil {
			s.routed(sent, at)
		}
	})
	s.registered()
	s.delivered()
	s.walkWorkers()
}

func isContext(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}
