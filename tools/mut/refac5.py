# Larger rewrites that keep the behaviour.
L="goroutines/limited/goroutines.go"; Po="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
W="prim/wait/wait.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; A="prim/atomics/atomics.go"; P="pipelines/stagedpipe/stagedpipe.go"; ST="pipelines/stagedpipe/stats.go"
Q="pipelines/stagedpipe/internal/queue/queue.go"
GEN="[T any]"
M=[
("lim-release","",[(L,"@func (p *Pool) Submit(","""func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...goroutines.SubmitOption) error {
	spanner := span.Get(ctx)
	if runner == nil {
		return reject(spanner, fmt.Errorf("cannot submit a runner that is nil"))
	}
	opts, err := resolve(options)
	if err != nil {
		return reject(spanner, err)
	}

	start := time.Now()
	caller := p.callerName(opts)
	release := func() {}
	if !opts.NonBlocking {
		release = p.acquire(spanner, caller, start)
	}
	p.submitEvent(spanner, caller, opts.NonBlocking, start)
	p.begin()
	go p.execute(ctx, runner, release)
	return nil
}

func reject(spanner span.Span, err error) error {
	spanner.Error(err)
	return err
}

func resolve(options []goroutines.SubmitOption) (pool.SubmitOptions, error) {
	opts := pool.SubmitOptions{Type: pool.PTLimited}
	for _, o := range options {
		var err error
		if opts, err = o(opts); err != nil {
			return opts, err
		}
	}
	return opts, nil
}

// acquire takes a place and returns the function that gives it back.
func (p *Pool) acquire(spanner span.Span, caller string, start time.Time) func() {
	select {
	case p.queue <- struct{}{}:
	default:
		p.blockEvent(spanner, caller, start)
		p.queue <- struct{}{}
	}
	return func() { <-p.queue }
}

func (p *Pool) begin() {
	p.wg.Add(1)
	p.running.Add(1)
}

func (p *Pool) end() {
	p.running.Add(-1)
	p.wg.Done()
}

func (p *Pool) execute(ctx context.Context, job goroutines.Job, release func()) {
	defer p.end()
	defer release()
	job(ctx)
}
""")]),
("lim-sem","",[(L,"	queue     chan struct{}\n","	queue     semaphore\n"),(L,"queue: make(chan struct{}, size)}","queue: make(semaphore, size)}"),(L,"// New creates","""// semaphore limits how many can hold a place.
type semaphore chan struct{}

func (s semaphore) tryAcquire() bool {
	select {
	case s <- struct{}{}:
		return true
	default:
		return false
	}
}

func (s semaphore) acquire() { s <- struct{}{} }
func (s semaphore) release() { <-s }

// New creates"""),(L,"""		select {
		case p.queue <- struct{}{}:
		default:
			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
		}
""","""		if !p.queue.tryAcquire() {
			p.blockEvent(spanner, fcn, now)
			p.queue.acquire()
		}
"""),(L,"defer func() { <-p.queue }()","defer p.queue.release()")]),
("po-process","",[(Po,"@func (p *Pool) Submit(","""func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...goroutines.SubmitOption) error {
	spanner := span.Get(ctx)

	if runner == nil {
		err := fmt.Errorf("cannot submit a runner that is nil")
		spanner.Error(err)
		return err
	}

	opts := pool.SubmitOptions{Type: pool.PTPooled}
	for i := range options {
		next, err := options[i](opts)
		if err != nil {
			spanner.Error(err)
			return err
		}
		opts = next
	}

	now := time.Now()
	s := submit{ctx: ctx, job: runner}
	fcn := p.callerName(opts)
	defer func() { p.submitEvent(spanner, fcn, opts.NonBlocking, now) }()

	p.running.Add(1)
	p.wg.Add(1)
	switch {
	case p.offer(s):
	case opts.NonBlocking:
		go p.process(s)
	default:
		p.blockEvent(spanner, fcn, now)
		p.queue <- s
	}
	return nil
}

// offer hands s to a goroutine that is ready for it, if there is one.
func (p *Pool) offer(s submit) bool {
	select {
	case p.queue <- s:
		return true
	default:
	}
	return false
}

func (p *Pool) process(s submit) {
	defer func() {
		p.running.Add(-1)
		p.wg.Done()
	}()
	s.job(s.ctx)
}
"""),(Po,"@func (p *Pool) runner(","""func (p *Pool) runner() {
	for {
		s, ok := <-p.queue
		if !ok {
			return
		}
		p.process(s)
	}
}
""")]),
("po-newloop","",[(Po,"	for i := 0; i < size; i++ {\n		go p.runner()\n	}\n","	p.start()\n"),(Po,"	for {\n		if err := register.Register(p); err != nil {\n			p.name = register.NewName(p.name)\n			continue\n		}\n		break\n	}\n	return p, nil\n}\n","	for register.Register(p) != nil {\n		p.setName(register.NewName(p.GetName()))\n	}\n	return p, nil\n}\n\n// start starts the goroutines.\nfunc (p *Pool) start() {\n	for n := p.size; n > 0; n-- {\n		go p.runner()\n	}\n}\n")]),
("reg-taken","",[(R,"	if _, ok := registry[name]; ok {\n		return fmt.Errorf(\"name already taken\")\n	}\n\n	registry[name] = pool\n	return nil","	if taken(name) {\n		return errTaken\n	}\n	registry[name] = pool\n	return nil"),(R,"// Unregister","var errTaken = fmt.Errorf(\"name already taken\")\n\n// taken says if a pool has the name. mu must be held.\nfunc taken(name string) bool {\n	_, ok := registry[name]\n	return ok\n}\n\n// Unregister"),(R,"	mu.Lock()\n	delete(registry, pool.GetName())\n	mu.Unlock()","	name := pool.GetName()\n\n	mu.Lock()\n	defer mu.Unlock()\n	delete(registry, name)")]),
("w-wrap","",[(W,"@func (w *Group) Go(","""func (w *Group) Go(ctx context.Context, f FuncCall) {
	w.otelOnce.Do(func() { ctx = w.otelStart(ctx) })

	t := time.Now().UTC()
	if w.span.Span != nil {
		w.span.Event("Go", "start", t)
		ctx = trace.ContextWithSpan(ctx, w.span.Span)
	}

	w.total.Add(1)
	w.count.Add(1)
	w.wg.Add(1)

	if w.Pool == nil {
		go w.call(ctx, f)
		return
	}
	job := func(ctx context.Context) { w.call(ctx, f) }
	if err := w.Pool.Submit(ctx, job, w.PoolOptions...); err != nil {
		// The Pool refused the function, it will never run.
		applyErr(&w.errors, err)
		w.finished()
	}
}

func (w *Group) otelStart(ctx context.Context) context.Context {
	spanner := span.Get(ctx)
	if !spanner.IsRecording() {
		return ctx
	}
	if w.Name == "" {
		w.Name = "unspecified"
	}
	w.start = time.Now().UTC()

	ctx, w.span = span.New(ctx, fmt.Sprintf("wait(%s)", w.Name))
	w.span.Event(
		fmt.Sprintf("wait(%s) start", w.Name),
		"name", w.Name,
		"start", w.start,
	)
	return ctx
}

func (w *Group) finished() {
	w.count.Add(-1)
	w.wg.Done()
}

// call calls f, unless its Context is cancelled, and records what happened.
func (w *Group) call(ctx context.Context, f FuncCall) {
	defer w.finished()

	err := ctx.Err()
	if err != nil {
		applyErr(&w.errors, err)
		return
	}
	if err = f(ctx); err == nil {
		return
	}
	applyErr(&w.errors, err)
	if cancel := w.CancelOnErr; cancel != nil {
		cancel()
	}
}
""")]),
("w-apply-try","",[(W,"@func applyErr(","""func applyErr(ptr *atomic.Pointer[error], err error) {
	for !tryApply(ptr, err) {
	}
}

// tryApply returns false if another error got in between.
func tryApply(ptr *atomic.Pointer[error], err error) bool {
	existing := ptr.Load()
	if existing == nil {
		return ptr.CompareAndSwap(nil, &err)
	}
	if err == context.Canceled || err == context.DeadlineExceeded {
		return true
	}
	joined := errors.Join(*existing, err)
	return ptr.CompareAndSwap(existing, &joined)
}
""")]),
("w-wait-named","",[(W,"@func (w *Group) Wait(","""func (w *Group) Wait(ctx context.Context) (err error) {
	defer w.reset()

	if w.Name == "" {
		w.Name = "unspecified"
	}
	now := time.Now().UTC()
	defer w.otelEnd(now)

	w.waitOTELStart()
	defer w.waitOTELEnd(now)

	w.wg.Wait()
	w.cancel()

	if e := w.errors.Load(); e != nil {
		err = *e
		w.span.Error(err)
	}
	return err
}

func (w *Group) cancel() {
	if w.CancelOnErr == nil {
		return
	}
	w.CancelOnErr()
	w.CancelOnErr = nil
}

func (w *Group) otelEnd(now time.Time) {
	end := time.Now().UTC()
	w.span.Event(
		fmt.Sprintf("wait(%s) end", w.Name),
		"name", w.Name,
		"end", end.UTC(),
		"elapsed_ns", end.Sub(now),
	)
	if w.span.Span != nil {
		w.span.End()
	}
}
""")]),
("s-rangefunc","",[(S,"	for i := 0; i < len(s); i++ {\n		i := i\n\n		if ctxErr = ctx.Err(); ctxErr != nil {\n			break\n		}\n\n		wg.Go(\n			ctx,\n			func(ctx context.Context) error {\n				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n			},\n		)\n	}\n","	visit := func(i int) func(context.Context) error {\n		set := func(v T) { modifier(s, i, v) }\n		return func(ctx context.Context) error {\n			return access(ctx, i, s[i], set)\n		}\n	}\n	for i := range s {\n		if err := ctx.Err(); err != nil {\n			ctxErr = err\n			break\n		}\n		wg.Go(ctx, visit(i))\n	}\n")]),
("s-cancelable","",[(S,"	var cancel = func() {}\n	if opts.stopOnErr {\n		ctx, cancel = context.WithCancel(ctx)\n	}\n	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}\n","	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions}\n	if opts.stopOnErr {\n		ctx, wg.CancelOnErr = context.WithCancel(ctx)\n	}\n")]),
("c-next","",[(C,"""		var v T
		ok := false
		select {
		case <-ctx.Done():
		case v, ok = <-input:
		}
		if ctxErr = ctx.Err(); ctxErr != nil || !ok {
			break
		}
""","""		v, ok := next(ctx, input)
		if ctxErr = ctx.Err(); ctxErr != nil {
			break
		}
		if !ok {
			break
		}
"""),(C,"// StreamResult is a","""// next waits for the next value of input, or the end of ctx.
func next[T any](ctx context.Context, input <-chan T) (T, bool) {
	select {
	case v, ok := <-input:
		return v, ok
	case <-ctx.Done():
		var zero T
		return zero, false
	}
}

// StreamResult is a""")]),
("m-send","",[(C,"""		r, err := mod(ctx, v)
		if err != nil {
			select {
			case <-ctx.Done():
			case output <- StreamResult[R]{Err: err}:
			}
			return err
		}
		select {
		case <-ctx.Done():
			return ctx.Err()
		case output <- StreamResult[R]{Value: r}:
		}
		return nil
""","""		r, err := mod(ctx, v)
		if err != nil {
			emit(ctx, output, StreamResult[R]{Err: err})
			return err
		}
		return emit(ctx, output, StreamResult[R]{Value: r})
"""),(C,"type Modifier[","""func emit[R any](ctx context.Context, output chan<- StreamResult[R], r StreamResult[R]) error {
	select {
	case output <- r:
		return nil
	case <-ctx.Done():
	}
	return ctx.Err()
}

type Modifier[""")]),
("a-cur","",[(A,"	v := r.v.Load()\n	if v == nil {\n		v = new(T)\n	}\n	n, err := lr(*v)\n	if err != nil {\n		return err\n	}\n	r.v.Store(&n)\n	return nil\n","	n, err := lr(r.Load())\n	if err == nil {\n		r.v.Store(&n)\n	}\n	return err\n")]),
("g-emit","",[(P,"""	if p.ordered {
		r.ordered = demux.NewInOrder(
			func(r Request[T]) uint64 {
				return r.itemNum
			},
			r.user,
		)
		go func() {
			defer r.ordered.Close()
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
					panic("bug: ordered demuxer returned an error")
				}
			}
		}()
	} else { // No output order is required.
		go func() {
			defer close(r.user)
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				r.user <- req
			}
		}()
	}
""","""	emit, end := r.emit, r.endOutput
	if p.ordered {
		r.ordered = demux.NewInOrder(
			func(r Request[T]) uint64 {
				return r.itemNum
			},
			r.user,
		)
		emit, end = r.emitOrdered, r.ordered.Close
	}
	go r.forward(emit, end)
"""),(P,"// Stats returns stats about","""// forward passes on what the demuxer sends us until the group is closed.
func (r *RequestGroup[T]) forward(emit func(Request[T]), end func()) {
	defer end()
	for req := range r.out {
		r.p.wg.Done()
		r.wg.Done()
		req.otelEnd()
		emit(req)
	}
}

func (r *RequestGroup[T]) emit(req Request[T]) { r.user <- req }

func (r *RequestGroup[T]) endOutput() { close(r.user) }

func (r *RequestGroup[T]) emitOrdered(req Request[T]) {
	if err := r.ordered.Add(req); err != nil {
		panic("bug: ordered demuxer returned an error")
	}
}

// Stats returns stats about""")]),
("s-send","",[(P,"""	select {
	case <-req.Ctx.Done():
		if r.ordered != nil {
			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.
		}
		if req.span.IsRecording() {
			req.span.End()
		}
		r.p.wg.Done()
		r.wg.Done()
		return req.Ctx.Err()
	case r.p.in <- req:
	}

	return nil
}
""","""	if err := r.send(req); err != nil {
		r.refused(req)
		return err
	}
	return nil
}

// send hands req to the Pipelines unless its Context ends before.
func (r *RequestGroup[T]) send(req Request[T]) error {
	select {
	case r.p.in <- req:
		return nil
	case <-req.Ctx.Done():
		return req.Ctx.Err()
	}
}

// refused undoes what Submit did for a Request that was not accepted.
func (r *RequestGroup[T]) refused(req Request[T]) {
	if r.ordered != nil {
		r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.
	}
	if req.span.IsRecording() {
		req.span.End()
	}
	r.wg.Done()
	r.p.wg.Done()
}
""")]),
("r-split","",[(P,"@func (p *pipeline[T]) runner(","""func (p *pipeline[T]) runner() {
	deliver := p.deliver
	if p.delayWarning > 0 {
		tick := time.NewTicker(p.delayWarning)
		defer tick.Stop()
		deliver = func(r Request[T]) { p.deliverWarn(r, tick) }
	}
	for r := range p.in {
		r = p.processReq(r.otelStart())
		p.calcExitStats(r)
		deliver(r)
	}
}

func (p *pipeline[T]) deliver(r Request[T]) { p.out <- r }

// deliverWarn logs each time the output is not taken in time.
func (p *pipeline[T]) deliverWarn(r Request[T], tick *time.Ticker) {
	for {
		tick.Reset(p.delayWarning)
		select {
		case p.out <- r:
			return
		case <-tick.C:
		}
		log.Printf("pipeline(%s-%d) is having output delays exceeding %v", p.name, p.id, p.delayWarning)
	}
}
""")]),
("p-for","",[(P,"""	stage, name := Stage[T](p.sm.Start), p.startName
	for {
		r = p.execStage(r, stage, name)
		if r.Err != nil {
			return r
		}
		stage, name = r.Next, methodName(r.Next)
		r.Next = nil

		if stage == nil {
			return r
		}
	}
}
""","""	name := p.startName
	for stage := Stage[T](p.sm.Start); stage != nil; {
		r = p.execStage(r, stage, name)
		if r.Err != nil {
			break
		}
		stage, name = next(&r)
	}
	return r
}

// next takes the next Stage out of r.
func next[T any](r *Request[T]) (Stage[T], string) {
	stage := r.Next
	r.Next = nil
	return stage, methodName(stage)
}
""")]),
("e-split","",[(P,"""	// If the context has been cancelled, stop processing.
	if r.Ctx.Err() != nil {
		r.Err = r.Ctx.Err()
		return r
	}

	if r.seenStages != nil {
		if r.seenStages.seen(stageName) {
			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
			return r
		}
	}

	for _, pp := range p.preProcessors {
		r = pp(r)
		if r.Err != nil {
			return r
		}
	}
	return stage(r)
}
""","""	if r = p.prepare(r, stageName); r.Err != nil {
		return r
	}
	return stage(r)
}

// prepare does what comes before each Stage. The Stage is not called if it sets Err.
func (p *pipeline[T]) prepare(r Request[T], stageName string) Request[T] {
	// If the context has been cancelled, stop processing.
	if err := r.Ctx.Err(); err != nil {
		r.Err = err
		return r
	}
	if seen := r.seenStages; seen != nil && seen.seen(stageName) {
		r.Err = Error{Type: cyclicErr, Msg: seen.callTrace()}
		return r
	}
	for i := 0; i < len(p.preProcessors) && r.Err == nil; i++ {
		r = p.preProcessors[i](r)
	}
	return r
}
""")]),
("st-extreme","",[(ST,"@func setMin(","""func setMin(current *atomic.Int64, v int64) {
	update(current, v, func(v, c int64) bool { return v < c })
}
"""),(ST,"@func setMax(","""func setMax(current *atomic.Int64, v int64) {
	update(current, v, func(v, c int64) bool { return v > c })
}

// update sets current to v while v is better than it.
func update(current *atomic.Int64, v int64, better func(v, c int64) bool) {
	for c := current.Load(); better(v, c); c = current.Load() {
		if current.CompareAndSwap(c, v) {
			return
		}
	}
}
""")]),
("st-record","",[(P,"	setMin(&p.stats.min, int64(runTime))\n	setMax(&p.stats.max, int64(runTime))\n	p.stats.avgTotal.Add(int64(runTime))\n","	record(runTime, &p.stats.min, &p.stats.max, &p.stats.avgTotal)\n"),(P,"	setMin(&p.stats.ingestStats.min, int64(queuedTime))\n	setMax(&p.stats.ingestStats.max, int64(queuedTime))\n	p.stats.ingestStats.avgTotal.Add(int64(queuedTime))\n","	i := p.stats.ingestStats\n	record(queuedTime, &i.min, &i.max, &i.avgTotal)\n"),(ST,"// setMin will","""func record(d time.Duration, min, max, total *atomic.Int64) {
	n := int64(d)
	total.Add(n)
	setMin(min, n)
	setMax(max, n)
}

// setMin will""")]),
("q-loops","",[(Q,"@func (s *simple[A]) pop(","""func (s *simple[A]) pop() (val A, ok bool) {
	for h := s.head.Load(); ; h = s.head.Load() {
		n := h.next.Load()
		if n == nil {
			return val, false
		}
		if s.head.CompareAndSwap(h, n) {
			return n.val, true
		}
	}
}
"""),(Q,"@func (s *simple[A]) push(","""func (s *simple[A]) push(val A) {
	n := &node[A]{val: val}
	for !s.tail.Load().next.CompareAndSwap(nil, n) {
	}
	s.tail.Store(n)
}
""")]),
("q-back","",[(Q,"""	var s time.Duration
	for {
		// This must be read before looking for an entry, otherwise we can miss an entry
		// pushed before Close() was called.
		closed := q.closed.Load()

		a, ok := q.queue.pop()
		if ok {
			return a, ok
		}

		if closed {
			return a, ok
		}

		s += 100 * time.Nanosecond
		if s > 10*time.Millisecond {
			s = 10 * time.Millisecond
		}
		time.Sleep(s)
	}
}
""","""	for s := backoff(0); ; s.wait() {
		closed := q.closed.Load()
		if val, ok = q.queue.pop(); ok || closed {
			return val, ok
		}
	}
}

// backoff is a time to wait that grows.
type backoff time.Duration

func (b *backoff) wait() {
	*b = min(*b+backoff(100*time.Nanosecond), backoff(10*time.Millisecond))
	time.Sleep(time.Duration(*b))
}
""")]),
("err-view","",[(G,"@func (e *Errors) Error()","""func (e *Errors) Error() (first error) {
	e.view(func(errs []error) {
		if len(errs) > 0 {
			first = errs[0]
		}
	})
	return first
}
"""),(G,"@func (e *Errors) Errors()","""func (e *Errors) Errors() (all []error) {
	e.view(func(errs []error) { all = append(all, errs...) })
	return all
}

func (e *Errors) view(f func(errs []error)) {
	e.mu.Lock()
	defer e.mu.Unlock()
	f(e.errors)
}
""")]),
("n-one","",[(P,"""	pipelines := make([]*pipeline[T], 0, num)
	for i := 0; i < num; i++ {
		args := pipelineArgs[T]{
			name:          name,
			id:            i,
			in:            in,
			out:           out,
			num:           num,
			sm:            sm,
			subStages:     p.subStages,
			preProcessors: p.preProcessors,
			stats:         stats,
			delayWarning:  p.delayWarning,
			ss:            p.ss,
		}

		_, err := newPipeline(args)
		if err != nil {
			close(in)
			return nil, err
		}
	}
	p.pipelines = pipelines

	// This starts goroutines, so it must come after everything that can fail above.
	var err error
	p.demux, err = demux.New(
		out,
		func(r Request[T]) uint64 {
			return r.groupNum
		},
		func(r Request[T], err error) {
			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
		},
		// The default, copy on write, loses receivers added while another is removed.
		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
	)
	if err != nil {
		close(in)
		return nil, err
	}

	return p, nil
}
""","""	if err := p.startAll(num); err != nil {
		close(in)
		return nil, err
	}
	return p, nil
}

// startAll starts the pipelines and what distributes their output.
func (p *Pipelines[T]) startAll(num int) error {
	for i := range num {
		if _, err := newPipeline(p.args(i, num)); err != nil {
			return err
		}
	}

	var err error
	p.demux, err = demux.New(
		p.out,
		Request[T].group,
		func(r Request[T], err error) {
			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
		},
		// The default, copy on write, loses receivers added while another is removed.
		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
	)
	return err
}

func (r Request[T]) group() uint64 { return r.groupNum }

func (p *Pipelines[T]) args(id, num int) pipelineArgs[T] {
	return pipelineArgs[T]{
		name:          p.name,
		id:            id,
		in:            p.in,
		out:           p.out,
		num:           num,
		sm:            p.sm,
		subStages:     p.subStages,
		preProcessors: p.preProcessors,
		stats:         p.stats,
		delayWarning:  p.delayWarning,
		ss:            p.ss,
	}
}
""")]),
("sentinels","",[(L,"		err := fmt.Errorf(\"cannot submit a runner that is nil\")\n		spanner.Error(err)\n		return err\n","		spanner.Error(errNilRunner)\n		return errNilRunner\n"),(L,"// Pool is a pool","var (\n	errNilRunner = errors.New(\"cannot submit a runner that is nil\")\n	errSize      = errors.New(\"cannot have a Pool with size < 1\")\n)\n\n// Pool is a pool"),(L,"fmt.Errorf(\"cannot have a Pool with size < 1\")","errSize"),(L,"	\"context\"\n","	\"context\"\n	\"errors\"\n"),
 (P,"errors.New(\"Request.Ctx cannot be nil\")","ErrNoContext"),(P,"// Submit submits a new Request","// ErrNoContext says that a Request has no Context.\nvar ErrNoContext = errors.New(\"Request.Ctx cannot be nil\")\n\n// Submit submits a new Request"),
 (C,"		err := fmt.Errorf(\"input channel is nil\")\n		spanner.Error(err)\n		return err\n","		spanner.Error(errNoInput)\n		return errNoInput\n"),(C,"// Accessor is","var errNoInput = fmt.Errorf(\"input channel is nil\")\n\n// Accessor is"),
 (P,"fmt.Errorf(\"num must be > 0\")","errNum"),(P,"// New creates a new Pipelines","var errNum = fmt.Errorf(\"num must be > 0\")\n\n// New creates a new Pipelines"),
 (R,"fmt.Errorf(\"name cannot contain numbers or hyphens\")","errBadName"),(R,"// NewName takes","type nameError string\n\nfunc (e nameError) Error() string { return string(e) }\n\nvar errBadName error = nameError(\"name cannot contain numbers or hyphens\")\n\n// NewName takes")]),
("q-stale","C41",[(Q,"@func (s *simple[A]) pop(","""func (s *simple[A]) pop() (val A, ok bool) {
	for h := s.head.Load(); ; {
		n := h.next.Load()
		if n == nil {
			return val, false
		}
		if s.head.CompareAndSwap(h, n) {
			return n.val, true
		}
	}
}
""")]),
("q-late","C41",[(Q,"	var s time.Duration\n	for {\n","	var s time.Duration\n	for h := q.queue.head.Load(); ; h = q.queue.head.Load() {\n"),(Q,"		a, ok := q.queue.pop()\n		if ok {\n			return a, ok\n		}\n","		var a A\n		ok := false\n		if n := h.next.Load(); n != nil {\n			if !q.queue.head.CompareAndSwap(h, n) {\n				continue\n			}\n			return n.val, true\n		}\n")]),
]
