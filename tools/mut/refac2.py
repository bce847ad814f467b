W="prim/wait/wait.go"; S="prim/slices/slice.go"; SO="prim/slices/options.go"; C="prim/chans/chans.go"; A="prim/atomics/atomics.go"
Q="pipelines/stagedpipe/internal/queue/queue.go"; ST="pipelines/stagedpipe/stats.go"
import os
def f(p): return open("/repo/"+p).read()
BODY='''			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
'''
RUN='''
// run executes f and signs it off.
func (w *Group) run(ctx context.Context, f FuncCall) {
	defer w.wg.Done()
	defer w.count.Add(-1)
	w.record(w.call(ctx, f))
}

func (w *Group) call(ctx context.Context, f FuncCall) (error, bool) {
	if err := ctx.Err(); err != nil {
		return err, false
	}
	return f(ctx), true
}

func (w *Group) record(err error, called bool) {
	if err == nil {
		return
	}
	applyErr(&w.errors, err)
	if called && w.CancelOnErr != nil {
		w.CancelOnErr()
	}
}
'''
M=[
("w-run","",[(W,"		go func() {\n"+BODY+"		}()","		go w.run(ctx, f)"),(W,"		func(ctx context.Context) {\n"+BODY+"		},","		func(ctx context.Context) { w.run(ctx, f) },"),(W,"// Running returns",RUN.lstrip()+"\n// Running returns")]),
("w-go-split","",[(W,"	t := time.Now().UTC()\n	if w.span.Span","	ctx = w.spanCtx(ctx)\n	w.dispatch(ctx, f)\n}\n\nfunc (w *Group) spanCtx(ctx context.Context) context.Context {\n	t := time.Now().UTC()\n	if w.span.Span"),(W,"		ctx = trace.ContextWithSpan(ctx, w.span.Span)\n	}\n","		return trace.ContextWithSpan(ctx, w.span.Span)\n	}\n	return ctx\n}\n\nfunc (w *Group) dispatch(ctx context.Context, f FuncCall) {\n")]),
("w-addfirst","",[(W,"	w.count.Add(1)\n	w.total.Add(1)\n\n	if","	w.total.Add(1)\n	w.count.Add(1)\n	w.wg.Add(1)\n\n	if"),(W,"		w.wg.Add(1)\n		go","		go"),(W,"	w.wg.Add(1)\n	err :=","	err :=")]),
("w-job-var","",[(W,"	if w.Pool == nil {\n		w.wg.Add(1)\n		go func() {\n"+BODY+"		}()\n		return\n	}\n\n	w.wg.Add(1)\n	err := w.Pool.Submit(\n		ctx,\n		func(ctx context.Context) {\n"+BODY+"		},\n		w.PoolOptions...,\n	)\n	if err != nil {","	job := func(ctx context.Context) {\n"+BODY+"	}\n\n	w.wg.Add(1)\n	var err error\n	switch w.Pool {\n	case nil:\n		go job(ctx)\n	default:\n		err = w.Pool.Submit(ctx, job, w.PoolOptions...)\n	}\n	if err != nil {")]),
("w-wait-split","",[(W,"	if w.CancelOnErr != nil {\n		w.CancelOnErr()\n		w.CancelOnErr = nil\n	}\n	err := w.errors.Load()\n	if err != nil {\n		w.span.Error(*err)\n		return *err\n	}\n	return nil","	w.cancel()\n	return w.result()"),(W,"// waitOTELStart is","func (w *Group) cancel() {\n	if w.CancelOnErr == nil {\n		return\n	}\n	w.CancelOnErr()\n	w.CancelOnErr = nil\n}\n\nfunc (w *Group) result() error {\n	err := w.errors.Load()\n	if err == nil {\n		return nil\n	}\n	w.span.Error(*err)\n	return *err\n}\n\n// waitOTELStart is")]),
("w-wait-resetlast","",[(W,"	defer w.reset()\n\n	if w.Name","	if w.Name"),(W,"	defer func() {\n		end := time","	defer func() {\n		defer w.reset()\n		end := time")]),
("w-apply-one","",[(W,"@func applyErr(",'''func applyErr(ptr *atomic.Pointer[error], err error) {
	for {
		existing := ptr.Load()
		next := err
		if existing != nil {
			if err == context.Canceled || err == context.DeadlineExceeded {
				return
			}
			next = errors.Join(*existing, err)
		}
		if ptr.CompareAndSwap(existing, &next) {
			return
		}
	}
}
''')]),
("w-apply-done","",[(W,"@func applyErr(",'''func applyErr(ptr *atomic.Pointer[error], err error) {
	for done := false; !done; {
		done = tryApply(ptr, err)
	}
}

func tryApply(ptr *atomic.Pointer[error], err error) bool {
	existing := ptr.Load()
	if existing == nil {
		return ptr.CompareAndSwap(nil, &err)
	}
	if isCtxErr(err) {
		return true
	}
	joined := errors.Join(*existing, err)
	return ptr.CompareAndSwap(existing, &joined)
}

func isCtxErr(err error) bool {
	switch err {
	case context.Canceled, context.DeadlineExceeded:
		return true
	}
	return false
}
''')]),
("w-apply-method","",[(W,"@func applyErr(",'''func (w *Group) applyErr(err error) {
	ptr := &w.errors
	for {
		existing := ptr.Load()
		if existing == nil {
			if ptr.CompareAndSwap(nil, &err) {
				return
			}
			continue
		}
		if err == context.Canceled || err == context.DeadlineExceeded {
			return
		}
		joined := errors.Join(*existing, err)
		if ptr.CompareAndSwap(existing, &joined) {
			return
		}
	}
}
''')]+[(W,"applyErr(&w.errors, ctx.Err())","w.applyErr(ctx.Err())")]*2+[(W,"applyErr(&w.errors, err)","w.applyErr(err)")]*3),
("w-reset-order","",[(W,"	w.start = time.Time{}\n	w.otelOnce = sync.Once{}\n	w.span = span.Span{}\n","	w.errors.Store(nil)\n	w.span = span.Span{}\n	w.otelOnce = sync.Once{}\n	w.start = time.Time{}\n"),(W,"	w.errors.Store(nil)\n	w.CancelOnErr","	w.CancelOnErr")]),
("w-once-func","",[(W,"	w.otelOnce.Do(func() {\n		spanner","	w.otelOnce.Do(func() { ctx = w.startSpan(ctx) })\n\n	w.submit(ctx, f)\n}\n\nfunc (w *Group) startSpan(ctx context.Context) context.Context {\n		spanner"),(W,"				\"start\", w.start,\n			)\n		}\n	})\n\n	t :=","				\"start\", w.start,\n			)\n		}\n	return ctx\n}\n\nfunc (w *Group) submit(ctx context.Context, f FuncCall) {\n	t :=")]),
# slices
("s-range","",[(S,"	for i := 0; i < len(s); i++ {\n		i := i\n","	for i := range s {\n")]),
("s-split","",[(S,"	var ctxErr error\n	for i := 0; i < len(s); i++ {\n		i := i\n\n		if ctxErr = ctx.Err(); ctxErr != nil {\n			break\n		}\n\n		wg.Go(\n			ctx,\n			func(ctx context.Context) error {\n				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n			},\n		)\n	}\n	if err := wg","	ctxErr := submitAll(ctx, &wg, s, access)\n	if err := wg"),(S,"type sliceOptions struct","func submitAll[T any](ctx context.Context, wg *wait.Group, s []T, access Accessor[T]) error {\n	for i := range s {\n		if err := ctx.Err(); err != nil {\n			return err\n		}\n		wg.Go(ctx, call(s, i, access))\n	}\n	return nil\n}\n\nfunc call[T any](s []T, i int, access Accessor[T]) wait.FuncCall {\n	return func(ctx context.Context) error {\n		set := func(v T) { s[i] = v }\n		return access(ctx, i, s[i], set)\n	}\n}\n\ntype sliceOptions struct")]),
("s-defpool","",[(S,"	if opts.pool == nil {\n		var err error\n		opts.pool, err = limited.New(\"\", runtime.NumCPU())\n		if err != nil {\n			spanner.Error(err)\n			return err\n		}\n		defer opts.pool.Close()\n	}\n","	pool := opts.pool\n	if pool == nil {\n		p, err := limited.New(\"\", runtime.NumCPU())\n		if err != nil {\n			spanner.Error(err)\n			return err\n		}\n		defer p.Close()\n		pool = p\n	}\n"),(S,"Pool: opts.pool,","Pool: pool,")]),
("s-defpool2","",[(S,"	if opts.pool == nil {\n		var err error\n		opts.pool, err = limited.New(\"\", runtime.NumCPU())\n		if err != nil {\n			spanner.Error(err)\n			return err\n		}\n		defer opts.pool.Close()\n	}\n","	closePool, err := opts.ensurePool()\n	if err != nil {\n		spanner.Error(err)\n		return err\n	}\n	defer closePool()\n"),(S,"// SliceOption is an","// ensurePool makes sure there is a pool.\nfunc (o *sliceOptions) ensurePool() (func(), error) {\n	if o.pool != nil {\n		return func() {}, nil\n	}\n	p, err := limited.New(\"\", runtime.NumCPU())\n	if err != nil {\n		return nil, err\n	}\n	o.pool = p\n	return p.Close, nil\n}\n\n// SliceOption is an")]),
("s-zero","",[(S,"	if len(s) == 0 {\n		return nil\n	}\n\n	if opts.pool","	n := len(s)\n	if n < 1 {\n		return nil\n	}\n\n	if opts.pool"),(S,"i < len(s); i++","i < n; i++")]),
("s-result","",[(S,"	if err := wg.Wait(ctx); err != nil {\n		spanner.Error(err)\n		return err\n	}\n	return ctxErr","	err := wg.Wait(ctx)\n	if err == nil {\n		return ctxErr\n	}\n	spanner.Error(err)\n	return err")]),
("s-cancel","",[(S,"	var cancel = func() {}\n	if opts.stopOnErr {\n		ctx, cancel = context.WithCancel(ctx)\n	}\n	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}","	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions}\n	if opts.stopOnErr {\n		ctx, wg.CancelOnErr = context.WithCancel(ctx)\n	}")]),
("s-opt-helper","",[(SO,f(SO)[f(SO).index("			func(a any) error {\n				switch t := a.(type) {\n				case *sliceOptions:\n					t.pool = pool"):f(SO).index("				return fmt.Errorf(\"WithPoolOptions")],"			func(a any) error {\n				if t, ok := a.(*sliceOptions); ok {\n					t.pool, t.poolOptions = pool, options\n					return nil\n				}\n")]),
# chans
("c-range","",[(C,"		var v T\n		ok := false\n		select {\n		case <-ctx.Done():\n		case v, ok = <-input:\n		}\n		if ctxErr = ctx.Err(); ctxErr != nil || !ok {\n			break\n		}\n","		v, ok := next(ctx, input)\n		if ctxErr = ctx.Err(); ctxErr != nil || !ok {\n			break\n		}\n"),(C,"// StreamResult is a","// next takes a value from input unless ctx is cancelled.\nfunc next[T any](ctx context.Context, input <-chan T) (v T, ok bool) {\n	select {\n	case <-ctx.Done():\n		return v, false\n	case v, ok = <-input:\n		return v, ok\n	}\n}\n\n// StreamResult is a")]),
("c-loop","",[(C,"	for {\n		var v T\n		ok := false\n		select {\n		case <-ctx.Done():\n		case v, ok = <-input:\n		}\n		if ctxErr = ctx.Err(); ctxErr != nil || !ok {\n			break\n		}\n","loop:\n	for {\n		var v T\n		var ok bool\n		select {\n		case <-ctx.Done():\n			ctxErr = ctx.Err()\n			break loop\n		case v, ok = <-input:\n		}\n		if ctxErr = ctx.Err(); ctxErr != nil {\n			break loop\n		}\n		if !ok {\n			break loop\n		}\n")]),
("c-mod-send","",[(C,"		if err != nil {\n			select {\n			case <-ctx.Done():\n			case output <- StreamResult[R]{Err: err}:\n			}\n			return err\n		}\n		select {\n		case <-ctx.Done():\n			return ctx.Err()\n		case output <- StreamResult[R]{Value: r}:\n		}\n		return nil\n","		res := StreamResult[R]{Value: r}\n		if err != nil {\n			res = StreamResult[R]{Err: err}\n		}\n		select {\n		case output <- res:\n			return err\n		case <-ctx.Done():\n		}\n		if err != nil {\n			return err\n		}\n		return ctx.Err()\n")]),
("c-mod-fn","",[(C,"	a := func(ctx context.Context, v T) error {\n		r, err := mod(ctx, v)\n		if err != nil {\n			select {\n			case <-ctx.Done():\n			case output <- StreamResult[R]{Err: err}:\n			}\n			return err\n		}\n		select {\n		case <-ctx.Done():\n			return ctx.Err()\n		case output <- StreamResult[R]{Value: r}:\n		}\n		return nil\n	}\n\n	return Access(ctx, input, a, options...)","	return Access(\n		ctx,\n		input,\n		func(ctx context.Context, v T) error {\n			r, err := mod(ctx, v)\n			if err != nil {\n				_ = emit(ctx, output, StreamResult[R]{Err: err})\n				return err\n			}\n			return emit(ctx, output, StreamResult[R]{Value: r})\n		},\n		options...,\n	)"),(C,"// Modify applies the","func emit[R any](ctx context.Context, output chan<- StreamResult[R], r StreamResult[R]) error {\n	select {\n	case <-ctx.Done():\n		return ctx.Err()\n	case output <- r:\n		return nil\n	}\n}\n\n// Modify applies the")]),
("c-mod-check","",[(C,"	if input == nil {\n		err := fmt.Errorf(\"input channel is nil\")\n		spanner.Error(err)\n		return err\n	}\n	if output == nil {\n		err := fmt.Errorf(\"output channel is nil\")\n		spanner.Error(err)\n		return err\n	}\n","	var err error\n	switch {\n	case input == nil:\n		err = fmt.Errorf(\"input channel is nil\")\n	case output == nil:\n		err = fmt.Errorf(\"output channel is nil\")\n	}\n	if err != nil {\n		spanner.Error(err)\n		return err\n	}\n")]),
# atomics
("a-load","",[(A,"	v := r.v.Load()\n	if v == nil {\n		var zero T\n		return zero\n	}\n	return *v","	if v := r.v.Load(); v != nil {\n		return *v\n	}\n	var zero T\n	return zero")]),
("a-current","",[(A,"	v := r.v.Load()\n	if v == nil {\n		v = new(T)\n	}\n	n, err := lr(*v)\n	if err != nil {\n		return err\n	}\n	r.v.Store(&n)\n	return nil","	n, err := lr(r.Load())\n	if err == nil {\n		r.v.Store(&n)\n	}\n	return err")]),
("a-set","",[(A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n	r.v.Store(&v)","	r.mu.Lock()\n	r.set(v)\n	r.mu.Unlock()"),(A,"	r.v.Store(&n)\n	return nil\n}\n","	r.set(n)\n	return nil\n}\n\nfunc (r *RWValue[T]) set(v T) { r.v.Store(&v) }\n")]),
# queue
("q-pop","",[(Q,"@func (s *simple[A]) pop()",'''func (s *simple[A]) pop() (v A, ok bool) {
	for {
		h := s.head.Load()
		n := h.next.Load()
		if n == nil {
			return v, false
		}
		if s.head.CompareAndSwap(h, n) {
			return n.val, true
		}
	}
}
''')]),
("q-push","",[(Q,"@func (s *simple[A]) push(",'''func (s *simple[A]) push(val A) {
	n := newNode(val)
	rt := s.tail.Load()
	for !rt.next.CompareAndSwap(nil, n) {
		rt = s.tail.Load()
	}
	s.tail.Store(n)
}

func newNode[A any](val A) *node[A] {
	n := new(node[A])
	n.val = val
	return n
}
''')]),
("q-release","",[(Q,"	defer func() {\n		if q.limit != nil {\n			select {\n			case <-q.limit:\n			default:\n				// Normally when you have a limiter, you don't need a select{}, its\n				// 1 for 1. In this case a Pop() can be called when Close() has been called.\n				// If you don't have a default, this blocks forever.\n			}\n		}\n	}()\n","	defer q.release()\n"),(Q,"// simple is a simple lock free","func (q *Queue[A]) release() {\n	if q.limit == nil {\n		return\n	}\n	select {\n	case <-q.limit:\n	default:\n	}\n}\n\n// simple is a simple lock free")]),
("q-backoff","",[(Q,"		s += 100 * time.Nanosecond\n		if s > 10*time.Millisecond {\n			s = 10 * time.Millisecond\n		}\n		time.Sleep(s)\n","		s = backoff(s)\n		time.Sleep(s)\n"),(Q,"// simple is a simple lock free","func backoff(s time.Duration) time.Duration {\n	return min(s+100*time.Nanosecond, 10*time.Millisecond)\n}\n\n// simple is a simple lock free")]),
("q-poploop","",[(Q,"		a, ok := q.queue.pop()\n		if ok {\n			return a, ok\n		}\n\n		if closed {\n			return a, ok\n		}\n","		if val, ok = q.queue.pop(); ok || closed {\n			return val, ok\n		}\n")]),
("q-new","",[(Q,"	var limit chan struct{}\n	if size > 0 {\n		limit = make(chan struct{}, size)\n	}\n	return &Queue[A]{limit: limit, queue: newSimple[A]()}","	q := &Queue[A]{queue: newSimple[A]()}\n	if size <= 0 {\n		return q\n	}\n	q.limit = make(chan struct{}, size)\n	return q")]),
# stats
("st-avg","",[(ST,"	if stats.Completed != 0 {\n		stats.Avg = time.Duration(s.avgTotal.Load() / stats.Completed)\n	}\n","	stats.Avg = average(&s.avgTotal, stats.Completed)\n"),(ST,"	if completed != 0 {\n		stats.Avg = time.Duration(i.avgTotal.Load() / completed)\n	}\n","	stats.Avg = average(&i.avgTotal, completed)\n"),(ST,"// setMin will","func average(total *atomic.Int64, n int64) time.Duration {\n	if n == 0 {\n		return 0\n	}\n	return time.Duration(total.Load() / n)\n}\n\n// setMin will")]),
("st-setmin","",[(ST,"@func setMin(",'''func setMin(current *atomic.Int64, v int64) {
	for c := current.Load(); v < c; c = current.Load() {
		if current.CompareAndSwap(c, v) {
			break
		}
	}
}
'''),(ST,"@func setMax(",'''func setMax(current *atomic.Int64, v int64) {
	c := current.Load()
	for v > c && !current.CompareAndSwap(c, v) {
		c = current.Load()
	}
}
''')]),
("st-new","",[(ST,"@func newStats(",'''func newStats() *stats {
	s := new(stats)
	s.ingestStats = newIngestStats()
	s.min.Store(math.MaxInt64)
	return s
}

func newIngestStats() *ingestStats {
	i := new(ingestStats)
	i.min.Store(math.MaxInt64)
	return i
}
''')]),
("st-tostats","",[(ST,"@func (s *stats) toStats(",'''func (s *stats) toStats() Stats {
	done := s.completed.Load()
	avg := time.Duration(0)
	if done > 0 {
		avg = time.Duration(s.avgTotal.Load() / done)
	}
	return Stats{
		Running:     s.running.Load(),
		Completed:   done,
		Min:         minDuration(&s.min),
		Avg:         avg,
		Max:         time.Duration(s.max.Load()),
		IngestStats: s.ingestStats.toIngestStats(done),
	}
}
''')]),
]
