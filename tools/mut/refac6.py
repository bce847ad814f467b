# Rewrites that keep the behaviour, in the style of a maintainer tidying up.
L="goroutines/limited/goroutines.go"; Po="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
W="prim/wait/wait.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; A="prim/atomics/atomics.go"; P="pipelines/stagedpipe/stagedpipe.go"; ST="pipelines/stagedpipe/stats.go"
Q="pipelines/stagedpipe/internal/queue/queue.go"
TR="""
// tracker counts jobs.
type tracker struct {
	wg      sync.WaitGroup
	running atomic.Int64
}

func (t *tracker) begin() {
	t.wg.Add(1)
	t.running.Add(1)
}

func (t *tracker) end() {
	t.running.Add(-1)
	t.wg.Done()
}

// Pool is a pool"""
M=[
("lim-tracker","",[(L,"\n// Pool is a pool",TR),(L,"	wg        sync.WaitGroup\n	running   atomic.Int64\n","	jobs      tracker\n"),
 (L,"	p.wg.Wait()\n	close","	p.jobs.wg.Wait()\n	close"),(L,"	p.wg.Wait()\n}","	p.jobs.wg.Wait()\n}"),(L,"p.running.Load()","p.jobs.running.Load()"),
 (L,"	p.wg.Add(1)\n	p.running.Add(1)\n","	p.jobs.begin()\n"),(L,"		defer p.wg.Done()\n		defer p.running.Add(-1)\n","		defer p.jobs.end()\n")]),
("lim-tracker-embed","",[(L,"\n// Pool is a pool",TR),(L,"	wg        sync.WaitGroup\n	running   atomic.Int64\n","	tracker\n"),
 (L,"	p.wg.Add(1)\n	p.running.Add(1)\n","	p.begin()\n"),(L,"		defer p.wg.Done()\n		defer p.running.Add(-1)\n","		defer p.end()\n")]),
("lim-onefn","",[(L,"	go func() {\n		defer p.wg.Done()\n		defer p.running.Add(-1)\n		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		}\n		runner(ctx)\n	}()\n","	go p.run(ctx, runner, opts)\n"),
 (L,"func (p *Pool) submitEvent","// run runs a job and gives back what Submit took for it.\nfunc (p *Pool) run(ctx context.Context, job goroutines.Job, opts pool.SubmitOptions) {\n	defer func() {\n		if !opts.NonBlocking {\n			<-p.queue\n		}\n		p.running.Add(-1)\n		p.wg.Done()\n	}()\n	job(ctx)\n}\n\nfunc (p *Pool) submitEvent")]),
("lim-nodefer","",[(L,"		defer p.wg.Done()\n		defer p.running.Add(-1)\n		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		}\n		runner(ctx)\n","		defer p.wg.Done()\n		defer p.running.Add(-1)\n		if opts.NonBlocking {\n			runner(ctx)\n			return\n		}\n		defer func() { <-p.queue }()\n		runner(ctx)\n")]),
("reg-loop","",[(L,"	for {\n		if err := register.Register(p); err != nil {\n			p.name = register.NewName(p.name)\n			continue\n		}\n		break\n	}\n","	err := register.Register(p)\n	for err != nil {\n		p.setName(register.NewName(p.name))\n		err = register.Register(p)\n	}\n")]),
("reg-loop2","",[(Po,"	for {\n		if err := register.Register(p); err != nil {\n			p.name = register.NewName(p.name)\n			continue\n		}\n		break\n	}\n","	for register.Register(p) != nil {\n		p.name = register.NewName(p.name)\n	}\n")]),
("w-begin","",[(W,"	w.count.Add(1)\n	w.total.Add(1)\n\n	if w.Pool == nil {\n		w.wg.Add(1)\n","	w.begin()\n\n	if w.Pool == nil {\n"),(W,"	w.wg.Add(1)\n	err := w.Pool","	err := w.Pool"),
 (W,"			defer w.wg.Done()\n			defer w.count.Add(-1)\n","			defer w.end()\n"),(W,"			defer w.wg.Done()\n			defer w.count.Add(-1)\n","			defer w.end()\n"),(W,"		w.count.Add(-1)\n		w.wg.Done()\n","		w.end()\n"),
 (W,"// Running returns","func (w *Group) begin() {\n	w.count.Add(1)\n	w.total.Add(1)\n	w.wg.Add(1)\n}\n\nfunc (w *Group) end() {\n	w.count.Add(-1)\n	w.wg.Done()\n}\n\n// Running returns")]),
("w-exec","",[(W,"		go func() {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n\n			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()\n","		go w.exec(ctx, f)\n"),
 (W,"		func(ctx context.Context) {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n\n			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		},\n","		func(ctx context.Context) { w.exec(ctx, f) },\n"),
 (W,"// Running returns","// exec runs f unless its Context was cancelled.\nfunc (w *Group) exec(ctx context.Context, f FuncCall) {\n	defer w.wg.Done()\n	defer w.count.Add(-1)\n\n	err := ctx.Err()\n	if err != nil {\n		w.record(err)\n		return\n	}\n	err = f(ctx)\n	if err == nil {\n		return\n	}\n	w.record(err)\n	if cancel := w.CancelOnErr; cancel != nil {\n		cancel()\n	}\n}\n\nfunc (w *Group) record(err error) { applyErr(&w.errors, err) }\n\n// Running returns")]),
("w-waitsplit","",[(W,"	// Now do the actual waiting.\n	w.wg.Wait()\n\n	if w.CancelOnErr != nil {\n		w.CancelOnErr()\n		w.CancelOnErr = nil\n	}\n	err := w.errors.Load()\n	if err != nil {\n		w.span.Error(*err)\n		return *err\n	}\n	return nil\n","	w.wg.Wait()\n	return w.outcome()\n"),
 (W,"// waitOTELStart is","// outcome cancels what is left over and returns what went wrong.\nfunc (w *Group) outcome() error {\n	if cancel := w.CancelOnErr; cancel != nil {\n		w.CancelOnErr = nil\n		cancel()\n	}\n	if p := w.errors.Load(); p != nil {\n		w.span.Error(*p)\n		return *p\n	}\n	return nil\n}\n\n// waitOTELStart is")]),
("run-emit","",[(P,"		if p.delayWarning != 0 {\n			for {\n				tick.Reset(p.delayWarning)\n				select {\n				case p.out <- r:\n				case <-tick.C:\n					log.Printf(\"pipeline(%s) is having output delays exceeding %v\", id, p.delayWarning)\n					continue\n				}\n				break\n			}\n		} else {\n			p.out <- r\n		}\n","		if tick == nil {\n			p.out <- r\n			continue\n		}\n		for sent := false; !sent; {\n			tick.Reset(p.delayWarning)\n			select {\n			case p.out <- r:\n				sent = true\n			case <-tick.C:\n				log.Printf(\"pipeline(%s) is having output delays exceeding %v\", id, p.delayWarning)\n			}\n		}\n")]),
("run-emit2","",[(P,"		if p.delayWarning != 0 {\n			for {\n				tick.Reset(p.delayWarning)\n				select {\n				case p.out <- r:\n				case <-tick.C:\n					log.Printf(\"pipeline(%s) is having output delays exceeding %v\", id, p.delayWarning)\n					continue\n				}\n				break\n			}\n		} else {\n			p.out <- r\n		}\n","		for !p.offer(r, tick) {\n			log.Printf(\"pipeline(%s) is having output delays exceeding %v\", id, p.delayWarning)\n		}\n"),
 (P,"// processReq processes","// offer tries to send r for as long as is usual.\nfunc (p *pipeline[T]) offer(r Request[T], tick *time.Ticker) bool {\n	var late <-chan time.Time\n	if tick != nil {\n		tick.Reset(p.delayWarning)\n		late = tick.C\n	}\n	select {\n	case p.out <- r:\n		return true\n	case <-late:\n		return false\n	}\n}\n\n// processReq processes")]),
("new-split","",[(P,"	pipelines := make([]*pipeline[T], 0, num)\n	for i := 0; i < num; i++ {\n		args := pipelineArgs[T]{\n			name:          name,\n			id:            i,\n			in:            in,\n			out:           out,\n			num:           num,\n			sm:            sm,\n			subStages:     p.subStages,\n			preProcessors: p.preProcessors,\n			stats:         stats,\n			delayWarning:  p.delayWarning,\n			ss:            p.ss,\n		}\n\n		_, err := newPipeline(args)\n		if err != nil {\n			close(in)\n			return nil, err\n		}\n	}\n	p.pipelines = pipelines\n","	if err := p.startAll(num); err != nil {\n		close(in)\n		return nil, err\n	}\n"),
 (P,"// Close closes the ingestion","// startAll starts num pipelines.\nfunc (p *Pipelines[T]) startAll(num int) error {\n	args := pipelineArgs[T]{\n		name:          p.name,\n		in:            p.in,\n		out:           p.out,\n		num:           num,\n		sm:            p.sm,\n		subStages:     p.subStages,\n		preProcessors: p.preProcessors,\n		stats:         p.stats,\n		delayWarning:  p.delayWarning,\n		ss:            p.ss,\n	}\n	for args.id = 0; args.id < num; args.id++ {\n		pl, err := newPipeline(args)\n		if err != nil {\n			return err\n		}\n		p.pipelines = append(p.pipelines, pl)\n	}\n	return nil\n}\n\n// Close closes the ingestion")]),
("new-demux","",[(P,"	var err error\n	p.demux, err = demux.New(\n		out,\n		func(r Request[T]) uint64 {\n			return r.groupNum\n		},\n		func(r Request[T], err error) {\n			log.Fatalf(\"bug: received %#+v and got demux error: %s\", r, err)\n		},\n		// The default, copy on write, loses receivers added while another is removed.\n		demux.WithMutex[uint64, Request[T]](demux.RWMutex),\n	)\n	if err != nil {\n		close(in)\n		return nil, err\n	}\n\n	return p, nil\n","	d, err := newDemux(out)\n	if err != nil {\n		close(in)\n		return nil, err\n	}\n	p.demux = d\n	return p, nil\n"),
 (P,"// Close closes the ingestion","func groupOf[T any](r Request[T]) uint64 { return r.groupNum }\n\nfunc lost[T any](r Request[T], err error) {\n	log.Fatalf(\"bug: received %#+v and got demux error: %s\", r, err)\n}\n\nfunc newDemux[T any](out chan Request[T]) (*demux.Demux[uint64, Request[T]], error) {\n	// The default, copy on write, loses receivers added while another is removed.\n	return demux.New(out, groupOf[T], lost[T], demux.WithMutex[uint64, Request[T]](demux.RWMutex))\n}\n\n// Close closes the ingestion")]),
("newpipe-early","",[(P,"	p := &pipeline[T]{\n		name:          args.name,","	n := numStages[T](args.sm) + args.subStages\n	if n == 0 {\n		return nil, fmt.Errorf(\"did not find any Public methods that implement Stages\")\n	}\n	p := &pipeline[T]{\n		concurrency:   n,\n		name:          args.name,"),(P,"	p.concurrency = numStages[T](args.sm) + args.subStages\n\n	if p.concurrency == 0 {\n		return nil, fmt.Errorf(\"did not find any Public methods that implement Stages\")\n	}\n\n	for i := 0; i < p.concurrency; i++ {\n","	for ; n > 0; n-- {\n")]),
("numstages-slice","",[(P,"	var sig Stage[T]\n	count := 0\n	for range method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(sig)) {\n		count++\n	}\n	return count\n","	var (\n		sig   Stage[T]\n		count int\n	)\n	stages := method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(sig))\n	for {\n		if _, ok := <-stages; !ok {\n			return count\n		}\n		count++\n	}\n")]),
("proc-for","",[(P,"	stage, name := Stage[T](p.sm.Start), p.startName\n	for {\n		r = p.execStage(r, stage, name)\n		if r.Err != nil {\n			return r\n		}\n		stage, name = r.Next, methodName(r.Next)\n		r.Next = nil\n\n		if stage == nil {\n			return r\n		}\n	}\n","	stage, name := Stage[T](p.sm.Start), p.startName\n	for stage != nil {\n		r = p.execStage(r, stage, name)\n		if r.Err != nil {\n			break\n		}\n		stage, r.Next = r.Next, nil\n		name = methodName(stage)\n	}\n	return r\n")]),
("proc-setup","",[(P,"	// Stat colllection.\n	r.ingestTime = time.Now()\n	queuedTime := time.Since(r.queueTime)\n	if p.ss {\n		seen := seenStagesPool.Get().(*seenStages).reset()\n		r.seenStages = seen\n		defer seenStagesPool.Put(seen)\n	}\n\n	p.stats.running.Add(1)\n	setMin(&p.stats.ingestStats.min, int64(queuedTime))\n	setMax(&p.stats.ingestStats.max, int64(queuedTime))\n	p.stats.ingestStats.avgTotal.Add(int64(queuedTime))\n","	r.ingestTime = time.Now()\n	p.ingested(r)\n	if p.ss {\n		r.seenStages = seenStagesPool.Get().(*seenStages).reset()\n		defer seenStagesPool.Put(r.seenStages)\n	}\n"),
 (P,"// calcExitStats calculates","func (p *pipeline[T]) ingested(r Request[T]) {\n	p.stats.running.Add(1)\n	d, in := int64(time.Since(r.queueTime)), p.stats.ingestStats\n	in.avgTotal.Add(d)\n	setMax(&in.max, d)\n	setMin(&in.min, d)\n}\n\n// calcExitStats calculates")]),
("exec-pre","",[(P,"	for _, pp := range p.preProcessors {\n		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n	}\n	return stage(r)\n","	if r = p.prepare(r); r.Err == nil {\n		r = stage(r)\n	}\n	return r\n"),(P,"// calcExitStats calculates","func (p *pipeline[T]) prepare(r Request[T]) Request[T] {\n	for i := 0; i < len(p.preProcessors) && r.Err == nil; i++ {\n		r = p.preProcessors[i](r)\n	}\n	return r\n}\n\n// calcExitStats calculates")]),
("exec-pre2","",[(P,"	for _, pp := range p.preProcessors {\n		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n	}\n	return stage(r)\n","	for i := range p.preProcessors {\n		if r = p.preProcessors[i](r); r.Err != nil {\n			return r\n		}\n	}\n	out = stage(r)\n	return out\n")]),
("sub-try","",[(P,"	select {\n	case <-req.Ctx.Done():\n		if r.ordered != nil {\n			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.\n		}\n		if req.span.IsRecording() {\n			req.span.End()\n		}\n		r.p.wg.Done()\n		r.wg.Done()\n		return req.Ctx.Err()\n	case r.p.in <- req:\n	}\n\n	return nil\n","	select {\n	case r.p.in <- req:\n		return nil\n	case <-ctx.Done():\n		r.forget(req)\n		return ctx.Err()\n	}\n"),
 (P,"// Out returns a channel","// forget undoes what Submit did for a Request that was not taken.\nfunc (r *RequestGroup[T]) forget(req Request[T]) {\n	defer r.wg.Done()\n	defer r.p.wg.Done()\n	if req.span.IsRecording() {\n		req.span.End()\n	}\n	if r.ordered == nil {\n		return\n	}\n	r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.\n}\n\n// Out returns a channel")]),
("sub-number","",[(P,"	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.\n","	next := r.itemNum.Add(1)\n	req.itemNum = next - 1 // This must start at 0.\n")]),
("sub-build","",[(P,"	req.seenStages = nil // A Request that was in another Pipelines still refers to its own.\n	req.groupNum = r.id\n	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.\n	req.queueTime = time.Now()\n","	req = r.stamp(req)\n"),(P,"// Out returns a channel","func (r *RequestGroup[T]) stamp(req Request[T]) Request[T] {\n	req.seenStages = nil // A Request that was in another Pipelines still refers to its own.\n	req.itemNum, req.groupNum = r.itemNum.Add(1)-1, r.id\n	req.queueTime = time.Now()\n	return req\n}\n\n// Out returns a channel")]),
("close-method","",[(P,"	go func() {\n		p.wg.Wait()\n		close(p.out)\n		p.sm.Close()\n	}()\n}","	go p.finish()\n}\n\nfunc (p *Pipelines[T]) finish() {\n	p.wg.Wait()\n	defer p.sm.Close()\n	close(p.out)\n}")]),
("group-split","",[(P,"		go func() {\n			defer r.ordered.Close()\n			for req := range r.out {\n				r.p.wg.Done()\n				r.wg.Done()\n				req.otelEnd()\n				if err := r.ordered.Add(req); err != nil {\n					panic(\"bug: ordered demuxer returned an error\")\n				}\n			}\n		}()\n	} else { // No output order is required.\n		go func() {\n			defer close(r.user)\n			for req := range r.out {\n				r.p.wg.Done()\n				r.wg.Done()\n				req.otelEnd()\n				r.user <- req\n			}\n		}()\n	}\n\n	return &r\n","		go r.inOrder()\n		return &r\n	}\n	go r.anyOrder()\n	return &r\n"),
 (P,"// Stats returns stats about","func (r *RequestGroup[T]) inOrder() {\n	for req := range r.out {\n		r.left(&req)\n		if err := r.ordered.Add(req); err != nil {\n			panic(\"bug: ordered demuxer returned an error\")\n		}\n	}\n	r.ordered.Close()\n}\n\nfunc (r *RequestGroup[T]) anyOrder() {\n	for req := range r.out {\n		r.left(&req)\n		r.user <- req\n	}\n	close(r.user)\n}\n\nfunc (r *RequestGroup[T]) left(req *Request[T]) {\n	r.p.wg.Done()\n	r.wg.Done()\n	req.otelEnd()\n}\n\n// Stats returns stats about")]),
("stats-local","",[(P,"	runTime := time.Since(r.ingestTime)\n\n	p.stats.running.Add(-1)\n	p.stats.completed.Add(1)\n\n	setMin(&p.stats.min, int64(runTime))\n	setMax(&p.stats.max, int64(runTime))\n	p.stats.avgTotal.Add(int64(runTime))\n","	s, took := p.stats, int64(time.Since(r.ingestTime))\n	setMax(&s.max, took)\n	setMin(&s.min, took)\n	s.avgTotal.Add(took)\n	s.completed.Add(1)\n	s.running.Add(-1)\n")]),
("name-if","",[(P,"	valueOf := reflect.ValueOf(method)\n	switch valueOf.Kind() {\n	case reflect.Func:\n		return strings.TrimSuffix(strings.TrimSuffix(runtime.FuncForPC(valueOf.Pointer()).Name(), \"-fm\"), \"[...]\")\n	default:\n		return \"<not a function>\"\n	}\n","	v := reflect.ValueOf(method)\n	if v.Kind() != reflect.Func {\n		return \"<not a function>\"\n	}\n	name := runtime.FuncForPC(v.Pointer()).Name()\n	name = strings.TrimSuffix(name, \"-fm\")\n	return strings.TrimSuffix(name, \"[...]\")\n")]),
]
M=[m for m in M if m[2]]
