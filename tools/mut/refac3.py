P="pipelines/stagedpipe/stagedpipe.go"
M=[
# --- runner
("r-deliver","",[(P,"@func (p *pipeline[T]) runner()",'''func (p *pipeline[T]) runner() {
	deliver := p.send
	if p.delayWarning != 0 {
		deliver = p.newWarner().send
	}
	for r := range p.in {
		r = p.processReq(r.otelStart())
		p.calcExitStats(r)
		deliver(r)
	}
}

func (p *pipeline[T]) send(r Request[T]) { p.out <- r }

// warner delivers Requests and complains when that takes long.
type warner[T any] struct {
	p    *pipeline[T]
	id   string
	tick *time.Ticker
}

func (p *pipeline[T]) newWarner() *warner[T] {
	return &warner[T]{p: p, id: fmt.Sprintf("%s-%d", p.name, p.id), tick: time.NewTicker(p.delayWarning)}
}

func (w *warner[T]) send(r Request[T]) {
	for {
		w.tick.Reset(w.p.delayWarning)
		select {
		case w.p.out <- r:
			return
		case <-w.tick.C:
			log.Printf("pipeline(%s) is having output delays exceeding %v", w.id, w.p.delayWarning)
		}
	}
}
''')]),
("r-recvok","",[(P,"@func (p *pipeline[T]) runner()",'''func (p *pipeline[T]) runner() {
	id := fmt.Sprintf("%s-%d", p.name, p.id)
	var tick *time.Ticker
	if p.delayWarning > 0 {
		tick = time.NewTicker(p.delayWarning)
		defer tick.Stop()
	}
	for {
		r, ok := <-p.in
		if !ok {
			return
		}
		p.handle(r, id, tick)
	}
}

func (p *pipeline[T]) handle(r Request[T], id string, tick *time.Ticker) {
	r = p.processReq(r.otelStart())
	p.calcExitStats(r)
	if tick == nil {
		p.out <- r
		return
	}
	for sent := false; !sent; {
		tick.Reset(p.delayWarning)
		select {
		case p.out <- r:
			sent = true
		case <-tick.C:
			log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
		}
	}
}
''')]),
("r-chan","",[(P,"@func (p *pipeline[T]) runner()",'''func (p *pipeline[T]) runner() {
	id := fmt.Sprintf("%s-%d", p.name, p.id)
	var late <-chan time.Time
	var tick *time.Ticker
	if p.delayWarning != 0 {
		tick = time.NewTicker(p.delayWarning)
		late = tick.C
	}
	for r := range p.in {
		r = r.otelStart()
		r = p.processReq(r)
		p.calcExitStats(r)
	deliver:
		for {
			if tick != nil {
				tick.Reset(p.delayWarning)
			}
			select {
			case p.out <- r:
				break deliver
			case <-late:
				log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
			}
		}
	}
}
''')]),
# --- processReq
("p-loopcond","",[(P,"	stage, name := Stage[T](p.sm.Start), p.startName\n	for {\n		r = p.execStage(r, stage, name)\n		if r.Err != nil {\n			return r\n		}\n		stage, name = r.Next, methodName(r.Next)\n		r.Next = nil\n\n		if stage == nil {\n			return r\n		}\n	}\n}",
'''	name := p.startName
	for stage := Stage[T](p.sm.Start); stage != nil; {
		r = p.execStage(r, stage, name)
		if r.Err != nil {
			break
		}
		stage = r.Next
		name = methodName(stage)
		r.Next = nil
	}
	return r
}''')]),
("p-stats","",[(P,"	p.stats.running.Add(1)\n	setMin(&p.stats.ingestStats.min, int64(queuedTime))\n	setMax(&p.stats.ingestStats.max, int64(queuedTime))\n	p.stats.ingestStats.avgTotal.Add(int64(queuedTime))\n","	p.ingested(queuedTime)\n"),(P,"// execStage executes",'''// ingested records that a Request that waited for wait is being worked on.
func (p *pipeline[T]) ingested(wait time.Duration) {
	ns := int64(wait)
	s := p.stats.ingestStats

	s.avgTotal.Add(ns)
	setMax(&s.max, ns)
	setMin(&s.min, ns)
	p.stats.running.Add(1)
}

// execStage executes''')]),
("p-order","",[(P,"	r.ingestTime = time.Now()\n	queuedTime := time.Since(r.queueTime)\n","	now := time.Now()\n	r.ingestTime = now\n	queuedTime := now.Sub(r.queueTime)\n")]),
("p-seen","",[(P,'''	if p.ss {
		seen := seenStagesPool.Get().(*seenStages).reset()
		r.seenStages = seen
		defer seenStagesPool.Put(seen)
	}
''','''	if p.ss {
		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
		defer func(seen *seenStages) { seenStagesPool.Put(seen) }(r.seenStages)
	}
''')]),
("p-run","",[(P,"	stage, name := Stage[T](p.sm.Start), p.startName\n	for {\n		r = p.execStage","	return p.walk(r)\n}\n\nfunc (p *pipeline[T]) walk(r Request[T]) Request[T] {\n	stage, name := Stage[T](p.sm.Start), p.startName\n	for {\n		r = p.execStage")]),
("p-nextfn","",[(P,"		stage, name = r.Next, methodName(r.Next)\n		r.Next = nil\n\n		if stage == nil {\n			return r\n		}\n","		next := r.Next\n		r.Next = nil\n		if next == nil {\n			return r\n		}\n		stage = next\n		name = methodName(next)\n")]),
# --- execStage
("e-ctxerr","",[(P,"	if r.Ctx.Err() != nil {\n		r.Err = r.Ctx.Err()\n		return r\n	}\n","	if err := r.Ctx.Err(); err != nil {\n		r.Err = err\n		return r\n	}\n")]),
("e-body","",[(P,"	// If the context has been cancelled, stop processing.\n	if r.Ctx","	return p.callStage(r, stage, stageName)\n}\n\nfunc (p *pipeline[T]) callStage(r Request[T], stage Stage[T], stageName string) Request[T] {\n	// If the context has been cancelled, stop processing.\n	if r.Ctx")]),
("e-pre","",[(P,"	for _, pp := range p.preProcessors {\n		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n	}\n	return stage(r)","	if r = p.preProcess(r); r.Err != nil {\n		return r\n	}\n	return stage(r)"),(P,"// calcExitStats",'''// preProcess runs the PreProcessors until one of them fails.
func (p *pipeline[T]) preProcess(r Request[T]) Request[T] {
	for i := 0; i < len(p.preProcessors) && r.Err == nil; i++ {
		r = p.preProcessors[i](r)
	}
	return r
}

// calcExitStats''')]),
("e-seen","",[(P,"	if r.seenStages != nil {\n		if r.seenStages.seen(stageName) {\n			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}\n			return r\n		}\n	}\n","	if err := r.checkCycle(stageName); err != nil {\n		r.Err = err\n		return r\n	}\n"),(P,"// calcExitStats",'''// checkCycle fails if the Request was in that Stage before.
func (r Request[T]) checkCycle(stage string) error {
	if r.seenStages == nil || !r.seenStages.seen(stage) {
		return nil
	}
	return Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
}

// calcExitStats''')]),
("e-end","",[(P,'''	defer func() {
		out.span = parentSpan
		if !newSpan {
			return
		}
		if stageSpan.IsRecording() {
			stageSpan.Event(stageName, "end", time.Now())
			stageSpan.End()
		}

		switch out.Ctx {
		case stageCtx, nil:
			out.Ctx = parentCtx
		default: // The stage changed the Context, we only change the span.
			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
		}
	}()
''','''	defer func() {
		out.span = parentSpan
		if newSpan {
			endStage(stageSpan, stageName)
			if out.Ctx == nil || out.Ctx == stageCtx {
				out.Ctx = parentCtx
			} else { // The stage changed the Context, we only change the span.
				out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
			}
		}
	}()
'''),(P,"// calcExitStats",'''// endStage ends the span of a stage.
func endStage(s span.Span, name string) {
	if !s.IsRecording() {
		return
	}
	s.Event(name, "end", time.Now())
	s.End()
}

// calcExitStats''')]),
("e-wrap","",[(P,"	r.Event(stageName, \"start\", time.Now())\n	defer func() {\n		out.span = parentSpan\n","	r.Event(stageName, \"start\", time.Now())\n	defer func() {\n		out.span = parentSpan\n		_ = parentCtx\n")]),
# --- calcExitStats
("x-stats","",[(P,"@func (p *pipeline[T]) calcExitStats(",'''func (p *pipeline[T]) calcExitStats(r Request[T]) {
	ns := time.Since(r.ingestTime).Nanoseconds()

	s := p.stats
	s.avgTotal.Add(ns)
	setMax(&s.max, ns)
	setMin(&s.min, ns)
	s.completed.Add(1)
	s.running.Add(-1)
}
''')]),
("x-method","",[(P,"@func (p *pipeline[T]) calcExitStats(",'''func (p *pipeline[T]) calcExitStats(r Request[T]) {
	p.stats.exit(time.Since(r.ingestTime))
}

func (s *stats) exit(runTime time.Duration) {
	defer s.completed.Add(1)
	defer s.running.Add(-1)
	setMin(&s.min, int64(runTime))
	setMax(&s.max, int64(runTime))
	s.avgTotal.Add(int64(runTime))
}
''')]),
# --- New
("n-range","",[(P,"	for i := 0; i < num; i++ {\n		args := pipe","	for i := range num {\n		args := pipe")]),
("n-start","",[(P,'''	pipelines := make([]*pipeline[T], 0, num)
	for i := 0; i < num; i++ {
		args := pipelineArgs[T]{
			name:          name,
			id:            i,
			in:            in,
			out:           out,
			num:           num,
			sm:            sm,
			subStages:     p.subStages,
			preProcessors: p.preProcessors,
			stats:         stats,
			delayWarning:  p.delayWarning,
			ss:            p.ss,
		}

		_, err := newPipeline(args)
		if err != nil {
			close(in)
			return nil, err
		}
	}
	p.pipelines = pipelines

	// This starts goroutines, so it must come after everything that can fail above.
	var err error
	p.demux, err = demux.New(
		out,
		func(r Request[T]) uint64 {
			return r.groupNum
		},
		func(r Request[T], err error) {
			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
		},
		// The default, copy on write, loses receivers added while another is removed.
		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
	)
	if err != nil {
		close(in)
		return nil, err
	}

	return p, nil
}
''','''	if err := p.start(num); err != nil {
		close(p.in)
		return nil, err
	}
	return p, nil
}

// start starts num pipelines and what routes their output.
func (p *Pipelines[T]) start(num int) error {
	for i := 0; i < num; i++ {
		pl, err := newPipeline(
			pipelineArgs[T]{
				name:          p.name,
				id:            i,
				in:            p.in,
				out:           p.out,
				num:           num,
				sm:            p.sm,
				subStages:     p.subStages,
				preProcessors: p.preProcessors,
				stats:         p.stats,
				delayWarning:  p.delayWarning,
				ss:            p.ss,
			},
		)
		if err != nil {
			return err
		}
		p.pipelines = append(p.pipelines, pl)
	}

	// This starts goroutines, so it must come after everything that can fail above.
	d, err := demux.New(
		p.out,
		groupOf[T],
		unroutable[T],
		// The default, copy on write, loses receivers added while another is removed.
		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
	)
	if err != nil {
		return err
	}
	p.demux = d
	return nil
}

func groupOf[T any](r Request[T]) uint64 { return r.groupNum }

func unroutable[T any](r Request[T], err error) {
	log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
}
''')]),
("n-defer","",[(P,"	for _, o := range options {\n		if err := o(p); err != nil {\n			return nil, err\n		}\n	}\n\n	pipelines :=","	if err := p.apply(options); err != nil {\n		return nil, err\n	}\n\n	pipelines :="),(P,"// Close closes the ingestion","func (p *Pipelines[T]) apply(options []Option[T]) error {\n	for _, o := range options {\n		if err := o(p); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\n// Close closes the ingestion")]),
("n-failclose","",[(P,"func New[T any](name string, num int, sm StateMachine[T], options ...Option[T]) (*Pipelines[T], error) {","func New[T any](name string, num int, sm StateMachine[T], options ...Option[T]) (pl *Pipelines[T], err error) {"),
 (P,"	pipelines := make([]*pipeline[T], 0, num)\n","	defer func() {\n		if err != nil {\n			close(in)\n		}\n	}()\n\n	pipelines := make([]*pipeline[T], 0, num)\n"),
 (P,"		if err != nil {\n			close(in)\n			return nil, err\n		}\n	}\n","		if err != nil {\n			return nil, err\n		}\n	}\n"),
 (P,"	var err error\n	p.demux, err","	p.demux, err"),
 (P,"	if err != nil {\n		close(in)\n		return nil, err\n	}\n\n	return p, nil","	if err != nil {\n		return nil, err\n	}\n\n	return p, nil")]),
("n-checks","",[(P,'''	if num < 1 {
		return nil, fmt.Errorf("num must be > 0")
	}
	if sm == nil {
		return nil, fmt.Errorf("must provide a valid StateMachine")
	}
''','''	switch {
	case num <= 0:
		return nil, errors.New("num must be > 0")
	case sm == nil:
		return nil, errors.New("must provide a valid StateMachine")
	}
''')]),
("n-newpipe","",[(P,'''	p.concurrency = numStages[T](args.sm) + args.subStages

	if p.concurrency == 0 {
		return nil, fmt.Errorf("did not find any Public methods that implement Stages")
	}

	for i := 0; i < p.concurrency; i++ {
		go p.runner()
	}

	return p, nil
''','''	n := numStages[T](args.sm) + args.subStages
	if n < 1 {
		return nil, errors.New("did not find any Public methods that implement Stages")
	}
	p.concurrency = n

	for range n {
		go p.runner()
	}
	return p, nil
''')]),
# --- Close
("c-helper","",[(P,'''	go func() {
		p.wg.Wait()
		close(p.out)
		p.sm.Close()
	}()
}

// RequestGroup provides''','''	go p.shutdown()
}

// shutdown closes what comes after the pipelines.
func (p *Pipelines[T]) shutdown() {
	defer p.sm.Close()
	defer close(p.out)
	p.wg.Wait()
}

// RequestGroup provides''')]),
# --- Submit
("s-accept","",[(P,'''	select {
	case <-req.Ctx.Done():
		if r.ordered != nil {
			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.
		}
		if req.span.IsRecording() {
			req.span.End()
		}
		r.p.wg.Done()
		r.wg.Done()
		return req.Ctx.Err()
	case r.p.in <- req:
	}

	return nil
}
''','''	select {
	case r.p.in <- req:
		return nil
	case <-req.Ctx.Done():
		r.abort(req)
		return req.Ctx.Err()
	}
}

// abort undoes what Submit did for a Request that was not accepted.
func (r *RequestGroup[T]) abort(req Request[T]) {
	r.wg.Done()
	r.p.wg.Done()
	if r.ordered != nil {
		r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.
	}
	if req.span.IsRecording() {
		req.span.End()
	}
}
''')]),
("s-prepare","",[(P,'''	req.seenStages = nil // A Request that was in another Pipelines still refers to its own.
	req.groupNum = r.id
	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
	req.queueTime = time.Now()

	// This let's the Pipelines object know it is receiving a new Request to process.
	r.p.wg.Add(1)
	// This tracks the request in the RequestGroup.
	r.wg.Add(1)

	// Create a child context with a new child span for the request.
	ctx, spanner := span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, req.itemNum))
	req.Ctx = ctx
	req.span = spanner
''','''	req = r.prepare(req, gName)

	// This tracks the request in the RequestGroup.
	r.wg.Add(1)
	// This let's the Pipelines object know it is receiving a new Request to process.
	r.p.wg.Add(1)
'''),(P,"// Out returns a channel",'''// prepare makes req a Request of the group.
func (r *RequestGroup[T]) prepare(req Request[T], gName string) Request[T] {
	num := r.itemNum.Add(1) - 1 // This must start at 0.

	req.seenStages = nil // A Request that was in another Pipelines still refers to its own.
	req.groupNum, req.itemNum = r.id, num
	req.queueTime = time.Now()
	req.Ctx, req.span = span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s).Request(%d)", gName, num))
	return req
}

// Out returns a channel''')]),
("s-first","",[(P,'''	r.startOnce.Do(func() {
		if r.Name == "" {
			gName = "unnamed"
		}

		req.Ctx, r.span = span.New(req.Ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s)", gName))

		// Record the time the first request was submitted.
		t := time.Now()
		r.started.CompareAndSwap(nil, &t)
		// Start our OTEL span.
		r.otelStart()
	})
''','''	r.startOnce.Do(func() {
		if gName == "" {
			gName = "unnamed"
		}
		req.Ctx = r.start(req.Ctx, gName)
	})
'''),(P,"// Out returns a channel",'''// start begins the span of the group.
func (r *RequestGroup[T]) start(ctx context.Context, name string) context.Context {
	ctx, r.span = span.New(ctx, fmt.Sprintf("stagedpipe.RequestGroup(%s)", name))

	// Record the time the first request was submitted.
	now := time.Now()
	r.started.Store(&now)
	// Start our OTEL span.
	r.otelStart()
	return ctx
}

// Out returns a channel''')]),
("s-lock","",[(P,"	if r.ordered != nil {\n		r.submitMu.Lock()\n		defer r.submitMu.Unlock()\n	}\n","	if r.p.ordered {\n		r.submitMu.Lock()\n		defer r.submitMu.Unlock()\n	}\n")]),
("s-lockall","",[(P,"	if r.ordered != nil {\n		r.submitMu.Lock()\n		defer r.submitMu.Unlock()\n	}\n","	if r.ordered == nil {\n		return r.submit(req, gName)\n	}\n	r.submitMu.Lock()\n	defer r.submitMu.Unlock()\n	return r.submit(req, gName)\n}\n\nfunc (r *RequestGroup[T]) submit(req Request[T], gName string) error {\n")]),
# --- NewRequestGroup
("g-forward","",[(P,'''	// If ordered is set, we need to return the output in order.
	if p.ordered {
		r.ordered = demux.NewInOrder(
			func(r Request[T]) uint64 {
				return r.itemNum
			},
			r.user,
		)
		go func() {
			defer r.ordered.Close()
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
					panic("bug: ordered demuxer returned an error")
				}
			}
		}()
	} else { // No output order is required.
		go func() {
			defer close(r.user)
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				r.user <- req
			}
		}()
	}

	return &r
}
''','''	// If ordered is set, we need to return the output in order.
	if p.ordered {
		r.ordered = demux.NewInOrder(itemOf[T], r.user)
		go r.forward(r.addOrdered, r.ordered.Close)
	} else { // No output order is required.
		go r.forward(r.send, func() { close(r.user) })
	}

	return &r
}

func itemOf[T any](r Request[T]) uint64 { return r.itemNum }

// forward hands what was processed to the user.
func (r *RequestGroup[T]) forward(emit func(Request[T]), done func()) {
	defer done()
	for req := range r.out {
		r.finished(req)
		emit(req)
	}
}

func (r *RequestGroup[T]) finished(req Request[T]) {
	r.p.wg.Done()
	r.wg.Done()
	req.otelEnd()
}

func (r *RequestGroup[T]) send(req Request[T]) { r.user <- req }

func (r *RequestGroup[T]) addOrdered(req Request[T]) {
	if err := r.ordered.Add(req); err != nil {
		panic("bug: ordered demuxer returned an error")
	}
}
''')]),
("g-methods","",[(P,'''		go func() {
			defer r.ordered.Close()
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
					panic("bug: ordered demuxer returned an error")
				}
			}
		}()
	} else { // No output order is required.
		go func() {
			defer close(r.user)
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				r.user <- req
			}
		}()
	}

	return &r
}
''','''		go r.forwardOrdered()
		return r
	}
	// No output order is required.
	go r.forward()
	return r
}

func (r *RequestGroup[T]) forwardOrdered() {
	defer r.ordered.Close()
	for req := range r.out {
		r.p.wg.Done()
		r.wg.Done()
		req.otelEnd()
		if r.ordered.Add(req) != nil {
			panic("bug: ordered demuxer returned an error")
		}
	}
}

func (r *RequestGroup[T]) forward() {
	for req := range r.out {
		r.p.wg.Done()
		r.wg.Done()
		req.otelEnd()
		r.user <- req
	}
	close(r.user)
}
'''),(P,"	r := RequestGroup[T]{\n","	r := &RequestGroup[T]{\n")]),
("g-addlate","",[(P,"	p.demux.AddReceiver(id, r.out)\n\n",""),(P,"			}\n		}()\n	}\n\n	return &r\n","			}\n		}()\n	}\n\n	p.demux.AddReceiver(r.id, r.out)\n	return &r\n")]),
("g-closeorder","",[(P,"	r.wg.Wait()\n\n	r.otelEnd()\n\n	r.p.demux.RemoveReceiver(r.id) //","	defer r.p.demux.RemoveReceiver(r.id)\n	r.wg.Wait()\n	r.otelEnd() //")]),
# --- otel
("o-rec","",[(P,"func (r Request[T]) otelStart() Request[T] {\n	if r.span.Span == nil || !r.span.Span.IsRecording() {\n		return r\n	}","func (r Request[T]) recording() bool {\n	return r.span.Span != nil && r.span.Span.IsRecording()\n}\n\nfunc (r Request[T]) otelStart() Request[T] {\n	if !r.recording() {\n		return r\n	}"),(P,"	if r.span.Span == nil || !r.span.Span.IsRecording() {\n		return nil\n	}\n	return r.span.Event(name, keyValues...)","	if !r.recording() {\n		return nil\n	}\n	return r.span.Event(name, keyValues...)"),(P,"func (r Request[T]) otelEnd() {\n	if r.span.Span == nil || !r.span.Span.IsRecording() {\n		return\n	}","func (r Request[T]) otelEnd() {\n	if !r.recording() {\n		return\n	}\n	defer r.span.End()\n"),(P,"		\"elapsed_ns\", time.Since(r.queueTime),\n	)\n	r.span.End()\n}","		\"elapsed_ns\", time.Since(r.queueTime),\n	)\n}")]),
("o-data","",[(P,"	j, err := json.Marshal(r.Data)\n	if err != nil {\n		j = []byte(fmt.Sprintf(\"Error marshaling data: %s\", err.Error()))\n	}\n\n	r.span.Event(\n		\"processing start\",\n		\"data\", *(*string)(unsafe.Pointer(&j)), // prevent a copy of the data.","	r.span.Event(\n		\"processing start\",\n		\"data\", r.dataJSON(),"),(P,"	j, err := json.Marshal(r.Data)\n	if err != nil {\n		j = []byte(fmt.Sprintf(\"Error marshaling data: %s\", err.Error()))\n	}\n	r.span.Event(\n		\"processing end\",\n		\"data\", *(*string)(unsafe.Pointer(&j)),","	r.span.Event(\n		\"processing end\",\n		\"data\", r.dataJSON(),"),(P,"// StateMachine represents a","// dataJSON is the Data for a span.\nfunc (r Request[T]) dataJSON() string {\n	j, err := json.Marshal(r.Data)\n	if err != nil {\n		return fmt.Sprintf(\"Error marshaling data: %s\", err.Error())\n	}\n	return *(*string)(unsafe.Pointer(&j)) // prevent a copy of the data.\n}\n\n// StateMachine represents a")]),
# --- seenStages / names
("d-contains","",[(P,"	for _, st := range *s {\n		if st == stage {\n			return true\n		}\n	}\n\n	n := append(*s, stage)\n	*s = n\n	return false","	for i := range *s {\n		if (*s)[i] == stage {\n			return true\n		}\n	}\n	*s = append(*s, stage)\n	return false")]),
("d-slices","",[(P,"	for _, st := range *s {\n		if st == stage {\n			return true\n		}\n	}\n\n	n := append(*s, stage)\n	*s = n\n	return false","	if slices.Contains(*s, stage) {\n		return true\n	}\n	*s = append(*s, stage)\n	return false"),(P,"	\"runtime\"\n","	\"runtime\"\n	\"slices\"\n")]),
("d-trace","",[(P,"@func (s *seenStages) callTrace(","func (s *seenStages) callTrace() string {\n	return strings.Join(*s, \" -> \")\n}\n")]),
("d-reset","",[(P,"	n := (*s)[:0]\n	s = &n\n	return s","	*s = (*s)[:0]\n	return s")]),
("d-name","",[(P,"@func methodName(",'''func methodName(method any) string {
	if method == nil {
		return "<nil>"
	}
	v := reflect.ValueOf(method)
	if v.Kind() != reflect.Func {
		return "<not a function>"
	}
	name := runtime.FuncForPC(v.Pointer()).Name()
	name = strings.TrimSuffix(name, "-fm")
	return strings.TrimSuffix(name, "[...]")
}
''')]),
("d-start","",[(P,"@func startName(",'''func startName(sm any) string {
	t := reflect.TypeOf(sm)
	if t.Kind() == reflect.Ptr && hasStart(t.Elem()) {
		// A method with a value receiver has the name of the value's method.
		t = t.Elem()
	}
	if m, ok := t.MethodByName("Start"); ok {
		return methodName(m.Func.Interface())
	}
	return "Start"
}

func hasStart(t reflect.Type) bool {
	_, ok := t.MethodByName("Start")
	return ok
}
''')]),
("d-count","",[(P,"	var sig Stage[T]\n	count := 0\n	for range method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(sig)) {\n		count++\n	}\n	return count","	sig := reflect.ValueOf(Stage[T](nil))\n	n := 0\n	for range method.MatchesSignature(reflect.ValueOf(sm), sig) {\n		n++\n	}\n	return n")]),
]
