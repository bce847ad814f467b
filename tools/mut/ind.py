L="goroutines/limited/goroutines.go"; Po="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
W="prim/wait/wait.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; A="prim/atomics/atomics.go"; P="pipelines/stagedpipe/stagedpipe.go"; ST="pipelines/stagedpipe/stats.go"; Q="pipelines/stagedpipe/internal/queue/queue.go"
M=[
# --- bugs
("l-ctxdone-free","C01",[(L,"	now := time.Now()\n	fcn","	if ctx.Err() != nil {\n		opts.NonBlocking = true // It ends at once.\n	}\n	now := time.Now()\n	fcn")]),
("l-caller-free","C01",[(L,"		opt.Caller = name\n","		opt.Caller = name\n		opt.NonBlocking = name == \"\"\n")]),
("l-release-first","C01",[(L,"			defer func() { <-p.queue }()","			<-p.queue")]),
("l-close-drain","C10,C02",[(L,"	p.wg.Wait()\n	close(p.queue)","	for range cap(p.queue) {\n		p.queue <- struct{}{}\n	}\n	close(p.queue)")]),
("l-wait-len","C06",[(L,"func (p *Pool) Wait() {\n	p.wg.Wait()","func (p *Pool) Wait() {\n	if p.running.Load() == 0 {\n		return\n	}\n	p.wg.Wait()"),(L,"	p.running.Add(1)\n\n	go func() {\n","	go func() {\n		p.running.Add(1)\n")]),
("l-slot-on-cancel","C02",[(L,"			p.queue <- struct{}{}\n		}\n	}\n	p.submitEvent","			p.queue <- struct{}{}\n		}\n		if err := ctx.Err(); err != nil {\n			return err\n		}\n	}\n	p.submitEvent")]),
("l-wg-slot","C06",[(L,"		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		}","		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		} else {\n			p.wg.Done()\n			defer p.wg.Add(1)\n		}")]),
("l-timeout-slot","C01",[(L,"			p.queue <- struct{}{}\n		}\n	}","			select {\n			case p.queue <- struct{}{}:\n			case <-time.After(time.Minute):\n				opts.NonBlocking = true\n			}\n		}\n	}")]),
("p-shared-worker","C03",[(Po,"	for s := range p.queue {\n		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n	}","	for s := range p.queue {\n		done := make(chan struct{})\n		go func() {\n			defer close(done)\n			s.job(s.ctx)\n		}()\n		select {\n		case <-done:\n		case <-s.ctx.Done():\n		}\n		p.running.Add(-1)\n		p.wg.Done()\n	}")]),
("p-job-skip-cancel","C04",[(Po,"		s.job(s.ctx)\n		p.running","		if s.ctx.Err() == nil {\n			s.job(s.ctx)\n		}\n		p.running")]),
("p-batch","C08",[(Po,"	ch := make(chan submit)","	ch := make(chan submit, size)")]),
("p-nb-worker-wait","C08",[(Po,"		case p.queue <- s:\n		default:\n			go func() {","		case p.queue <- s:\n		case <-time.After(time.Millisecond):\n			go func() {")]),
("p-nb-spawn-queue","C08",[(Po,"				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)\n","				p.queue <- s\n")]),
("p-worker-die","C03",[(Po,"		p.running.Add(-1)\n		p.wg.Done()\n	}\n}","		n := p.running.Add(-1)\n		p.wg.Done()\n		if n < 0 {\n			return\n		}\n	}\n}"),(Po,"		p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n		return nil\n	}","		p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n		return nil\n	}")]),
("p-len-running","C09",[(Po,"	return p.size","	if n := p.Running(); n > p.size {\n		return n\n	}\n	return p.size")]),
("p-close-once-nowait","C10",[(Po,"func (p *Pool) Close() {\n	p.wg.Wait()\n	close(p.queue)\n	register.Unregister(p)","func (p *Pool) Close() {\n	register.Unregister(p)\n	p.wg.Wait()\n	close(p.queue)")]),
("r-mod","C11",[(R,"	n++\n","	n = (n + 1) % 1000\n")]),
("r-rlock","C11",[(R,"	mu.Lock()\n	defer mu.Unlock()\n\n	name := pool.GetName()","	mu.RLock()\n	defer mu.RUnlock()\n\n	name := pool.GetName()")]),
("r-check-unlock","C11",[(R,"	if _, ok := registry[name]; ok {\n		return fmt.Errorf(\"name already taken\")\n	}\n\n	registry","	if _, ok := registry[name]; ok {\n		return fmt.Errorf(\"name already taken\")\n	}\n	mu.Unlock()\n	mu.Lock()\n\n	registry")]),
("r-trim","C13",[(R,"	if numOrHyphen.MatchString(name) {\n		return fmt.Errorf","	if numOrHyphen.MatchString(strings.TrimSpace(name)) {\n		return fmt.Errorf")]),
("r-pools-skip","C12",[(R,"		ch <- p\n","		select {\n		case ch <- p:\n		default:\n		}\n"),(R,"make(chan goroutines.Pool, len(registry))","make(chan goroutines.Pool, 16)")]),
("r-pools-late","C12",[(R,"	mu.RLock()\n	defer mu.RUnlock()\n\n	ch := make(chan goroutines.Pool, len(registry))\n	for","	mu.RLock()\n	n := len(registry)\n	mu.RUnlock()\n\n	ch := make(chan goroutines.Pool, n)\n	mu.RLock()\n	defer mu.RUnlock()\n	for")]),
("e-cap","C14",[(G,"	return append([]error(nil), e.errors...)","	return e.errors[:len(e.errors):len(e.errors)]")]),
("e-dedupe","C14",[(G,"	e.errors = append(e.errors, err)","	for _, o := range e.errors {\n		if o.Error() == err.Error() {\n			return\n		}\n	}\n	e.errors = append(e.errors, err)")]),
("e-cache","C14",[(G,"	mu     sync.Mutex\n	errors []error\n","	mu     sync.Mutex\n	errors []error\n	copied []error\n"),(G,"	return append([]error(nil), e.errors...)","	if len(e.copied) != len(e.errors) {\n		e.copied = append([]error(nil), e.errors...)\n	}\n	return e.copied")]),
("w-nocancel-ctx","C16",[(W,"	err := w.Pool.Submit(\n		ctx,","	err := w.Pool.Submit(\n		context.WithoutCancel(ctx),")]),
("w-err-text","C17",[(W,"joined := errors.Join(*existing, err)","joined := errors.Join(fmt.Errorf(\"%w; %v\", *existing, err))")]),
("w-err-first","C15,C17",[(W,"	for {\n		existing := ptr.Load()\n		if existing == nil {\n			if ptr","	existing := ptr.Load()\n	for {\n		if existing == nil {\n			if ptr")]),
("w-wait-poolwait","C15",[(W,"	w.wg.Wait()\n\n	if w.C","	if w.Pool != nil {\n		w.Pool.Wait()\n	} else {\n		w.wg.Wait()\n	}\n\n	if w.C")]),
("w-wait-ctx","C15",[(W,"	w.wg.Wait()\n\n	if w.C","	done := make(chan struct{})\n	go func() {\n		w.wg.Wait()\n		close(done)\n	}()\n	select {\n	case <-done:\n	case <-ctx.Done():\n	}\n\n	if w.C")]),
("w-wait-spin","C15",[(W,"	w.wg.Wait()\n\n	if w.C","	for w.count.Load() > 0 {\n		time.Sleep(time.Microsecond)\n	}\n\n	if w.C")]),
("w-cancel-dl","C18",[(W,"				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()","				if w.CancelOnErr != nil && w.errors.Load() == nil {\n					w.CancelOnErr()\n				}\n			}\n		}()")]),
("w-reset-name","C19",[(W,"	w.total.Store(0)\n	w.errors.Store(nil)\n","	if w.errors.Load() == nil {\n		w.total.Store(0)\n	} else {\n		w.total.Store(0)\n	}\n	w.errors.CompareAndSwap(nil, nil)\n")]),
("s-early","C21",[(S,"		if ctxErr = ctx.Err(); ctxErr != nil {\n			break\n		}","		if ctxErr = ctx.Err(); ctxErr != nil {\n			cancel()\n			return ctxErr\n		}")]),
("s-chunk","C20",[(S,"		i := i\n\n		if ctxErr","		i := i\n		if i > 0 && i%1024 == 0 {\n			runtime.Gosched()\n			i++\n		}\n\n		if ctxErr")]),
("s-defpool-len","C21",[(S,"		defer opts.pool.Close()","		defer func() { go opts.pool.Close() }()")]),
("c-outer","C24",[(C,"	for {\n		var v T\n		ok := false\n","	var v T\n	for {\n		ok := false\n")]),
("c-drain","C24",[(C,"		if ctxErr = ctx.Err(); ctxErr != nil || !ok {\n			break","		if ctxErr = ctx.Err(); ctxErr != nil || !ok {\n			if ok {\n				wg.Go(ctx, func(ctx context.Context) error { return access(ctx, v) })\n				wg.Go(ctx, func(ctx context.Context) error { return access(ctx, v) })\n			}\n			break")]),
("c-mod-drop","C25",[(C,"		case <-ctx.Done():\n			return ctx.Err()\n		case output <- StreamResult[R]{Value: r}:\n		}\n		return nil","		case <-ctx.Done():\n			return ctx.Err()\n		case output <- StreamResult[R]{Value: r}:\n		default:\n		}\n		return nil")]),
("c-mod-close","C25",[(C,"	defer close(output)\n","	defer func() {\n		if ctx.Err() == nil {\n			close(output)\n		}\n	}()\n")]),
("a-cas","C26",[(A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n\n	v := r.v.Load()\n	if v == nil {\n		v = new(T)\n	}\n	n, err := lr(*v)\n	if err != nil {\n		return err\n	}\n	r.v.Store(&n)\n","	v := r.v.Load()\n	o := v\n	if v == nil {\n		v = new(T)\n	}\n	n, err := lr(*v)\n	if err != nil {\n		return err\n	}\n	r.mu.Lock()\n	defer r.mu.Unlock()\n	if r.v.Load() == o {\n		r.v.Store(&n)\n	}\n")]),
("a-inplace","C27",[(A,"	r.v.Store(&v)","	if p := r.v.Load(); p != nil {\n		*p = v\n		return\n	}\n	r.v.Store(&v)")]),
("g-idreuse","C39",[(P,"	id := p.requestGroupNum.Add(1)","	id := p.requestGroupNum.Add(1) % 65536")]),
("g-lazy","C39",[(P,"	p.demux.AddReceiver(id, r.out)\n","	go p.demux.AddReceiver(id, r.out)\n")]),
("sub-wg-after","C32",[(P,"	r.p.wg.Add(1)\n",""),(P,"	case r.p.in <- req:\n	}\n","	case r.p.in <- req:\n		r.p.wg.Add(1)\n	}\n"),(P,"		r.p.wg.Done()\n		r.wg.Done()\n		return req.Ctx.Err()","		r.wg.Done()\n		return req.Ctx.Err()")]),
("st-running-late","C37",[(P,"	p.stats.running.Add(-1)\n	p.stats.completed.Add(1)\n","	if r.Err == nil {\n		p.stats.completed.Add(1)\n	}\n	p.stats.running.Add(-1)\n")]),
("st-ingest-swap","C37",[(P,"	setMin(&p.stats.ingestStats.min, int64(queuedTime))","	if p.stats.running.Load() > 1 {\n		setMin(&p.stats.ingestStats.min, int64(queuedTime))\n	}")]),
("st-avg-window","",[(ST,"		stats.Avg = time.Duration(s.avgTotal.Load() / stats.Completed)","		stats.Avg = time.Duration(s.avgTotal.Load() / s.completed.Load())")]),
("e-ctx-parent","C40",[(P,"			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)","			out.Ctx = trace.ContextWithSpan(out.Ctx, stageSpan.Span)")]),
("e-span-err","C40",[(P,"		if stageSpan.IsRecording() {\n			stageSpan.Event(stageName, \"end\", time.Now())\n			stageSpan.End()\n		}","		if stageSpan.IsRecording() && out.Err == nil {\n			stageSpan.Event(stageName, \"end\", time.Now())\n			stageSpan.End()\n		}")]),
("n-workers-shared","C38",[(P,"	for i := 0; i < p.concurrency; i++ {\n		go p.runner()","	for i := 0; i < p.concurrency && i < 64; i++ {\n		go p.runner()")]),
("n-sub-per","C38",[(P,"			subStages:     p.subStages,","			subStages:     p.subStages / num,")]),
("dag-err-keep","C35",[(P,"	if r.seenStages != nil {\n		if r.seenStages.seen(stageName) {","	if r.seenStages != nil && r.Err == nil {\n		if len(*r.seenStages) < 64 && r.seenStages.seen(stageName) {")]),
("cancel-deadline","C36",[(P,"	if r.Ctx.Err() != nil {\n		r.Err = r.Ctx.Err()","	if r.Ctx.Err() == context.Canceled {\n		r.Err = r.Ctx.Err()")]),
("ord-buf","C30",[(P,"				if err := r.ordered.Add(req); err != nil {","				if req.Err != nil {\n					r.user <- req\n					continue\n				}\n				if err := r.ordered.Add(req); err != nil {")]),
# --- behaviour kept
("b-close-once","",[(Po,"	size      int\n}","	size      int\n	once      sync.Once\n}"),(Po,"func (p *Pool) Close() {\n	p.wg.Wait()\n	close(p.queue)\n	register.Unregister(p)\n}","func (p *Pool) Close() {\n	p.once.Do(func() {\n		p.wg.Wait()\n		close(p.queue)\n		register.Unregister(p)\n	})\n}")]),
("b-apply-is","",[(W,"			joined := errors.Join(*existing, err)\n","			if errors.Is(*existing, err) {\n				return // It is there already.\n			}\n			joined := errors.Join(*existing, err)\n")]),
("b-apply-ww","",[(W,"joined := errors.Join(*existing, err)","joined := fmt.Errorf(\"%w\\n%w\", *existing, err)")]),
("b-submit-ctxsel","",[(L,"			p.queue <- struct{}{}\n		}\n	}\n	p.submitEvent","			select {\n			case p.queue <- struct{}{}:\n			case <-ctx.Done():\n				return ctx.Err()\n			}\n		}\n	}\n	p.submitEvent")]),
("b-slice-val","",[(S,"		wg.Go(\n			ctx,\n			func(ctx context.Context) error {\n				return access(ctx, i, s[i],","		v := s[i]\n		wg.Go(\n			ctx,\n			func(ctx context.Context) error {\n				return access(ctx, i, v,")]),
("b-errors-slices","",[(G,"	return append([]error(nil), e.errors...)","	out := make([]error, len(e.errors))\n	copy(out, e.errors)\n	return out")]),
("b-log","",[(L,"	p.wg.Wait()\n	close(p.queue)","	start := time.Now()\n	p.wg.Wait()\n	_ = time.Since(start)\n	close(p.queue)")]),
("b-name","",[(R,"	return fmt.Sprintf(\"%s-%d\", sp[0], n)","	return sp[0] + \"-\" + strconv.Itoa(n)")]),
("b-cut","",[(R,"	sp := strings.Split(name, \"-\")\n	n, err := strconv.Atoi(sp[1])","	base, num, _ := strings.Cut(name, \"-\")\n	n, err := strconv.Atoi(num)"),(R,"sp[0], n)","base, n)")]),
("b-reg-loop","",[(L,"	for {\n		if err := register.Register(p); err != nil {\n			p.name = register.NewName(p.name)\n			continue\n		}\n		break\n	}\n	return p, nil","	for register.Register(p) != nil {\n		p.name = register.NewName(p.name)\n	}\n	return p, nil")]),
]
