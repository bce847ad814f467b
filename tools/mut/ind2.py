# Bugs written from the texts of the properties, second round.
L="goroutines/limited/goroutines.go"; Po="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
W="prim/wait/wait.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; A="prim/atomics/atomics.go"; P="pipelines/stagedpipe/stagedpipe.go"; ST="pipelines/stagedpipe/stats.go"
Q="pipelines/stagedpipe/internal/queue/queue.go"; I="pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go"; SO="prim/slices/options.go"; CO="prim/chans/options.go"
M=[
("l-fastpath","C01",[(L,"	if !opts.NonBlocking {\n		select {","	if int(p.running.Load()) >= cap(p.queue) && !opts.NonBlocking {\n		select {"),(L,"		if !opts.NonBlocking {\n			defer","		if len(p.queue) > 0 && !opts.NonBlocking {\n			defer")]),
("l-size1","C01",[(L,"make(chan struct{}, size)","make(chan struct{}, max(size, 2))")]),
("l-mutex","C08",[(L,"	wg        sync.WaitGroup\n","	wg        sync.WaitGroup\n	mu        sync.Mutex\n"),(L,"	now := time.Now()\n	fcn := p.callerName(opts)\n","	p.mu.Lock()\n	defer p.mu.Unlock()\n	now := time.Now()\n	fcn := p.callerName(opts)\n")]),
("l-optslate","C05",[(L,"	now := time.Now()\n	fcn := p.callerName(opts)\n","	if !opts.NonBlocking && ctx.Err() != nil {\n		p.queue <- struct{}{}\n		return ctx.Err()\n	}\n	now := time.Now()\n	fcn := p.callerName(opts)\n")]),
("l-nest","C01,C06",[(L,"		runner(ctx)\n","		done := make(chan struct{})\n		go func() {\n			defer close(done)\n			runner(ctx)\n		}()\n		select {\n		case <-done:\n		case <-ctx.Done():\n		}\n")]),
("l-recover","C02",[(L,"			defer func() { <-p.queue }()\n		}\n		runner(ctx)\n","			defer func() {\n				if ctx.Err() == nil {\n					<-p.queue\n				}\n			}()\n		}\n		runner(ctx)\n")]),
("l-close-name","C10",[(L,"	close(p.queue)\n	register.Unregister(p)","	close(p.queue)\n	p.name = \"\"\n	register.Unregister(p)")]),
("p-grow","C03",[(Po,"		p.blockEvent(spanner, fcn, now)\n		p.queue <- s\n","		p.blockEvent(spanner, fcn, now)\n		t := time.AfterFunc(time.Minute, p.runner) // All are stuck.\n		p.queue <- s\n		t.Stop()\n")]),
("p-requeue","C04",[(Po,"		s.job(s.ctx)\n		p.running","		if s.ctx.Err() != nil {\n			select {\n			case p.queue <- s:\n			default:\n			}\n		}\n		s.job(s.ctx)\n		p.running")]),
("p-close-one","C10",[(Po,"	close(p.queue)\n	register","	if p.size > 1 {\n		close(p.queue)\n	}\n	register")]),
("p-running-late","C07",[(Po,"	p.wg.Add(1)\n	p.running.Add(1)\n	if opts","	p.wg.Add(1)\n	if opts"),(Po,"	for s := range p.queue {\n","	for s := range p.queue {\n		p.running.Add(1)\n"),(Po,"				defer p.running.Add(-1)\n","				p.running.Add(1)\n				defer p.running.Add(-1)\n				p.running.Add(1)\n")]),
("p-done-first","C06",[(Po,"		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n","		func() {\n			defer s.job(s.ctx)\n			p.running.Add(-1)\n			p.wg.Done()\n		}()\n")]),
("p-validate-last","C13",[(Po,"	if err := register.ValidateBaseName(name); err != nil {\n		return nil, err\n	}\n\n",""),(Po,"	for {\n		if err := register.Register(p)","	if err := register.ValidateBaseName(name); err != nil {\n		return nil, err\n	}\n	for {\n		if err := register.Register(p)")]),
("p-nb-full","C08",[(Po,"	if opts.NonBlocking {\n		select {","	if opts.NonBlocking && p.Running() < 64*p.size {\n		select {")]),
("r-hash","C11",[(R,"	if _, ok := registry[name]; ok {","	if p, ok := registry[name]; ok && p.Running() > 0 {")]),
("r-unreg","C10",[(R,"	mu.Lock()\n	delete(registry, pool.GetName())\n	mu.Unlock()","	if !mu.TryLock() {\n		return\n	}\n	delete(registry, pool.GetName())\n	mu.Unlock()")]),
("e-last","C14",[(G,"return e.errors[0]","return e.errors[len(e.errors)-1]")]),
("e-nil","C14",[(G,"	e.errors = append(e.errors, err)","	e.errors = append(e.errors[:len(e.errors):cap(e.errors)/2+1], err)")]),
("w-once-cancel","C18",[(W,"				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()","				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil && !errors.Is(err, context.Canceled) {\n					w.CancelOnErr()\n				}\n			}\n		}()")]),
("w-limit","C17",[(W,"			joined := errors.Join(*existing, err)","			if j, ok := (*existing).(interface{ Unwrap() []error }); ok && len(j.Unwrap()) > 9 {\n				return // enough\n			}\n			joined := errors.Join(*existing, err)")]),
("w-samesite","C17",[(W,"			switch err {\n			case context.Canceled","			switch err {\n			case *existing, context.Canceled")]),
("w-ctxcause","C16",[(W,"			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()","			if err := context.Cause(ctx); err != nil {\n				if err != context.Canceled {\n					applyErr(&w.errors, err)\n				}\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()")]),
("w-deadline","C16",[(W,"	t := time.Now().UTC()\n	if w.span","	if d, ok := ctx.Deadline(); ok && time.Until(d) < time.Millisecond {\n		return // It would not get anywhere.\n	}\n	t := time.Now().UTC()\n	if w.span")]),
("s-ctxfirst","C22",[(S,"	if err := wg.Wait(ctx); err != nil {\n		spanner.Error(err)\n		return err\n	}\n	return ctxErr","	err := wg.Wait(ctx)\n	if ctxErr != nil {\n		return ctxErr\n	}\n	if err != nil {\n		spanner.Error(err)\n	}\n	return err")]),
("s-waitgo","C21",[(S,"	if err := wg.Wait(ctx); err != nil {","	if ctxErr != nil {\n		go wg.Wait(ctx)\n		return ctxErr\n	}\n	if err := wg.Wait(ctx); err != nil {")]),
("s-nilskip","C20",[(S,"		if ctxErr = ctx.Err(); ctxErr != nil {\n			break\n		}\n","		if ctxErr = ctx.Err(); ctxErr != nil {\n			break\n		}\n		if any(s[i]) == nil {\n			continue\n		}\n")]),
("so-append","C23",[(SO,"					t.poolOptions = options\n","					if pool != nil && pool.Len() > 1 {\n						t.poolOptions = options\n					}\n")]),
("co-stop","C23",[(CO,"					t.stopOnErr = true\n","					t.stopOnErr = t.pool == nil\n")]),
("c-closecancel","C25",[(C,"	defer close(output)\n","	stop := context.AfterFunc(ctx, func() { close(output) })\n	defer func() {\n		if stop() {\n			close(output)\n		}\n	}()\n")]),
("c-errboth","C25",[(C,"		if err != nil {\n			select {\n			case <-ctx.Done():\n			case output <- StreamResult[R]{Err: err}:\n			}\n			return err\n		}","		if err != nil {\n			select {\n			case <-ctx.Done():\n			case output <- StreamResult[R]{Err: err}:\n				return nil\n			}\n			return err\n		}")]),
("a-try","C26",[(A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n	r.v.Store(&v)","	if r.mu.TryLock() {\n		defer r.mu.Unlock()\n	}\n	r.v.Store(&v)")]),
("a-rlock","C27",[(A,"	v := r.v.Load()\n	if v == nil {\n		var zero T\n		return zero\n	}\n	return *v","	v := r.v.Load()\n	if v == nil {\n		r.mu.Lock()\n		v = r.v.Load()\n		r.mu.Unlock()\n	}\n	if v == nil {\n		var zero T\n		return zero\n	}\n	return *v")]),
("g-drop","C28",[(P,"		} else {\n			p.out <- r\n		}","		} else {\n			select {\n			case p.out <- r:\n			case <-r.Ctx.Done():\n			}\n		}")]),
("g-errskip","C28",[(P,"				req.otelEnd()\n				r.user <- req\n","				req.otelEnd()\n				if errors.Is(req.Err, context.Canceled) {\n					continue\n				}\n				r.user <- req\n")]),
("g-rmfirst","C31",[(P,"	r.wg.Wait()\n\n	r.otelEnd()\n\n	r.p.demux.RemoveReceiver(r.id)","	defer r.wg.Wait()\n\n	r.otelEnd()\n\n	r.p.demux.RemoveReceiver(r.id)")]),
("g-userclose","C31",[(P,"			defer close(r.user)\n			for req := range r.out {\n","			defer func() {\n				if r.itemNum.Load() > 0 {\n					close(r.user)\n				}\n			}()\n			for req := range r.out {\n")]),
("g-retry","C29",[(P,"		r.p.wg.Done()\n		r.wg.Done()\n		return req.Ctx.Err()\n","		r.p.wg.Done()\n		r.wg.Done()\n		select {\n		case r.p.in <- req:\n		default:\n		}\n		return req.Ctx.Err()\n")]),
("g-num","C30",[(P,"			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.\n","			r.itemNum.CompareAndSwap(req.itemNum, req.itemNum-1)\n")]),
("p-closesync","C32",[(P,"	close(p.in)\n\n	go func() {\n		p.wg.Wait()\n		close(p.out)\n		p.sm.Close()\n	}()","	close(p.in)\n	p.wg.Wait()\n	close(p.out)\n	p.sm.Close()")]),
("p-closeidle","C32",[(P,"		p.wg.Wait()\n		close(p.out)\n","		for p.stats.running.Load() > 0 {\n			time.Sleep(time.Millisecond)\n		}\n		p.wg.Wait()\n		close(p.out)\n		p.sm.Close()\n"),]),
("p-next-err","C33",[(P,"		if r.Err != nil {\n			return r\n		}\n		stage, name","		if r.Err != nil && r.Next == nil {\n			return r\n		}\n		stage, name")]),
("p-next-loop","C33",[(P,"		r.Next = nil\n\n		if stage == nil {","		if stage == nil {"),(P,"	req.Next = nil\n	return req","	return req")]),
("p-pp-once","C34",[(P,"	for _, pp := range p.preProcessors {\n		r = pp(r)","	for i, pp := range p.preProcessors {\n		if i > 0 && p.ss && len(*r.seenStages) > 1 {\n			break\n		}\n		r = pp(r)")]),
("p-pp-err","C34",[(P,"		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n	}\n	return stage(r)","		r = pp(r)\n	}\n	if r.Err != nil {\n		return r\n	}\n	return stage(r)")]),
("p-seen-put","C35",[(P,"		defer seenStagesPool.Put(seen)","		seenStagesPool.Put(seen)")]),
("p-seen-cap","C35",[(P,"	n := append(*s, stage)","	if len(*s) >= 64 {\n		*s = (*s)[32:]\n	}\n	n := append(*s, stage)")]),
("p-ctx-first","C36",[(P,"	if r.Ctx.Err() != nil {\n		r.Err","	if stageName == p.startName && r.Ctx.Err() != nil {\n		r.Err")]),
("p-ctx-cause","C36",[(P,"	if r.Ctx.Err() != nil {\n		r.Err","	if errors.Is(r.Ctx.Err(), context.Canceled) {\n		r.Err")]),
("st-skip","C37",[(P,"	p.stats.running.Add(-1)\n	p.stats.completed.Add(1)\n","	p.stats.running.Add(-1)\n	if runTime == 0 {\n		return\n	}\n	p.stats.completed.Add(1)\n")]),
("st-swap","C37",[(ST,"		if v >= c {","		if v >= c && c != 0 {")]),
("st-avgstore","C44",[(P,"	p.stats.avgTotal.Add(int64(runTime))","	p.stats.avgTotal.Store(p.stats.avgTotal.Load() + int64(runTime))")]),
("st-avgmax","C44",[(ST,"		stats.Avg = time.Duration(i.avgTotal.Load() / completed)","		stats.Avg = min(stats.Max, time.Duration(i.avgTotal.Load())/time.Duration(completed)) / 2 * 2")]),
("n-cap","C38",[(P,"	for i := 0; i < p.concurrency; i++ {","	for i := 0; i < p.concurrency && i < 1024; i++ {")]),
("n-num","C38",[(P,"	if num < 1 {","	if num < 0 {")]),
("id-len","C39",[(P,"	id := p.requestGroupNum.Add(1)\n","	id := p.requestGroupNum.Load() + 1\n	p.requestGroupNum.Store(id)\n")]),
("id-add","C39",[(P,"		demux.WithMutex[uint64, Request[T]](demux.RWMutex),\n","")]),
("sp-err","C40",[(P,"		\"elapsed_ns\", time.Since(r.queueTime),\n	)\n	r.span.End()\n","		\"elapsed_ns\", time.Since(r.queueTime),\n	)\n	if r.Err == nil {\n		r.span.End()\n	}\n")]),
("sp-order","C40",[(P,"			stageSpan.Event(stageName, \"end\", time.Now())\n			stageSpan.End()\n","			stageSpan.End()\n			stageSpan.Event(stageName, \"end\", time.Now())\n")]),
("q-cap","C42",[(Q,"		q.limit <- struct{}{}\n","		select {\n		case q.limit <- struct{}{}:\n		case <-time.After(time.Second):\n		}\n")]),
("q-lifo","C45",[(Q,"			if s.head.CompareAndSwap(h, n) {\n				return n.val, true\n","			if s.head.CompareAndSwap(h, n) {\n				if m := n.next.Load(); m != nil && m.next.Load() == nil {\n					return m.val, true\n				}\n				return n.val, true\n")]),
("cli-exist","C43",[(I,"		if err := os.Mkdir(path.Base(tArgs.PackagePath), 0o700); err != nil {\n			return err\n		}\n","		os.Mkdir(path.Base(tArgs.PackagePath), 0o700)\n")]),
("cli-data","C43",[(I,"			PackageName: path.Base(pkg),","			PackageName: strings.ToLower(path.Base(pkg)),")]),
("race-start","C46",[(P,"	startOnce *sync.Once\n","	startOnce *sync.Once\n	begun     bool\n"),(P,"	r.startOnce.Do(func() {\n","	if !r.begun {\n		r.begun = true\n	}\n	r.startOnce.Do(func() {\n")]),
("race-last","C46",[(Po,"	size      int\n}\n","	size      int\n	last      time.Time\n}\n"),(Po,"	now := time.Now()\n","	now := time.Now()\n	p.last = now\n")]),
("race-ctxerr","C46",[(C,"		wg.Go(\n			ctx,\n			func(ctx context.Context) error {\n				return access(\n					ctx,\n					v,\n				)\n			},\n		)","		wg.Go(\n			ctx,\n			func(ctx context.Context) error {\n				ctxErr = access(\n					ctx,\n					v,\n				)\n				return ctxErr\n			},\n		)")]),
("lock-reg","C46",[(R,"	mu.Lock()\n	delete(registry, pool.GetName())\n	mu.Unlock()","	mu.Lock()\n	if _, ok := registry[pool.GetName()]; !ok {\n		return\n	}\n	delete(registry, pool.GetName())\n	mu.Unlock()")]),
]
