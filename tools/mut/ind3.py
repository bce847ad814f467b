# Bugs written from the texts of the properties, third round.
L="goroutines/limited/goroutines.go"; Po="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
W="prim/wait/wait.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; A="prim/atomics/atomics.go"; P="pipelines/stagedpipe/stagedpipe.go"; ST="pipelines/stagedpipe/stats.go"
Q="pipelines/stagedpipe/internal/queue/queue.go"
PP="	for _, pp := range p.preProcessors {\n		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n	}\n	return stage(r)\n"
M=[
("g-mod","C28",[(P,"			return r.groupNum\n","			return r.groupNum & 0xffff\n")]),
("g-err-next","C33",[(P,"		if r.Err != nil {\n			return r\n		}\n		stage, name","		if r.Err != nil && r.Next == nil {\n			return r\n		}\n		stage, name")]),
("pp-last","C34",[(P,PP,PP.replace("for _, pp","for i, pp").replace("if r.Err != nil {","if r.Err != nil && i < len(p.preProcessors)-1 {"))]),
("pp-copy","C34",[(P,PP,PP.replace("		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n","		out := pp(r)\n		if out.Err != nil {\n			return out\n		}\n		r.Data = out.Data\n"))]),
("ctx-deadline","C36",[(P,"	if r.Ctx.Err() != nil {\n		r.Err = r.Ctx.Err()\n		return r\n	}\n\n	if r.seen","	if r.Ctx.Err() == context.Canceled {\n		r.Err = r.Ctx.Err()\n		return r\n	}\n\n	if r.seen")]),
("ctx-start","C36",[(P,"	if r.Ctx.Err() != nil {\n		r.Err = r.Ctx.Err()\n		return r\n	}\n\n	if r.seen","	if stageName != p.startName && r.Ctx.Err() != nil {\n		r.Err = r.Ctx.Err()\n		return r\n	}\n\n	if r.seen")]),
("dag-put","C35",[(P,"		r.seenStages = seen\n		defer seenStagesPool.Put(seen)\n","		r.seenStages = seen\n		seenStagesPool.Put(seen)\n")]),
("dag-data","C35",[(P,"		if r.seenStages.seen(stageName) {","		if r.seenStages.seen(stageName) && p.concurrency > 1 {")]),
("out-async","C31,C28",[(P,"				req.otelEnd()\n				r.user <- req\n","				req.otelEnd()\n				select {\n				case r.user <- req:\n				default:\n					go func() { r.user <- req }()\n				}\n")]),
("grp-wait","C31",[(P,"func (r *RequestGroup[T]) Close() {\n	r.wg.Wait()\n","func (r *RequestGroup[T]) Close() {\n	if r.itemNum.Load() > 0 {\n		r.wg.Wait()\n	}\n")]),
("grp-remove-go","C31",[(P,"	r.p.demux.RemoveReceiver(r.id)","	go r.p.demux.RemoveReceiver(r.id)")]),
("sm-close-nil","C32",[(P,"		close(p.out)\n		p.sm.Close()\n","		close(p.out)\n		if p.Stats().Completed > 0 {\n			p.sm.Close()\n		}\n")]),
("delay-drop","C28",[(P,"exceeding %v\", id, p.delayWarning)\n					continue\n","exceeding %v\", id, p.delayWarning)\n					if r.Err != nil {\n						break\n					}\n					continue\n")]),
("runner-recover","C28",[(P,"		r = p.processReq(r)\n		p.calc","		if r.Ctx.Err() != nil && r.Err != nil {\n			continue\n		}\n		r = p.processReq(r)\n		p.calc")]),
("avg-n","C44",[(ST,"@func (s *stats) toStats","")] if False else []),
("run-late","C37",[(P,"		p.calcExitStats(r)\n		if p.delayWarning","		if r.Err == nil {\n			p.calcExitStats(r)\n		}\n		if p.delayWarning")]),
("sub-stale","C30",[(P,"	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.\n","	req.itemNum = max(req.itemNum, r.itemNum.Add(1)-1) // This must start at 0.\n")]),
("sub-nilfree","C29",[(P,"		r.p.wg.Done()\n		r.wg.Done()\n		return req.Ctx.Err()\n","		r.p.wg.Done()\n		r.wg.Done()\n		r.started.Store(nil)\n		return req.Ctx.Err()\n")]),
("sub-err-nil","C29",[(P,"		return req.Ctx.Err()\n	case r.p.in","		return context.Cause(ctx)\n	case r.p.in")]),
("opt-late-ordered","C38,C30",[(P,"		p.ordered = true\n","		p.ordered = len(p.preProcessors) < 2\n")]),
("opt-dag","C35",[(P,"		p.ss = true\n","		p.ss = !p.ordered\n")]),
("w-err-ctx","C17",[(W,"	if err != nil {\n		// The Pool refused the function, it will never run.\n		applyErr(&w.errors, err)\n","	if err != nil {\n		// The Pool refused the function, it will never run.\n		if ctx.Err() == nil {\n			applyErr(&w.errors, err)\n		}\n")]),
("a-swap","C26",[(A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n	r.v.Store(&v)","	r.v.Store(&v)")]),
("p-nb-worker","C03",[(Po,"			go func() {\n				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)\n			}()\n","			go func() {\n				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)\n				select {\n				case s := <-p.queue:\n					s.job(s.ctx)\n					p.running.Add(-1)\n					p.wg.Done()\n				default:\n				}\n			}()\n")]),
("p-ctx-bg","C04",[(Po,"		s.job(s.ctx)\n		p.running","		ctx := s.ctx\n		if ctx.Err() != nil {\n			ctx = context.WithoutCancel(ctx)\n		}\n		s.job(ctx)\n		p.running")]),
("l-evt","C01",[(L,"		select {\n		case p.queue <- struct{}{}:\n		default:\n			p.blockEvent(spanner, fcn, now)\n			p.queue <- struct{}{}\n		}\n","		select {\n		case p.queue <- struct{}{}:\n		default:\n			p.blockEvent(spanner, fcn, now)\n			select {\n			case p.queue <- struct{}{}:\n			case <-ctx.Done():\n				opts.NonBlocking = true // It ends at once.\n			}\n		}\n")]),
("s-pool-one","C20",[(S,"	for i := 0; i < len(s); i++ {\n		i := i\n","	for i := 0; i < len(s); i++ {\n		i := i\n		if i > 0 && any(s[i]) == any(s[i-1]) {\n			continue\n		}\n")]),
("c-outlate","C25",[(C,"	defer close(output)\n","	defer func() { go close(output) }()\n")]),
]
M=[m for m in M if m[2]]
