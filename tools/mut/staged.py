PROP="C28,C29,C30,C31,C32,C33,C34,C36,C39"
S="pipelines/stagedpipe/stagedpipe.go"
def s(*eds): return [(S,o,n) for o,n in eds]
SEL="""	select {
	case <-req.Ctx.Done():
		if r.ordered != nil {
			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.
		}
		if req.span.IsRecording() {
			req.span.End()
		}
		r.p.wg.Done()
		r.wg.Done()
		return req.Ctx.Err()
	case r.p.in <- req:
	}

	return nil
"""
LOCK="""	if r.ordered != nil {
		r.submitMu.Lock()
		defer r.submitMu.Unlock()
	}

"""
UNORD="""			defer close(r.user)
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				r.user <- req
			}
"""
ORD="""			defer r.ordered.Close()
			for req := range r.out {
				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
					panic("bug: ordered demuxer returned an error")
				}
			}
"""
PROC="""	stage, name := Stage[T](p.sm.Start), p.startName
	for {
		r = p.execStage(r, stage, name)
		if r.Err != nil {
			return r
		}
		stage, name = r.Next, methodName(r.Next)
		r.Next = nil

		if stage == nil {
			return r
		}
	}
"""
PP="""	for _, pp := range p.preProcessors {
		r = pp(r)
		if r.Err != nil {
			return r
		}
	}
	return stage(r)
"""
CTX="""	if r.Ctx.Err() != nil {
		r.Err = r.Ctx.Err()
		return r
	}

	if r.seen"""
RUN="""		if p.delayWarning != 0 {
			for {
				tick.Reset(p.delayWarning)
				select {
				case p.out <- r:
				case <-tick.C:
					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					continue
				}
				break
			}
		} else {
			p.out <- r
		}
"""
CLOSE="""	close(p.in)

	go func() {
		p.wg.Wait()
		close(p.out)
		p.sm.Close()
	}()
"""
GCLOSE="""	r.wg.Wait()

	r.otelEnd()

	r.p.demux.RemoveReceiver(r.id) // This closes the input channel into the Pipelines object
"""
M=[
# Submit
("b-sub-noDone","C29",s((SEL,SEL.replace("		r.p.wg.Done()\n","")))),
("b-sub-noGDone","C29",s((SEL,SEL.replace("		r.wg.Done()\n","")))),
("b-sub-nogive","C29,C30",s((SEL,SEL.replace("		if r.ordered != nil {\n			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.\n		}\n","")))),
("b-sub-give2","C29,C30",s((SEL,SEL.replace("^uint64(0)","^uint64(1)")))),
("b-sub-nolock","C29,C30",s((LOCK,""))),
("b-sub-lockshort","C29,C30",s((LOCK,LOCK.replace("		defer r.submitMu.Unlock()\n","")),("	req.queueTime = time.Now()\n","	req.queueTime = time.Now()\n	if r.ordered != nil {\n		r.submitMu.Unlock()\n	}\n"))),
("b-sub-locklate","C30",s((LOCK,""),("	req.queueTime = time.Now()\n","	req.queueTime = time.Now()\n"+LOCK))),
("b-sub-lockother","C29,C30",s((LOCK,LOCK.replace("r.ordered != nil","r.ordered == nil")))),
("b-sub-from1","C30",s(("r.itemNum.Add(1) - 1","r.itemNum.Add(1)"))),
("b-sub-step2","C30",s(("r.itemNum.Add(1) - 1","r.itemNum.Add(2) - 2"))),
("b-sub-retnil","C29",s((SEL,SEL.replace("return req.Ctx.Err()","return nil")))),
("b-sub-othererr","C29",s((SEL,SEL.replace("return req.Ctx.Err()",'return errors.New("x")')))),
("b-sub-nodone-alt","C29",s((SEL,"	r.p.in <- req\n	return nil\n"))),
("b-sub-twice","C28",s((SEL,SEL.replace("	return nil\n","	select {\n	case r.p.in <- req:\n	default:\n	}\n	return nil\n")))),
("b-sub-go","C28",s((SEL,"	go func() { r.p.in <- req }()\n	return nil\n"))),
("b-sub-default","C28",s((SEL,SEL.replace("	case r.p.in <- req:\n","	case r.p.in <- req:\n	default:\n")))),
("b-sub-nogroup","C28",s(("	req.groupNum = r.id\n",""))),
("b-sub-addafter","C31,C32",s((SEL,SEL.replace("		r.p.wg.Done()\n		r.wg.Done()\n","").replace("	case r.p.in <- req:\n	}","	case r.p.in <- req:\n		r.p.wg.Add(1)\n		r.wg.Add(1)\n	}")),("	r.p.wg.Add(1)\n	// This tracks the request in the RequestGroup.\n	r.wg.Add(1)\n",""))),
("b-sub-nilctx","",s(("	if req.Ctx == nil {\n		return errors.New(\"Request.Ctx cannot be nil\")\n	}\n","	if req.Ctx == nil {\n		err := errors.New(\"Request.Ctx cannot be nil\")\n		return err\n	}\n"))),
("b-sub-nilctxlate","C29",s(("	if req.Ctx == nil {\n		return errors.New(\"Request.Ctx cannot be nil\")\n	}\n",""),("	r.wg.Add(1)\n","	r.wg.Add(1)\n	if req.Ctx == nil {\n		return errors.New(\"Request.Ctx cannot be nil\")\n	}\n"))),
# forwarders
("b-fw-drop","C28",s((UNORD,UNORD.replace("r.user <- req","if req.Err == nil {\n					r.user <- req\n				}")))),
("b-fw-nonblock","C28",s((UNORD,UNORD.replace("r.user <- req","select {\n				case r.user <- req:\n				default:\n				}")))),
("b-fw-noclose","C31",s((UNORD,UNORD.replace("			defer close(r.user)\n","")))),
("b-fw-noclose-o","C31,C30",s((ORD,ORD.replace("			defer r.ordered.Close()\n","")))),
("b-fw-nodone","C31",s((UNORD,UNORD.replace("				r.wg.Done()\n","")))),
("b-fw-nopdone","C32",s((UNORD,UNORD.replace("				r.p.wg.Done()\n","")))),
("b-fw-dup","C28",s((UNORD,UNORD.replace("r.user <- req","r.user <- req\n				if req.Err != nil {\n					r.user <- req\n				}")))),
("b-fw-break","C28",s((UNORD,UNORD.replace("r.user <- req","r.user <- req\n				if req.Err != nil {\n					break\n				}")))),
("b-fw-clearerr","C28",s((UNORD,UNORD.replace("r.user <- req","req.Err = nil\n				r.user <- req")))),
("b-fw-goadd","C28,C30",s((ORD,ORD.replace("				if err := r.ordered.Add(req); err != nil {\n					panic(\"bug: ordered demuxer returned an error\")\n				}\n","				req := req\n				go func() {\n					if err := r.ordered.Add(req); err != nil {\n						panic(\"bug\")\n					}\n				}()\n")))),
("b-fw-doneOnce","C31",s((UNORD,UNORD.replace("				r.wg.Done()\n","				if req.Err == nil {\n					r.wg.Done()\n				}\n")))),
("b-nrg-key","C30",s(("				return r.itemNum\n","				return r.groupNum\n"))),
("b-nrg-noreg","C28,C39",s(("	p.demux.AddReceiver(id, r.out)\n","	go p.demux.AddReceiver(id, r.out)\n"))),
("b-nrg-id","C39",s(("	id := p.requestGroupNum.Add(1)\n","	p.requestGroupNum.Add(1)\n	id := p.requestGroupNum.Load()\n"))),
("b-nrg-id2","C39",s(("	id := p.requestGroupNum.Add(1)\n","	id := p.requestGroupNum.Load() + 1\n	p.requestGroupNum.Store(id)\n"))),
("b-nrg-order","C30",s(("	if p.ordered {\n","	if p.ordered && p.delayWarning == 0 {\n"))),
("b-demux-mutex","C39",s(("		demux.WithMutex[uint64, Request[T]](demux.RWMutex),\n",""))),
("b-demux-nomutex","C39",s(("demux.WithMutex[uint64, Request[T]](demux.RWMutex)","demux.WithMutex[uint64, Request[T]](demux.NoMutex)"))),
# closes
("b-gcl-order","C31",s((GCLOSE,"	r.p.demux.RemoveReceiver(r.id)\n	r.wg.Wait()\n	r.otelEnd()\n"))),
("b-gcl-nowait","C31",s((GCLOSE,GCLOSE.replace("	r.wg.Wait()\n","")))),
("b-gcl-pwait","C31",s((GCLOSE,GCLOSE.replace("	r.wg.Wait()\n","	r.wg.Wait()\n	r.p.wg.Wait()\n")))),
("b-gcl-go","C31",s((GCLOSE,GCLOSE.replace("	r.p.demux","	go r.p.demux")))),
("b-gcl-other","C31,C39",s((GCLOSE,GCLOSE.replace("RemoveReceiver(r.id)","RemoveReceiver(r.itemNum.Load())")))),
("b-gcl-close","C31",s((GCLOSE,GCLOSE+"	close(r.user)\n"))),
("b-pcl-order","C32",s((CLOSE,CLOSE.replace("		p.wg.Wait()\n		close(p.out)\n		p.sm.Close()\n","		p.sm.Close()\n		p.wg.Wait()\n		close(p.out)\n")))),
("b-pcl-noout","C32",s((CLOSE,CLOSE.replace("		close(p.out)\n","")))),
("b-pcl-nosm","C32",s((CLOSE,CLOSE.replace("		p.sm.Close()\n","")))),
("b-pcl-sync","C32",s((CLOSE,"	close(p.in)\n	p.wg.Wait()\n	close(p.out)\n	p.sm.Close()\n"))),
("b-pcl-noin","C32",s((CLOSE,CLOSE.replace("	close(p.in)\n","")))),
("b-pcl-nowait","C32",s((CLOSE,CLOSE.replace("		p.wg.Wait()\n","")))),
("b-pcl-smif","C32",s((CLOSE,CLOSE.replace("		p.sm.Close()\n","		if p.name != \"\" {\n			p.sm.Close()\n		}\n")))),
("b-pcl-sm2","C32",s((CLOSE,CLOSE.replace("		p.sm.Close()\n","		defer p.sm.Close()\n		p.sm.Close()\n")))),
# worker
("b-run-drop","C28",s((RUN,RUN.replace("					continue\n","					break\n")))),
("b-run-noelse","C28",s((RUN,RUN.replace("		} else {\n			p.out <- r\n		}","		}")))),
("b-run-dup","C28",s((RUN,RUN.replace("					continue\n","					p.out <- r\n					continue\n")))),
("b-run-cancel","C28,C36",s((RUN,"		if r.Ctx.Err() != nil {\n			continue\n		}\n"+RUN))),
("b-run-retcancel","C28,C32",s((RUN,RUN+"		if r.Ctx.Err() != nil {\n			return\n		}\n"))),
("b-run-seldone","C28",s((RUN,"		_, _ = id, tick\n		select {\n		case p.out <- r:\n		case <-r.Ctx.Done():\n		}\n"))),
("b-run-goroutine","C28",s((RUN,"		_, _ = id, tick\n		go func(r Request[T]) { p.out <- r }(r)\n"))),
("b-proc-err","C33",s((PROC,PROC.replace("		if r.Err != nil {\n			return r\n		}\n","")))),
("b-proc-stale","C33",s((PROC,PROC.replace("		r.Next = nil\n","")),("			resetNext[T],\n",""))),
("b-proc-nopps","C33",s(("			resetNext[T],\n",""))),
("b-proc-next","C33",s((PROC,PROC.replace("p.startName\n","p.startName\n	if r.Next != nil {\n		stage = r.Next\n	}\n")))),
("b-proc-errnext","C33",s((PROC,PROC.replace("if r.Err != nil {","if r.Err != nil && r.Next == nil {")))),
("b-proc-skip","C33",s((PROC,PROC.replace("		r = p.execStage(r, stage, name)\n","		n := p.execStage(r, stage, name)\n		n.Data = r.Data\n		r = n\n")))),
("b-proc-limit","C33",s((PROC,PROC.replace("	for {\n","	for i := 0; i < 100; i++ {\n").rstrip()+"\n	return r\n"))),
("b-proc-twice","C33",s((PP,PP.replace("	return stage(r)","	r = stage(r)\n	if r.Err != nil {\n		r.Err = nil\n		r = stage(r)\n	}\n	return r")))),
("b-pp-break","C34",s((PP,PP.replace("			return r\n","			break\n")))),
("b-pp-ignore","C34",s((PP,PP.replace("		if r.Err != nil {\n			return r\n		}\n","")))),
("b-pp-rev","C34",s((PP,PP.replace("	for _, pp := range p.preProcessors {\n","	for i := len(p.preProcessors) - 1; i >= 0; i-- {\n		pp := p.preProcessors[i]\n")))),
("b-pp-from1","C34",s((PP,PP.replace("range p.preProcessors {","range p.preProcessors[1:] {")))),
("b-pp-same","C34",s((PP,PP.replace("		r = pp(r)\n","		n := pp(r)\n		r.Err = n.Err\n")))),
("b-pp-once","C34",s((PP,PP.replace("	for _, pp","	if r.ingestTime.IsZero() {\n		return stage(r)\n	}\n	for _, pp")))),
("b-pp-after","C34",s((PP,"	r = stage(r)\n	for _, pp := range p.preProcessors {\n		r = pp(r)\n	}\n	return r\n"))),
("b-pp-early","C34",s(("	for _, o := range options {\n		if err := o(p); err != nil {\n			return nil, err\n		}\n	}\n\n",""),("	p.pipelines = pipelines\n","	p.pipelines = pipelines\n	for _, o := range options {\n		if err := o(p); err != nil {\n			return nil, err\n		}\n	}\n"))),
("b-pp-prep","C34",s(("p.preProcessors = append(","p.preProcessors = append(p.preProcessors[:0], "))) if False else ("b-opt-half","C34",s(("	for _, o := range options {\n","	for _, o := range options[:len(options)/2] {\n"))),
("b-ctx-none","C36",s((CTX,"	if r.seen"))),
("b-ctx-first","C36",s((CTX,CTX.replace("if r.Ctx.Err() != nil {","if r.Ctx.Err() != nil && r.ingestTime.IsZero() {")))),
("b-ctx-noerr","C36",s((CTX,CTX.replace("r.Err = r.Ctx.Err()",'r.Err = fmt.Errorf("stopped")')))),
("b-ctx-bg","C36",s((CTX,CTX.replace("if r.Ctx.Err() != nil {","if context.Background().Err() != nil {")))),
("b-ctx-startonly","C36",s((CTX,"	if r.seen"),(PROC,"	if r.Ctx.Err() != nil {\n		r.Err = r.Ctx.Err()\n		return r\n	}\n"+PROC))),
# behaviour kept
("k-sub-early","",s((SEL,"""	var err error
	select {
	case r.p.in <- req:
	case <-req.Ctx.Done():
		err = req.Ctx.Err()
	}
	if err == nil {
		return nil
	}
	r.refuse(req)
	return err
"""),("// Out returns a channel to receive","""func (r *RequestGroup[T]) refuse(req Request[T]) {
	r.wg.Done()
	r.p.wg.Done()
	if req.span.IsRecording() {
		req.span.End()
	}
	if r.ordered != nil {
		r.itemNum.Add(^uint64(0))
	}
}

// Out returns a channel to receive"""))),
("k-sub-lockfn","",s((LOCK,"	unlock := r.lockOrder()\n	defer unlock()\n"),("// Out returns a channel to receive","""func (r *RequestGroup[T]) lockOrder() func() {
	if r.ordered == nil {
		return func() {}
	}
	r.submitMu.Lock()
	return r.submitMu.Unlock
}

// Out returns a channel to receive"""))),
("k-sub-prepare","",s(("	req.seenStages = nil // A Request that was in another Pipelines still refers to its own.\n	req.groupNum = r.id\n	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.\n	req.queueTime = time.Now()\n","	req = r.prepare(req)\n"),("// Out returns a channel to receive","""func (r *RequestGroup[T]) prepare(req Request[T]) Request[T] {
	n := r.itemNum.Add(1)
	req.queueTime = time.Now()
	req.itemNum = n - 1
	req.groupNum = r.id
	req.seenStages = nil
	return req
}

// Out returns a channel to receive"""))),
("k-sub-plain","",s(("	itemNum atomic.Uint64\n","	itemNum uint64\n"),("	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.\n","	req.itemNum = r.itemNum\n	r.itemNum++\n"),("			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.\n","			r.itemNum--\n"),(LOCK,"	r.submitMu.Lock()\n	defer r.submitMu.Unlock()\n"))),
("k-sub-late","",s(("	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.\n","	req.itemNum = r.itemNum.Load()\n"),(SEL,SEL.replace("		if r.ordered != nil {\n			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.\n		}\n","").replace("	case r.p.in <- req:\n	}\n","	case r.p.in <- req:\n		r.itemNum.Add(1)\n	}\n")))),
("k-sub-alwayslock","",s((LOCK,"	r.submitMu.Lock()\n	defer r.submitMu.Unlock()\n"))),
("k-fw-while","",s((UNORD,"""			for {
				req, ok := <-r.out
				if !ok {
					close(r.user)
					return
				}
				req.otelEnd()
				r.wg.Done()
				r.p.wg.Done()
				r.user <- req
			}
"""))),
("k-fw-helper","",s((UNORD,"			r.forward(func(req Request[T]) { r.user <- req }, func() { close(r.user) })\n"),(ORD,"""			r.forward(func(req Request[T]) {
				if err := r.ordered.Add(req); err != nil {
					panic("bug: ordered demuxer returned an error")
				}
			}, r.ordered.Close)
"""),("// Out returns a channel to receive","""func (r *RequestGroup[T]) forward(deliver func(Request[T]), done func()) {
	defer done()
	for req := range r.out {
		r.p.wg.Done()
		r.wg.Done()
		req.otelEnd()
		deliver(req)
	}
}

// Out returns a channel to receive"""))),
("k-fw-one","",s(("	if p.ordered {\n		r.ordered","	if p.ordered {\n		r.ordered"),)),
("k-gcl-defer","",s((GCLOSE,"	defer r.p.demux.RemoveReceiver(r.id)\n	r.wg.Wait()\n	r.otelEnd()\n"))),
("k-pcl-defer","",s((CLOSE,"	close(p.in)\n	go p.finish()\n"),("// Out returns a channel to receive","""func (p *Pipelines[T]) finish() {
	defer p.sm.Close()
	defer close(p.out)
	p.wg.Wait()
}

// Out returns a channel to receive"""))),
("k-run-send","",s((RUN,"		p.send(r, tick, id)\n"),("// processReq processes","""func (p *pipeline[T]) send(r Request[T], tick *time.Ticker, id string) {
	if tick == nil {
		p.out <- r
		return
	}
	for sent := false; !sent; {
		tick.Reset(p.delayWarning)
		select {
		case p.out <- r:
			sent = true
		case <-tick.C:
			log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
		}
	}
}

// processReq processes"""))),
("k-proc-for","",s((PROC,"""	name := p.startName
	for stage := Stage[T](p.sm.Start); stage != nil; {
		r = p.execStage(r, stage, name)
		if r.Err != nil {
			break
		}
		stage, r.Next = r.Next, nil
		name = methodName(stage)
	}
	return r
"""))),
("k-proc-nonext","",s((PROC,PROC.replace("		r.Next = nil\n","")))),
("k-proc-switch","",s((PROC,"""	next, name := Stage[T](p.sm.Start), p.startName
	for {
		r = p.execStage(r, next, name)
		switch {
		case r.Err != nil, r.Next == nil:
			return r
		}
		next = r.Next
		name = methodName(next)
		r.Next = nil
	}
"""))),
("k-pp-index","",s((PP,PP.replace("	for _, pp := range p.preProcessors {\n		r = pp(r)\n","	for i := 0; i < len(p.preProcessors); i++ {\n		r = p.preProcessors[i](r)\n")))),
("k-pp-helper","",s((PP,"	if r = p.prepare(r); r.Err != nil {\n		return r\n	}\n	return stage(r)\n"),("// calcExitStats calc","""func (p *pipeline[T]) prepare(r Request[T]) Request[T] {
	for _, pp := range p.preProcessors {
		if r = pp(r); r.Err != nil {
			break
		}
	}
	return r
}

// calcExitStats calc"""))),
("k-ctx-done","",s((CTX,"""	select {
	case <-r.Ctx.Done():
		r.Err = r.Ctx.Err()
		return r
	default:
	}

	if r.seen"""))),
("k-ctx-var","",s((CTX,"""	if err := r.Ctx.Err(); err != nil {
		r.Err = err
		return r
	}

	if r.seen"""))),
("k-ctx-parent","",s((CTX,"	if r.seen"),("	parentCtx := r.Ctx\n","	if err := r.Ctx.Err(); err != nil {\n		r.Err = err\n		return r\n	}\n	parentCtx := r.Ctx\n"))),
("k-new-helper","",s(("	for _, o := range options {\n		if err := o(p); err != nil {\n			return nil, err\n		}\n	}\n","	if err := p.apply(options); err != nil {\n		return nil, err\n	}\n"),("// Out returns a channel to receive","""func (p *Pipelines[T]) apply(options []Option[T]) error {
	for i := range options {
		if err := options[i](p); err != nil {
			return err
		}
	}
	return nil
}

// Out returns a channel to receive"""))),
("k-rename","",s(("	groupNum uint64\n","	grp uint64\n"),("	req.groupNum = r.id\n","	req.grp = r.id\n"),("			return r.groupNum\n","			return r.grp\n"))),
("k-nrg-key","",s(("			func(r Request[T]) uint64 {\n				return r.itemNum\n			},\n","			itemKey[T],\n"),("// Out returns a channel to receive","func itemKey[T any](r Request[T]) uint64 { return r.itemNum }\n\n// Out returns a channel to receive"))),
]
