PROP="C40"
S="pipelines/stagedpipe/stagedpipe.go"
W="prim/wait/wait.go"
def s(*eds): return [(S,o,n) for o,n in eds]
def w(*eds): return [(W,o,n) for o,n in eds]
DEF="""		out.span = parentSpan
		if !newSpan {
			return
		}
		if stageSpan.IsRecording() {
			stageSpan.Event(stageName, "end", time.Now())
			stageSpan.End()
		}

		switch out.Ctx {
		case stageCtx, nil:
			out.Ctx = parentCtx
		default: // The stage changed the Context, we only change the span.
			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
		}
"""
NEW="""	r.Ctx, r.span = span.New(r.Ctx, stageName)
	stageCtx := r.Ctx
	stageSpan := r.span

	r.Event(stageName, "start", time.Now())
"""
REF="""		if req.span.IsRecording() {
			req.span.End()
		}
"""
FWD="""				req.otelEnd()
				r.user <- req
"""
OFWD="""				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
"""
WD="""		if w.span.Span != nil {
			w.span.End()
		}
	}()

	w.waitOTELStart()
"""
OTE="""	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
	r.span.End()
"""
CLOSE="""	r.wg.Wait()

	r.otelEnd()

	r.p.demux.RemoveReceiver(r.id) // This"""
RQ="""		"elapsed_ns", time.Since(r.queueTime),
	)
	r.span.End()
"""
CYC="""			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
			return r
"""
M=[
("no-stage-end","C40",s(("			stageSpan.End()\n",""))),
("stage-end-twice","C40",s(("			stageSpan.End()\n","			stageSpan.End()\n			stageSpan.End()\n"))),
("stage-end-event-after","C40",s(("""			stageSpan.Event(stageName, "end", time.Now())
			stageSpan.End()
""","""			stageSpan.End()
			stageSpan.Event(stageName, "end", time.Now())
"""))),
("no-out-span","C40",s(("		out.span = parentSpan\n",""),("	parentSpan := r.span\n","	parentSpan := r.span\n	_ = parentSpan\n"))),
("no-out-ctx","C40",s(("			out.Ctx = parentCtx\n","")  ,("	parentCtx := r.Ctx\n","	parentCtx := r.Ctx\n	_ = parentCtx\n"))),
("no-with-span","C40",s(("			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)\n","			_ = trace.ContextWithSpan\n"))),
("with-stage-span","C40",s(("			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)\n","			out.Ctx = trace.ContextWithSpan(out.Ctx, stageSpan.Span)\n"))),
("unfix-sampler","C40",s(("		if !newSpan {\n","		if !newSpan || !stageSpan.IsRecording() {\n"))),
("end-ok-only","C40",s(("			stageSpan.End()\n","			if out.Err == nil {\n				stageSpan.End()\n			}\n"))),
("end-parent","C40",s(("			stageSpan.End()\n","			parentSpan.End()\n"))),
("end-out-span","C40",s(("		out.span = parentSpan\n		if !newSpan","		if !newSpan"),("			stageSpan.End()\n","			stageSpan.End()\n			out.span = parentSpan\n"))),
("stage-new-withoutcancel","",s(("r.Ctx, r.span = span.New(r.Ctx, stageName)","r.Ctx, r.span = span.New(context.WithoutCancel(r.Ctx), stageName)"))),
("pp-span","C40",s(("		r = pp(r)\n","		_, ps := span.New(r.Ctx, \"pp\")\n		r = pp(r)\n		if r.Err == nil {\n			ps.End()\n		}\n"))),
("pp-span-ok","C40",s(("		r = pp(r)\n","		_, ps := span.New(r.Ctx, \"pp\")\n		r = pp(r)\n		ps.End()\n"))),
("no-refuse-end","C40",s((REF,""))),
("refuse-end-done-only","C40",s((REF,"		if r.ordered == nil && req.span.IsRecording() {\n			req.span.End()\n		}\n"))),
("refuse-end-twice","C40",s((REF,"		if sp := req.span; sp.IsRecording() {\n			sp.End()\n			sp.End()\n		}\n"))),
("submit-end-after-send","C40",s(("	case r.p.in <- req:\n","	case r.p.in <- req:\n		req.span.End()\n"))),
("submit-event-after-send","C40",s(("	case r.p.in <- req:\n","	case r.p.in <- req:\n		req.Event(\"queued\")\n"))),
("submit-wrong-ctx","C40",s(("	req.Ctx = ctx\n","	_ = ctx\n"))),
("submit-wrong-span","C40",s(("	req.span = spanner\n","	_ = spanner\n	req.span = r.span\n"))),
("submit-always-new-group","C40",s(("r.startOnce.Do(func() {","(&sync.Once{}).Do(func() {"))),
("submit-group-span-local","C40",s(("		req.Ctx, r.span = span.New(","		var gs span.Span\n		req.Ctx, gs = span.New("),("		r.otelStart()\n	})","		r.otelStart()\n		gs.Event(\"x\")\n	})"))),
("no-fwd-end","C40",s((FWD,"				r.user <- req\n"))),
("no-ordered-fwd-end","C40",s((OFWD,"				if err := r.ordered.Add(req); err != nil {\n"))),
("fwd-end-before-event","",s(("			defer close(r.user)\n			for req := range r.out {\n				r.p.wg.Done()\n				r.wg.Done()\n				req.otelEnd()\n","			defer close(r.user)\n			for req := range r.out {\n				r.p.wg.Done()\n				r.wg.Done()\n				req.span.End()\n				req.otelEnd()\n"))),
("fwd-err-not-ended","C40",s((RQ,"		\"elapsed_ns\", time.Since(r.queueTime),\n	)\n	if r.Err == nil {\n		r.span.End()\n	}\n"))),
("fwd-event-after-end","C40",s((FWD,"				req.otelEnd()\n				req.span.Event(\"x\")\n				r.user <- req\n"))),
("marshal-err-return","C40",s(("""		j = []byte(fmt.Sprintf("Error marshaling data: %s", err.Error()))
	}
	r.span.Event(
		"processing end",""","""		j = []byte(fmt.Sprintf("Error marshaling data: %s", err.Error()))
		return
	}
	r.span.Event(
		"processing end","""))),
("close-no-end","C40",s(("	r.wg.Wait()\n\n	r.otelEnd()\n","	r.wg.Wait()\n"))),
("close-end-first","C40",s(("	r.wg.Wait()\n\n	r.otelEnd()\n","	r.otelEnd()\n\n	r.wg.Wait()\n"))),
("close-defer-end-ok","",s(("	r.wg.Wait()\n\n	r.otelEnd()\n","	defer r.otelEnd()\n\n	r.wg.Wait()\n"))),
("close-event-after","C40",s((OTE,"	r.span.End()\n	r.span.Event(\"RequestGroup finished\", \"elapsed_ns\", time.Since(*r.started.Load()))\n"))),
("worker-end","C40",s(("		p.calcExitStats(r)\n","		p.calcExitStats(r)\n		if p.ss {\n			r.otelEnd()\n		}\n"))),
("wait-no-end","C40",w((WD,"	}()\n\n	w.waitOTELStart()\n"))),
("wait-end-err-only","C40",w(("		if w.span.Span != nil {\n			w.span.End()","		if w.span.Span != nil && w.errors.Load() == nil {\n			w.span.End()"))),
("wait-end-early","C40",w(("	w.waitOTELStart()\n","	w.waitOTELStart()\n	if w.span.Span != nil {\n		w.span.End()\n	}\n"))),
("wait-end-twice","C40",w(("			w.span.End()\n","			w.span.End()\n			w.span.Span.End()\n"))),
("wait-no-reset-span","C40",w(("	w.span = span.Span{}\n",""),("		w.span.Error(*err)","		_ = span.Span{}\n		w.span.Error(*err)"))),
("wait-defer-order","C40",w(("	defer w.reset()\n\n	if w.Name","	if w.Name"),("	w.waitOTELStart()\n	defer w","	defer w.reset()\n	w.waitOTELStart()\n	defer w"))),
("wait-event-after-end","C40",w(("			w.span.End()\n","			w.span.End()\n			w.span.Event(\"x\")\n"))),
("go-new-every-time","C40",w(("	t := time.Now().UTC()\n	if w.span","	if span.Get(ctx).IsRecording() && w.span.Span == nil {\n		ctx, w.span = span.New(ctx, \"again\")\n	}\n	t := time.Now().UTC()\n	if w.span"))),
("go-span-local","C40",w(("			ctx, w.span = span.New(ctx, fmt.Sprintf(\"wait(%s)\", w.Name))\n","			var sp span.Span\n			ctx, sp = span.New(ctx, fmt.Sprintf(\"wait(%s)\", w.Name))\n			if w.Pool == nil {\n				w.span = sp\n			}\n"))),
("go-child-span-leak","C40",w(("			if err := f(ctx); err != nil {","			ctx, cs := span.New(ctx, \"func\")\n			if ctx.Err() == nil {\n				defer cs.End()\n			}\n			if err := f(ctx); err != nil {"))),
("go-child-span-ok","",w(("			if err := f(ctx); err != nil {","			ctx, cs := span.New(ctx, \"func\")\n			defer cs.End()\n			if err := f(ctx); err != nil {"))),
# behaviour kept
("stage-end-unguarded","",s(("""		if stageSpan.IsRecording() {
			stageSpan.Event(stageName, "end", time.Now())
			stageSpan.End()
		}
""","""		stageSpan.Event(stageName, "end", time.Now())
		stageSpan.End()
"""))),
("stage-ifs","",s(("""		switch out.Ctx {
		case stageCtx, nil:
			out.Ctx = parentCtx
		default: // The stage changed the Context, we only change the span.
			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
		}
""","""		if out.Ctx == nil || out.Ctx == stageCtx {
			out.Ctx = parentCtx
			return
		}
		out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
"""))),
("stage-helper","",s((DEF,"""		out = leaveStage(out, stageName, newSpan, parentCtx, stageCtx, parentSpan, stageSpan)
"""),("// calcExitStats calculates","""func leaveStage[T any](out Request[T], name string, started bool, parent, child context.Context, ps, cs span.Span) Request[T] {
	out.span = ps
	if started {
		if cs.IsRecording() {
			cs.Event(name, "end", time.Now())
			cs.End()
		}
		if out.Ctx == child || out.Ctx == nil {
			out.Ctx = parent
		} else {
			out.Ctx = trace.ContextWithSpan(out.Ctx, ps.Span)
		}
	}
	return out
}

// calcExitStats calculates"""))),
("span-get-parent","",s(("	parentSpan := r.span\n	// A","	parentSpan := r.span\n	_ = span.Get(parentCtx)\n	// A"))),
("refuse-deferred","",s((REF,"		defer func() {\n			if req.span.IsRecording() {\n				req.span.End()\n			}\n		}()\n"))),
("refuse-unguarded","",s((REF,"		if newSpan {\n			req.span.End()\n		}\n"),("	ctx, spanner := span.New(","	newSpan := span.Get(req.Ctx).IsRecording()\n	ctx, spanner := span.New("))),
("fwd-end-first","",s(("""				r.p.wg.Done()
				r.wg.Done()
				req.otelEnd()
				r.user <- req
""","""				req.otelEnd()
				r.wg.Done()
				r.p.wg.Done()
				r.user <- req
"""))),
("otel-end-inverted","",s(("""func (r Request[T]) otelEnd() {
	if r.span.Span == nil || !r.span.Span.IsRecording() {
		return
	}
""","""func (r Request[T]) otelEnd() {
	if !r.span.IsRecording() {
		return
	}
	defer r.span.End()
"""),(RQ,"		\"elapsed_ns\", time.Since(r.queueTime),\n	)\n"))),
("wait-inline","",w(("		if w.span.Span != nil {\n			w.span.End()\n		}\n	}()","		if sp := w.span.Span; sp != nil {\n			sp.End()\n		}\n	}()"))),
("reset-in-wait","",w(("	w.span = span.Span{}\n",""),("			w.span.End()\n		}\n","			w.span.End()\n		}\n		w.span = span.Span{}\n"))),
]
