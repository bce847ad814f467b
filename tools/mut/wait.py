W="prim/wait/wait.go"
BODY="""			defer w.wg.Done()
			defer w.count.Add(-1)

			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
"""
def body(new): return [(W,BODY,new),]
def both(new): return [(W,BODY,"@@1"),(W,BODY,"@@2"),(W,"@@1",new),(W,"@@2",new)]
POOLB=lambda new:[(W,BODY,"@@1"),(W,BODY,new),(W,"@@1",BODY)]
def sub(o,n): 
    assert o in BODY,o
    return BODY.replace(o,n)
APPLY="""	for {
		existing := ptr.Load()
		if existing == nil {
			if ptr.CompareAndSwap(nil, &err) {
				return
			}
		} else {
			switch err {
			case context.Canceled, context.DeadlineExceeded:
				return
			}
			joined := errors.Join(*existing, err)
			if ptr.CompareAndSwap(existing, &joined) {
				return
			}
		}
	}
"""
TAIL="""	// Now do the actual waiting.
	w.wg.Wait()

	if w.CancelOnErr != nil {
		w.CancelOnErr()
		w.CancelOnErr = nil
	}
	err := w.errors.Load()
	if err != nil {
		w.span.Error(*err)
		return *err
	}
	return nil
"""
M=[
("pool-norecord","C17",POOLB(sub("				applyErr(&w.errors, err)\n",""))),
("pool-nocancel","C18",POOLB(sub("				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n",""))),
("store","C17",[(W,APPLY,"	ptr.Store(&err)\n"),(W,'	"errors"\n',"")]),
("store-first","C17",[(W,APPLY,"	if ptr.Load() == nil {\n		ptr.Store(&err)\n		return\n	}\n"+APPLY)]),
("nojoin","C17",[(W,"errors.Join(*existing, err)","errors.Join(err)")]),
("percentv","C17",[(W,"errors.Join(*existing, err)",'fmt.Errorf("%v; %w", *existing, err)'),(W,'	"errors"\n',"")]),
("errorsis","C17",[(W,"			switch err {\n			case context.Canceled, context.DeadlineExceeded:\n				return\n			}\n","			if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {\n				return\n			}\n")]),
("drop-existing-is-ctx","C17",[(W,"			switch err {\n			case context.Canceled, context.DeadlineExceeded:\n				return\n			}\n","			switch *existing {\n			case context.Canceled, context.DeadlineExceeded:\n				return\n			}\n")]),
("drop-text","C17",[(W,"			joined := errors","			if (*existing).Error() == err.Error() {\n				return\n			}\n			joined := errors")]),
("cas-once","C17",[(W,"			if ptr.CompareAndSwap(nil, &err) {\n				return\n			}\n","			ptr.CompareAndSwap(nil, &err)\n			return\n")]),
("cas-once2","C17",[(W,"			if ptr.CompareAndSwap(existing, &joined) {\n				return\n			}\n","			ptr.CompareAndSwap(existing, &joined)\n			return\n")]),
("stale-join","C17",[(W,"		existing := ptr.Load()\n",""),(W,"	for {\n		if existing","	existing := ptr.Load()\n	for {\n		if existing"),(W,"			joined := errors.Join(*existing, err)\n			if ptr.CompareAndSwap(existing, &joined) {\n				return\n			}\n","			joined := errors.Join(*existing, err)\n			if ptr.CompareAndSwap(ptr.Load(), &joined) {\n				return\n			}\n")]),
("read-before","C17",[(W,TAIL,TAIL.replace("	err := w.errors.Load()\n","").replace("	// Now do","	err := w.errors.Load()\n	// Now do"))]),
("cancel-before-record","C18",both(sub("				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n","				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n				applyErr(&w.errors, err)\n"))),
("cancel-always","C18",both(sub("			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n","			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n			}\n			if w.CancelOnErr != nil {\n				w.CancelOnErr()\n			}\n"))),
("cancel-go","C18",both(sub("					w.CancelOnErr()\n","					go w.CancelOnErr()\n"))),
("cancel-first-only","C18",both(sub("				if w.CancelOnErr != nil {","				if w.CancelOnErr != nil && w.errors.Load() == nil {"))),
("cancel-not-ctx","C18",both(sub("				if w.CancelOnErr != nil {","				if w.CancelOnErr != nil && !errors.Is(err, context.Canceled) {"))),
("cancel-before-wait","C18",[(W,TAIL,TAIL.replace("	w.wg.Wait()\n","").replace("	err := w.err","	w.wg.Wait()\n	err := w.err"))]),
("cancel-kept","C18,C19",[(W,"		w.CancelOnErr = nil\n	}","	}"),(W,"	w.errors.Store(nil)\n	w.CancelOnErr = nil\n","	w.errors.Store(nil)\n")]),
("cancel-wait-onerr","C18",[(W,"	if w.CancelOnErr != nil {\n		w.CancelOnErr()\n		w.CancelOnErr = nil\n","	if w.CancelOnErr != nil && w.errors.Load() != nil {\n		w.CancelOnErr()\n		w.CancelOnErr = nil\n")]),
("reset-noerr","C19",[(W,"	w.errors.Store(nil)\n","")]),
("reset-noonce","C19",[(W,"	w.otelOnce = sync.Once{}\n","")]),
("reset-nospan","C19",[(W,"	w.span = span.Span{}\n","")]),
("reset-before","C17,C18,C19",[(W,"	defer w.reset()","	w.reset()")]),
("count-late","C19",both(sub("			defer w.wg.Done()\n			defer w.count.Add(-1)\n","			defer w.count.Add(-1)\n			defer w.wg.Done()\n"))),
("count-refused","C19",[(W,"		w.count.Add(-1)\n		w.wg.Done()\n	}\n}","		w.wg.Done()\n	}\n}")]),
("done-refused","C15",[(W,"		w.count.Add(-1)\n		w.wg.Done()\n	}\n}","		w.count.Add(-1)\n	}\n}")]),
("refused-ignored","C16,C17",[(W,"		applyErr(&w.errors, err)\n		w.count.Add(-1)","		w.count.Add(-1)")]),
("refused-late","C17",[(W,"		applyErr(&w.errors, err)\n		w.count.Add(-1)\n		w.wg.Done()\n","		w.count.Add(-1)\n		w.wg.Done()\n		applyErr(&w.errors, err)\n")]),
("add-in-go","C15",[(W,"		w.wg.Add(1)\n		go func() {\n","		go func() {\n			w.wg.Add(1)\n")]),
("add-after-submit","C15",[(W,"	w.wg.Add(1)\n	err := w.Pool","	err := w.Pool"),(W,"	if err != nil {\n		// The","	w.wg.Add(1)\n	if err != nil {\n		// The")]),
("done-early","C15",both(sub("			defer w.wg.Done()\n","			w.wg.Done()\n"))),
("done-not-on-skip","C15",both(sub("			defer w.wg.Done()\n","").replace("				}\n			}\n","				}\n			}\n			w.wg.Done()\n"))),
("check-outside","C16",[(W,"	w.count.Add(1)\n","	if ctx.Err() != nil {\n		applyErr(&w.errors, ctx.Err())\n		return\n	}\n	w.count.Add(1)\n")]+both(sub("			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n",""))),
("nocheck","C16",both(sub("			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n",""))),
("skip-norecord","C16,C17",both(sub("				applyErr(&w.errors, ctx.Err())\n",""))),
("bgctx","C16",both(sub("f(ctx)","f(context.Background())"))),
("retry","C16",both(sub("			if err := f(ctx); err != nil {","			err := f(ctx)\n			if err != nil && ctx.Err() == nil {\n				err = f(ctx)\n			}\n			if err != nil {"))),
("sync-call","C16",[(W,"	if err != nil {\n		// The","	if err != nil {\n		w.count.Add(1)\n		if e := f(ctx); e != nil {\n			applyErr(&w.errors, e)\n		}\n		// The")]),
("wait-early","C15,C17",[(W,"	// Now do the actual waiting.\n","	if w.total.Load() == 0 {\n		return nil\n	}\n")]),
("wait-ctx","C15",[(W,"	w.wg.Wait()\n","	ch := make(chan struct{})\n	go func() {\n		w.wg.Wait()\n		close(ch)\n	}()\n	select {\n	case <-ch:\n	case <-ctx.Done():\n	}\n")]),
("running-total","C19",[(W,"int(w.count.Load())","int(w.total.Load())")]),
("wait-first","C17",[(W,"		return *err\n	}\n	return nil","		if u, ok := (*err).(interface{ Unwrap() []error }); ok {\n			return u.Unwrap()[0]\n		}\n		return *err\n	}\n	return nil")]),
("touch-after","C19",both(sub("			defer w.wg.Done()\n",'			defer func() {\n				w.wg.Done()\n				if w.span.Span != nil {\n					w.span.Event("done")\n				}\n			}()\n'))),
# ---- benign
("ok-helper","",both("			w.exec(ctx, f)\n")+[(W,"// Running returns","func (w *Group) exec(ctx context.Context, f FuncCall) {\n"+BODY+"}\n\n// Running returns")]),
("ok-oneclosure","",[(W,"	if w.Pool == nil {\n		w.wg.Add(1)\n		go func() {\n"+BODY+"		}()\n		return\n	}\n\n	w.wg.Add(1)\n","	job := func(ctx context.Context) {\n"+BODY+"	}\n	w.wg.Add(1)\n	if w.Pool == nil {\n		go job(ctx)\n		return\n	}\n"),(W,"		func(ctx context.Context) {\n"+BODY+"		},\n","		job,\n")]),
("ok-explicit","",both(sub("			defer w.wg.Done()\n			defer w.count.Add(-1)\n","			defer func() {\n				w.count.Add(-1)\n				w.wg.Done()\n			}()\n"))),
("ok-errvar","",both(sub("			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n","			if err := ctx.Err(); err != nil {\n				applyErr(&w.errors, err)\n"))),
("ok-inverted","",both(sub("			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n","			err := f(ctx)\n			if err == nil {\n				return\n			}\n			applyErr(&w.errors, err)\n			if w.CancelOnErr == nil {\n				return\n			}\n			w.CancelOnErr()\n"))),
("ok-wrapw","",[(W,"errors.Join(*existing, err)",'fmt.Errorf("%w\\n%w", *existing, err)'),(W,'	"errors"\n',"")]),
("ok-apply-loop","",[(W,APPLY,"""	isCtx := err == context.Canceled || err == context.DeadlineExceeded
	for existing := ptr.Load(); ; existing = ptr.Load() {
		if existing != nil && isCtx {
			return
		}
		e := err
		if existing != nil {
			e = errors.Join(*existing, err)
		}
		if ptr.CompareAndSwap(existing, &e) {
			return
		}
	}
""")]),
("ok-apply-helper","",[(W,APPLY,"""	for !tryApply(ptr, err) {
	}
"""),(W,"type noCopy struct{}","""func tryApply(ptr *atomic.Pointer[error], err error) bool {
	existing := ptr.Load()
	if existing == nil {
		return ptr.CompareAndSwap(nil, &err)
	}
	if err == context.Canceled || err == context.DeadlineExceeded {
		return true
	}
	joined := errors.Join(*existing, err)
	return ptr.CompareAndSwap(existing, &joined)
}

type noCopy struct{}""")]),
("ok-drop-is","",[(W,"			joined := errors","			if errors.Is(*existing, err) {\n				return\n			}\n			joined := errors")]),
("ok-select","",both(sub("			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n","			select {\n			case <-ctx.Done():\n				applyErr(&w.errors, ctx.Err())\n				return\n			default:\n			}\n"))),
("ok-wait-helper","",[(W,TAIL,"""	w.wg.Wait()
	w.cancelAll()
	return w.result()
"""),(W,"// waitOTELStart is","""func (w *Group) cancelAll() {
	if c := w.CancelOnErr; c != nil {
		w.CancelOnErr = nil
		c()
	}
}

func (w *Group) result() error {
	if p := w.errors.Load(); p != nil {
		err := *p
		w.span.Error(err)
		return err
	}
	return nil
}

// waitOTELStart is""")]),
("ok-reset-order","",[(W,"	w.errors.Store(nil)\n	w.CancelOnErr = nil\n","	w.CancelOnErr = nil\n	w.errors.Store(nil)\n")]),
("ok-nocountreset","",[(W,"	w.count.Store(0)\n","")]),
("ok-addorder","",[(W,"	w.count.Add(1)\n	w.total.Add(1)\n","	w.total.Add(1)\n	w.count.Add(1)\n")]),
("ok-else","",[(W,"		return\n	}\n\n	w.wg.Add(1)\n	err := w.Pool","		return\n	}\n	opts := w.PoolOptions\n	_ = opts\n	w.wg.Add(1)\n	err := w.Pool")]),
("ok-rename","",[(W,"	count  atomic.Int64","	live  atomic.Int64"),(W,"w.count","w.live"),(W,"w.count","w.live"),(W,"w.count","w.live"),(W,"w.count","w.live"),(W,"w.count","w.live"),(W,"w.count","w.live")]),
("ok-defer-refused","",[(W,"		applyErr(&w.errors, err)\n		w.count.Add(-1)\n		w.wg.Done()\n","		defer w.wg.Done()\n		defer w.count.Add(-1)\n		applyErr(&w.errors, err)\n")]),
]
