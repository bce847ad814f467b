W="prim/wait/wait.go"
M=[
("o-busy","C48",[(W,"	if w.Pool == nil {\n		w.wg.Add(1)","	if w.Pool == nil || w.Pool.Running() > 1<<10 {\n		w.wg.Add(1)")]),
("o-opts1","C48",[(W,"		w.PoolOptions...,\n","		w.PoolOptions[:min(1, len(w.PoolOptions))]...,\n")]),
("o-noopts","C48",[(W,"		w.PoolOptions...,\n","")]),
("o-retry","C48",[(W,"		// The Pool refused the function, it will never run.\n		applyErr(&w.errors, err)\n		w.count.Add(-1)\n		w.wg.Done()\n","		// The Pool refused the function.\n		go func() {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n			}\n		}()\n")]),
("o-drop-pool","C48",[(W,"		applyErr(&w.errors, err)\n		w.count.Add(-1)\n		w.wg","		applyErr(&w.errors, err)\n		w.Pool = nil\n		w.count.Add(-1)\n		w.wg")]),
("o-nest","C48",[(W,"		func(ctx context.Context) {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n","		func(ctx context.Context) {\n			go func() {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n"),(W,"			}\n		},\n		w.PoolOptions","			}\n			}()\n		},\n		w.PoolOptions")]),
("o-inline","C48",[(W,"		w.wg.Add(1)\n		go func() {\n","		w.wg.Add(1)\n		run := func() {\n"),(W,"		}()\n		return\n	}\n","		}\n		if w.count.Load() > 1<<20 {\n			run()\n		} else {\n			go run()\n		}\n		return\n	}\n")]),
("k-clone","",[(W,"		w.PoolOptions...,\n","		append([]goroutines.SubmitOption(nil), w.PoolOptions...)...,\n")]),
("k-local","",[(W,"	w.wg.Add(1)\n	err := w.Pool.Submit(","	w.wg.Add(1)\n	pool := w.Pool\n	err := pool.Submit(")]),
]
