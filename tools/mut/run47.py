W="prim/wait/wait.go"
M=[
("n-early","C47",[(W,"			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()","			w.count.Add(-1)\n			err := f(ctx)\n			w.count.Add(1)\n			if err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()")]),
("n-err-path","C47",[(W,"			defer w.wg.Done()\n			defer w.count.Add(-1)\n\n			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()","			defer w.wg.Done()\n\n			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n			defer w.count.Add(-1)\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()")]),
("n-refused","C47",[(W,"		applyErr(&w.errors, err)\n		w.count.Add(-1)\n","		applyErr(&w.errors, err)\n")]),
("n-late","C47",[(W,"	w.count.Add(1)\n	w.total.Add(1)\n","	w.total.Add(1)\n	if w.Pool != nil {\n		w.count.Add(1)\n	}\n"),(W,"			defer w.wg.Done()\n			defer w.count.Add(-1)\n\n			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()","			defer w.wg.Done()\n			w.count.Add(1)\n			defer w.count.Add(-1)\n\n			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		}()")]),
("n-wait-reset","C47",[(W,"	// Now do the actual waiting.\n","	w.count.Store(0)\n	// Now do the actual waiting.\n")]),
("n-pool-twice","C47",[(W,"	w.wg.Add(1)\n	err := w.Pool.Submit(","	w.wg.Add(1)\n	if len(w.PoolOptions) > 0 {\n		w.count.Add(1) // The option may make it wait.\n	}\n	err := w.Pool.Submit(")]),
("n-total","C47",[(W,"int(w.count.Load())","int(w.total.Load())")]),
("n-cancel","C47",[(W,"			if ctx.Err() != nil {\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		},","			if ctx.Err() != nil {\n				w.count.Add(-1)\n				applyErr(&w.errors, ctx.Err())\n				return\n			}\n\n			if err := f(ctx); err != nil {\n				applyErr(&w.errors, err)\n				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n			}\n		},")]),
("n-chk","C47",[(W,"	w.count.Add(1)\n	w.total.Add(1)\n","	if w.count.Load() <= w.total.Load() {\n		w.count.Add(1)\n	}\n	w.total.Add(1)\n")]),
]
