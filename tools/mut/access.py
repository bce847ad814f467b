S="prim/slices/slice.go"
C="prim/chans/chans.go"
LOOP="""	for i := 0; i < len(s); i++ {
		i := i

		if ctxErr = ctx.Err(); ctxErr != nil {
			break
		}

		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })
			},
		)
	}
"""
def sl(o,n):
    assert o in LOOP,o
    return [(S,LOOP,LOOP.replace(o,n))]
CLOOP="""		if ctxErr = ctx.Err(); ctxErr != nil || !ok {
			break
		}
"""
SEL="""		select {
		case <-ctx.Done():
		case v, ok = <-input:
		}
"""
M=[
("sl-from1","C20",sl("for i := 0;","for i := 1;")),
("sl-tolast","C20",sl("i < len(s);","i < len(s)-1;")),
("sl-step2","C20",sl("i++","i += 2")),
("sl-elem0","C20",sl("s[i], func","s[0], func")),
("sl-idx","C20",sl("access(ctx, i, ","access(ctx, i+1, ")),
("sl-mod0","C20",sl("modifier(s, i, v)","modifier(s, 0, v)")),
("sl-twice","C20",sl("return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })","_ = access(ctx, i, s[i], func(v T) {})\n\t\t\t\treturn access(ctx, i, s[i], func(v T) { modifier(s, i, v) })")),
("sl-noerr","C22",sl("return access(","_ = access(").__class__([(S,"				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n","				_ = access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n				return nil\n")])),
("sl-nocheck","C22",[(S,"		if ctxErr = ctx.Err(); ctxErr != nil {\n			break","		if ctx.Err() != nil {\n			break"),]),
("sl-return-early","C21",sl("			break","			return ctxErr")),
("sl-skip","C20",sl("		wg.Go(","		if i%8 == 7 {\n			continue\n		}\n		wg.Go(")),
("sl-poolclose","C21",[(S,"		defer opts.pool.Close()\n	}","	}\n	defer opts.pool.Close()")]),
("sl-poolnoclose","C21",[(S,"		defer opts.pool.Close()\n","")]),
("sl-poolearly","C21",[(S,"	if err := wg.Wait(ctx)","	opts.pool.Close()\n	if err := wg.Wait(ctx)")]),
("sl-nopool","C23",[(S,"Pool: opts.pool, ","")]),
("sl-noopts","C23",[(S,"PoolOptions: opts.poolOptions, ","")]),
("sl-nocancel","C23",[(S,", CancelOnErr: cancel}","}\n	_ = cancel")]),
("sl-alwayscancel","C23",[(S,"	if opts.stopOnErr {\n		ctx, cancel","	if true || opts.stopOnErr {\n		ctx, cancel")]),
("sl-ctxnot","C23",[(S,"		ctx, cancel = context.WithCancel(ctx)","		_, cancel = context.WithCancel(ctx)")]),
("sl-bgctx","C23",[(S,"return access(ctx, i","return access(context.Background(), i")]),
("sl-err-nil","C22",[(S,"		spanner.Error(err)\n		return err\n	}\n	return ctxErr","		spanner.Error(err)\n		return nil\n	}\n	return ctxErr")]),
("sl-swaperr","C22",[(S,"	return ctxErr\n}","	return nil\n}"),(S,"		if ctxErr = ctx.Err(); ctxErr != nil {","		if ctx.Err() != nil {"),(S,"	var ctxErr error\n","")]),
# benign
("b-sl-range","",[(S,"	for i := 0; i < len(s); i++ {\n		i := i\n","	for i := range s {\n")]),
("b-sl-rangeint","",[(S,"	for i := 0; i < len(s); i++ {\n		i := i\n","	for i := range len(s) {\n")]),
("b-sl-rangeval","",[(S,"	for i := 0; i < len(s); i++ {\n		i := i\n","	n := len(s)\n	for i := 0; i != n; i++ {\n")]),
("b-sl-down","",[(S,"	for i := 0; i < len(s); i++ {\n		i := i\n","	for i := len(s) - 1; i >= 0; i-- {\n		i := i\n")]),
("b-sl-helper","",sl("				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n","				return one(ctx, i, s, access)\n")+[(S,"// Access","func one[T any](ctx context.Context, i int, s []T, access Accessor[T]) error {\n	set := func(v T) {\n		s[i] = v\n	}\n	v := s[i]\n	if err := access(ctx, i, v, set); err != nil {\n		return err\n	}\n	return nil\n}\n\n// Access")]),
("b-sl-named","",[(S,"	if err := wg.Wait(ctx); err != nil {\n		spanner.Error(err)\n		return err\n	}\n	return ctxErr","	err := wg.Wait(ctx)\n	if err == nil {\n		return ctxErr\n	}\n	spanner.Error(err)\n	return err")]),
("b-sl-loophelper","",[(S,LOOP,"	ctxErr := start(ctx, &wg, s, access)\n"),(S,"	var ctxErr error\n",""),(S,"// Access","func start[T any](ctx context.Context, wg *wait.Group, s []T, access Accessor[T]) error {\n	for i := 0; i < len(s); i++ {\n		i := i\n		if err := ctx.Err(); err != nil {\n			return err\n		}\n		wg.Go(ctx, func(ctx context.Context) error {\n			return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n		})\n	}\n	return nil\n}\n\n// Access")]),
("b-sl-grpfields","",[(S,"	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}","	var wg wait.Group\n	wg.Pool = opts.pool\n	wg.PoolOptions = opts.poolOptions\n	wg.CancelOnErr = cancel")]),
("b-sl-join","",[(S,"		spanner.Error(err)\n		return err\n	}\n	return ctxErr","		spanner.Error(err)\n		return fmt.Errorf(\"access: %w\", err)\n	}\n	return ctxErr"),(S,'	"context"\n','	"context"\n	"fmt"\n')]) if False else ("b-sl-noop","",[(S,"	var ctxErr error\n","	var ctxErr error\n	_ = len(s)\n")]),
("b-sl-defercancel","",[(S,"	wg := wait.Group{","	defer cancel()\n	wg := wait.Group{")]),
("b-sl-nilcancel","",[(S,"	var cancel = func() {}\n","	var cancel context.CancelFunc\n")]),
# chans
("ch-noctx","C24",[(C,SEL,"		v, ok = <-input\n")]),
("ch-nook","C24",[(C,"ctxErr != nil || !ok {","ctxErr != nil || !ok && opts.stopOnErr {")]),
("ch-skip","C24",[(C,CLOOP,CLOOP+"		if len(input) > 1000 && opts.stopOnErr {\n			continue\n		}\n")]),
("ch-shared","C24",[(C,"	for {\n		var v T\n		ok := false\n","	var v T\n	for {\n		ok := false\n")]),
("ch-two","C24",[(C,"				return access(\n","				_ = access(ctx, v)\n				return access(\n")]),
("ch-noerr","C22",[(C,"	return ctxErr\n","	return nil\n"),]),
("ch-ctxafter","C24",[(C,"ctxErr != nil || !ok {","ctxErr != nil && !ok {")]),
("ch-poolclose","C21",[(C,"		defer opts.pool.Close()\n","")]),
("ch-retearly","C21",[(C,CLOOP,CLOOP.replace("			break","			return ctxErr"))]),
("ch-take2","C24",[(C,CLOOP,CLOOP+"		if opts.stopOnErr {\n			if v2, ok := <-input; ok {\n				v = v2\n			}\n		}\n")]),
("ch-opts","C23",[(C,"PoolOptions: opts.poolOptions, ","")]),
("ch-optctor","C23",[("prim/chans/options.go","t.stopOnErr = true","t.stopOnErr = t.pool != nil")]),
("ch-pool-ctor","C23",[("prim/chans/options.go","t.poolOptions = options","t.poolOptions = options[:0]")]),
("m-noclose","C25",[(C,"	defer close(output)\n","")]),
("m-closeearly","C25",[(C,"	defer close(output)\n","	if len(options) == 0 {\n		defer close(output)\n	}\n")]),
("m-nosel","C25",[(C,"		select {\n		case <-ctx.Done():\n			return ctx.Err()\n		case output <- StreamResult[R]{Value: r}:\n		}\n","		output <- StreamResult[R]{Value: r}\n")]),
("m-default","C25",[(C,"		case output <- StreamResult[R]{Err: err}:\n","		case output <- StreamResult[R]{Err: err}:\n		default:\n")]),
("m-zero","C25",[(C,"StreamResult[R]{Value: r}","StreamResult[R]{}"),(C,"r, err := mod","_, err := mod")]),
("m-noerr","C25",[(C,"			case output <- StreamResult[R]{Err: err}:\n			}\n			return err","			case output <- StreamResult[R]{Err: err}:\n			}\n			return nil")]),
("m-errnotsent","C25",[(C,"output <- StreamResult[R]{Err: err}","output <- StreamResult[R]{Value: r}")]),
("m-go","C25",[(C,"		case output <- StreamResult[R]{Value: r}:\n		}\n		return nil","		default:\n			go func() { output <- StreamResult[R]{Value: r} }()\n		}\n		return nil")]),
("m-noopts","C23",[(C,"Access(ctx, input, a, options...)","Access(ctx, input, a)")]),
("m-aerr","C25",[(C,"	return Access(ctx, input, a, options...)","	Access(ctx, input, a, options...)\n	return nil")]),
# benign
("b-ch-for","",[(C,CLOOP,"		ctxErr = ctx.Err()\n		if ctxErr != nil {\n			break\n		}\n		if !ok {\n			break\n		}\n")]),
("b-ch-helper","",[(C,"		var v T\n		ok := false\n"+SEL+CLOOP,"		v, ok, err := take(ctx, input)\n		ctxErr = err\n		if err != nil || !ok {\n			break\n		}\n"),(C,"// StreamResult is","func take[T any](ctx context.Context, input <-chan T) (v T, ok bool, err error) {\n	select {\n	case <-ctx.Done():\n	case v, ok = <-input:\n	}\n	return v, ok, ctx.Err()\n}\n\n// StreamResult is")]),
("b-ch-label","",[(C,"	for {\n		var v T\n		ok := false\n"+SEL+CLOOP,"loop:\n	for {\n		var v T\n		var ok bool\n		select {\n		case <-ctx.Done():\n			ctxErr = ctx.Err()\n			break loop\n		case v, ok = <-input:\n			if !ok {\n				break loop\n			}\n		}\n		if ctxErr = ctx.Err(); ctxErr != nil {\n			break\n		}\n")]),
("b-m-struct","",[(C,"output <- StreamResult[R]{Value: r}","output <- StreamResult[R]{Value: r, Err: nil}")]),
("b-m-one","",[(C,"""		if err != nil {
			select {
			case <-ctx.Done():
			case output <- StreamResult[R]{Err: err}:
			}
			return err
		}
		select {
		case <-ctx.Done():
			return ctx.Err()
		case output <- StreamResult[R]{Value: r}:
		}
		return nil
""","""		res := StreamResult[R]{Value: r, Err: err}
		if err != nil {
			var zero R
			res.Value = zero
		}
		select {
		case output <- res:
			return err
		case <-ctx.Done():
			if err != nil {
				return err
			}
			return ctx.Err()
		}
""")]),
("b-m-closefn","",[(C,"	defer close(output)\n","	defer func() {\n		close(output)\n	}()\n")]),
("b-m-closeend","",[(C,"	return Access(ctx, input, a, options...)","	err := Access(ctx, input, a, options...)\n	close(output)\n	return err"),(C,"	defer close(output)\n","")]),
("b-m-method","",[(C,"		r, err := mod(ctx, v)\n","		var (\n			r   R\n			err error\n		)\n		r, err = mod(ctx, v)\n")]),
]
