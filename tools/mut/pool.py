L="goroutines/limited/goroutines.go"; P="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
M=[
# ---- limited
("lim-release-before","C01",[(L,"		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		}\n		runner(ctx)","		if !opts.NonBlocking {\n			<-p.queue\n		}\n		runner(ctx)")]),
("lim-cap","C01",[(L,"make(chan struct{}, size)","make(chan struct{}, size+1)")]),
("lim-timeout","C01",[(L,"			p.queue <- struct{}{}\n		}\n	}","			select {\n			case p.queue <- struct{}{}:\n			case <-time.After(time.Second):\n			}\n		}\n	}")]),
("lim-default-nosend","C01,C02",[(L,"			p.blockEvent(spanner, fcn, now)\n			p.queue <- struct{}{}","			p.blockEvent(spanner, fcn, now)")]),
("lim-slot-before-opts","C02,C05",[(L,"	opts := pool.SubmitOptions{Type: pool.PTLimited}\n	var err error\n","	opts := pool.SubmitOptions{Type: pool.PTLimited}\n	p.queue <- struct{}{}\n	var err error\n"),(L,"	if !opts.NonBlocking {\n		select {\n		case p.queue <- struct{}{}:\n		default:\n			p.blockEvent(spanner, fcn, now)\n			p.queue <- struct{}{}\n		}\n	}\n","	if opts.NonBlocking {\n		<-p.queue\n	}\n")]),
("lim-ctxcancel-leak","C02",[(L,"		runner(ctx)\n	}()","		if ctx.Err() != nil {\n			p.queue <- struct{}{}\n		}\n		runner(ctx)\n	}()")]),
("lim-skip-job","C04",[(L,"		runner(ctx)\n","		if ctx.Err() == nil {\n			runner(ctx)\n		}\n")]),
("lim-bgctx","C04",[(L,"		runner(ctx)\n","		runner(context.Background())\n")]),
("lim-opterr-last","C05",[(L,"	for _, o := range options {\n		opts, err = o(opts)\n		if err != nil {\n			spanner.Error(err)\n			return err\n		}\n	}\n","	for _, o := range options {\n		opts, err = o(opts)\n	}\n	if err != nil {\n		spanner.Error(err)\n		return err\n	}\n")]),
("lim-add-in-go","C06",[(L,"	p.wg.Add(1)\n	p.running.Add(1)\n\n	go func() {\n","	p.running.Add(1)\n\n	go func() {\n		p.wg.Add(1)\n")]),
("lim-nb-nowait","C06",[(L,"	p.wg.Add(1)\n	p.running.Add(1)\n\n	go func() {\n		defer p.wg.Done()\n","	if !opts.NonBlocking {\n		p.wg.Add(1)\n	}\n	p.running.Add(1)\n\n	go func() {\n		if !opts.NonBlocking {\n			defer p.wg.Done()\n		}\n")]),
("lim-run-before-opts","C07,C05",[(L,"	opts := pool.SubmitOptions{Type: pool.PTLimited}\n","	p.running.Add(1)\n	opts := pool.SubmitOptions{Type: pool.PTLimited}\n"),(L,"	p.running.Add(1)\n\n	go func","	go func")]),
("lim-run-order","C07",[(L,"		defer p.wg.Done()\n		defer p.running.Add(-1)\n","		defer p.running.Add(-1)\n		defer p.wg.Done()\n")]),
("lim-nb-waits","C08",[(L,"	if !opts.NonBlocking {\n		select","	if !opts.NonBlocking || len(p.queue) == 0 {\n		select")]),
("lim-len","C09",[(L,"	return cap(p.queue)","	return len(p.queue)")]),
("lim-close-nowait","C10,C06",[(L,"func (p *Pool) Close() {\n	p.wg.Wait()\n","func (p *Pool) Close() {\n")]),
("lim-close-nounreg","C10",[(L,"	register.Unregister(p)\n","")]),
("reg-sp","C11",[(R,"sp := strings.Split(name, \"-\")\n	n, err := strconv.Atoi(sp[1])","sp := strings.Split(name, \"-\")\n	n, err := strconv.Atoi(sp[1][:1])")]),
("reg-nocheck","C11",[(R,"	if _, ok := registry[name]; ok {\n		return fmt.Errorf(\"name already taken\")\n	}\n","")]),
("reg-rlock","C11",[(R,"	mu.Lock()\n	defer mu.Unlock()\n\n	name := pool.GetName()\n	if name == \"\" {\n		return nil\n	}\n\n	if _, ok := registry[name]; ok {\n		return fmt.Errorf(\"name already taken\")\n	}\n","	name := pool.GetName()\n	if name == \"\" {\n		return nil\n	}\n	mu.RLock()\n	_, ok := registry[name]\n	mu.RUnlock()\n	if ok {\n		return fmt.Errorf(\"name already taken\")\n	}\n	mu.Lock()\n	defer mu.Unlock()\n")]),
("reg-pools-cap","C12",[(R,"make(chan goroutines.Pool, len(registry))","make(chan goroutines.Pool, 1)")]),
("reg-pools-nolock","C12",[(R,"	mu.RLock()\n	defer mu.RUnlock()\n\n	ch","	ch")]),
("reg-unreg-nolock","C12",[(R,"	mu.Lock()\n	delete","	mu.RLock()\n	delete"),(R,"pool.GetName())\n	mu.Unlock()","pool.GetName())\n	mu.RUnlock()")]),
("reg-regex","C13",[(R,"`[0-9-\\s]`","`[0-9\\s]`")]),
("reg-regex2","C13",[(R,"`[0-9-\\s]`","`[0-8-\\s]`")]),
("lim-size0","C13",[(L,"if size < 1 {","if size < 0 {")]),
("lim-noname","C13",[(L,"	if err := register.ValidateBaseName(name); err != nil {\n		return nil, err\n	}\n","")]),
("err-nolock","C14",[(G,"func (e *Errors) Error() error {\n	e.mu.Lock()\n	defer e.mu.Unlock()\n","func (e *Errors) Error() error {\n")]),
("err-last","C14",[(G,"e.errors[0]","e.errors[len(e.errors)-1]")]),
("err-alias","C14",[(G,"append([]error(nil), e.errors...)","append(e.errors[:0], e.errors...)")]),
("err-nilrec","C14",[(G,"	e.errors = append(e.errors, err)","	if len(e.errors) > 100 {\n		return\n	}\n	e.errors = append(e.errors, err)")]),
# ---- pooled
("po-buffered","C08",[(P,"make(chan submit)","make(chan submit, size)")]),
("po-workers","C03",[(P,"for i := 0; i < size; i++ {","for i := 0; i <= size; i++ {")]),
("po-workers2","C03",[(P,"for i := 0; i < size; i++ {","for i := 1; i < size; i++ {")]),
("po-workerquit","C03",[(P,"		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n","		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n		if s.ctx.Err() != nil {\n			return\n		}\n")]),
("po-gojob","C03",[(P,"		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n","		go func() {\n			s.job(s.ctx)\n			p.running.Add(-1)\n			p.wg.Done()\n		}()\n")]),
("po-block-go","C03",[(P,"		p.blockEvent(spanner, fcn, now)\n		p.queue <- s\n","		p.blockEvent(spanner, fcn, now)\n		go func() { p.queue <- s }()\n")]),
("po-lost","C04",[(P,"		default:\n			go func() {","		default:\n			if ctx.Err() != nil {\n				p.running.Add(-1)\n				p.wg.Done()\n				return nil\n			}\n			go func() {")]),
("po-dup","C04",[(P,"	select {\n	case p.queue <- s:\n	default:\n		p.blockEvent(spanner, fcn, now)\n		p.queue <- s\n	}","	select {\n	case p.queue <- s:\n	default:\n		p.blockEvent(spanner, fcn, now)\n	}\n	if len(p.queue) > 0 {\n		p.queue <- s\n	}")]),
("po-nil-job","C05",[(P,"	if runner == nil {\n		err := fmt.Errorf(\"cannot submit a runner that is nil\")\n		spanner.Error(err)\n		return err\n	}\n","")]),
("po-opt-type","C05",[(P,"		if opt.Type != pool.PTPooled {\n			return opt, fmt.Errorf(\"cannot use pooled.NotBlocking() with a non pooled.Pool\")\n		}\n		opt.Caller","		opt.Caller")]),
("po-done-first","C06,C07",[(P,"		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n","		p.wg.Done()\n		s.job(s.ctx)\n		p.running.Add(-1)\n")]),
("po-running-late","C07",[(P,"		p.running.Add(-1)\n		p.wg.Done()\n","		p.wg.Done()\n		p.running.Add(-1)\n")]),
("po-running-nb","C07",[(P,"				defer p.running.Add(-1)\n","")]),
("po-nb-blocks","C08",[(P,"		default:\n			go func() {","		case <-time.After(time.Millisecond):\n			go func() {")]),
("po-len","C09",[(P,"return p.size","return cap(p.queue)")]),
("po-close-order","C10",[(P,"	p.wg.Wait()\n	close(p.queue)","	close(p.queue)\n	p.wg.Wait()")]),
("po-setname","C10",[(P,"func (p *Pool) Wait() {\n","func (p *Pool) Wait() {\n	p.name = \"\"\n")]),
# ---- benign
("b-helper-take","",[(L,"	if !opts.NonBlocking {\n		select {\n		case p.queue <- struct{}{}:\n		default:\n			p.blockEvent(spanner, fcn, now)\n			p.queue <- struct{}{}\n		}\n	}\n","	p.take(opts.NonBlocking, spanner, fcn, now)\n"),(L,"func (p *Pool) submitEvent","func (p *Pool) take(nb bool, spanner span.Span, fcn string, now time.Time) {\n	if nb {\n		return\n	}\n	select {\n	case p.queue <- struct{}{}:\n	default:\n		p.blockEvent(spanner, fcn, now)\n		p.queue <- struct{}{}\n	}\n}\n\nfunc (p *Pool) submitEvent")]),
("b-lim-run","",[(L,"	go func() {\n		defer p.wg.Done()\n		defer p.running.Add(-1)\n		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		}\n		runner(ctx)\n	}()\n\n	return nil\n}","	go p.run(ctx, runner, opts.NonBlocking)\n\n	return nil\n}\n\nfunc (p *Pool) run(ctx context.Context, runner goroutines.Job, nb bool) {\n	runner(ctx)\n	if !nb {\n		<-p.queue\n	}\n	p.running.Add(-1)\n	p.wg.Done()\n}")]),
("b-lim-two-gos","",[(L,"	go func() {\n		defer p.wg.Done()\n		defer p.running.Add(-1)\n		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		}\n		runner(ctx)\n	}()\n","	done := func() { p.running.Add(-1); p.wg.Done() }\n	if opts.NonBlocking {\n		go func() {\n			defer done()\n			runner(ctx)\n		}()\n		return nil\n	}\n	go func() {\n		defer done()\n		defer func() { <-p.queue }()\n		runner(ctx)\n	}()\n")]),
("b-lim-opts-idx","",[(L,"	for _, o := range options {\n		opts, err = o(opts)\n		if err != nil {","	for i := 0; i < len(options); i++ {\n		if opts, err = options[i](opts); err != nil {")]),
("b-lim-opts-helper","",[(L,"	opts := pool.SubmitOptions{Type: pool.PTLimited}\n	var err error\n	for _, o := range options {\n		opts, err = o(opts)\n		if err != nil {\n			spanner.Error(err)\n			return err\n		}\n	}\n","	opts, err := apply(options)\n	if err != nil {\n		spanner.Error(err)\n		return err\n	}\n"),(L,"func (p *Pool) submitEvent","func apply(options []goroutines.SubmitOption) (pool.SubmitOptions, error) {\n	opts := pool.SubmitOptions{Type: pool.PTLimited}\n	var err error\n	for _, o := range options {\n		if opts, err = o(opts); err != nil {\n			return pool.SubmitOptions{}, err\n		}\n	}\n	return opts, nil\n}\n\nfunc (p *Pool) submitEvent")]),
("b-lim-newloop","",[(L,"	for {\n		if err := register.Register(p); err != nil {\n			p.name = register.NewName(p.name)\n			continue\n		}\n		break\n	}\n","	for register.Register(p) != nil {\n		p.name = register.NewName(p.name)\n	}\n")]),
("b-po-newloop","",[(P,"	for {\n		if err := register.Register(p); err != nil {\n			p.name = register.NewName(p.name)\n			continue\n		}\n		break\n	}\n","	p.reg()\n"),(P,"func (p *Pool) submitEvent","func (p *Pool) reg() {\n	err := register.Register(p)\n	for err != nil {\n		p.setName(register.NewName(p.GetName()))\n		err = register.Register(p)\n	}\n}\n\nfunc (p *Pool) submitEvent")]),
("b-po-order","",[(P,"	for i := 0; i < size; i++ {\n		go p.runner()\n	}\n\n","	for i := size; i > 0; i-- {\n		go func() { p.runner() }()\n	}\n\n")]),
("b-po-range","",[(P,"	for i := 0; i < size; i++ {\n","	for range size {\n")]),
("b-po-start-late","",[(P,"	for i := 0; i < size; i++ {\n		go p.runner()\n	}\n\n",""),(P,"		break\n	}\n	return p, nil","		break\n	}\n	p.start()\n	return p, nil"),(P,"func (p *Pool) submitEvent","func (p *Pool) start() {\n	for i := 0; i < p.size; i++ {\n		go p.runner()\n	}\n}\n\nfunc (p *Pool) submitEvent")]),
("b-po-runner","",[(P,"	for s := range p.queue {\n		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n	}","	for {\n		s, ok := <-p.queue\n		if !ok {\n			return\n		}\n		p.exec(s)\n	}"),(P,"func (p *Pool) submitEvent","func (p *Pool) exec(s submit) {\n	defer p.wg.Done()\n	defer p.running.Add(-1)\n	s.job(s.ctx)\n}\n\nfunc (p *Pool) submitEvent")]),
("b-po-nb","",[(P,"			go func() {\n				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)\n			}()","			go p.exec(s)"),(P,"func (p *Pool) submitEvent","func (p *Pool) exec(s submit) {\n	s.job(s.ctx)\n	p.running.Add(-1)\n	p.wg.Done()\n}\n\nfunc (p *Pool) submitEvent")]),
("b-po-nbmerge","",[(P,"		p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n		return nil\n	}\n\n	select {\n	case p.queue <- s:\n	default:\n		p.blockEvent(spanner, fcn, now)\n		p.queue <- s\n	}\n","	} else {\n		select {\n		case p.queue <- s:\n		default:\n			p.blockEvent(spanner, fcn, now)\n			p.queue <- s\n		}\n	}\n")]),
("b-po-simplesend","",[(P,"	select {\n	case p.queue <- s:\n	default:\n		p.blockEvent(spanner, fcn, now)\n		p.queue <- s\n	}\n","	p.queue <- s\n")]),
("b-len-atomic","",[(P,"func (p *Pool) Len() int {\n	return p.size","func (p *Pool) Len() int {\n	n := p.size\n	if n < 0 {\n		return 0\n	}\n	return n")]),
("b-reg-helper","",[(R,"	if _, ok := registry[name]; ok {\n		return fmt.Errorf(\"name already taken\")\n	}\n","	if taken(name) {\n		return fmt.Errorf(\"name already taken\")\n	}\n"),(R,"var numOrHyphen","func taken(name string) bool {\n	_, ok := registry[name]\n	return ok\n}\n\nvar numOrHyphen")]),
("b-reg-newname","",[(R,"	sp := strings.Split(name, \"-\")\n	n, err := strconv.Atoi(sp[1])\n	if err != nil {\n		panic(fmt.Sprintf(\"register is broken, name %s is invalid\", name))\n	}\n\n	n++\n	return fmt.Sprintf(\"%s-%d\", sp[0], n)","	base, num, _ := strings.Cut(name, \"-\")\n	n, err := strconv.Atoi(num)\n	if err != nil {\n		panic(fmt.Sprintf(\"register is broken, name %s is invalid\", name))\n	}\n\n	return base + \"-\" + strconv.Itoa(n+1)")]),
("b-pools-snapshot","",[(R,"	mu.RLock()\n	defer mu.RUnlock()\n\n	ch := make(chan goroutines.Pool, len(registry))\n	for _, p := range registry {\n		ch <- p\n	}\n	close(ch)\n	return ch","	mu.RLock()\n	ps := make([]goroutines.Pool, 0, len(registry))\n	for _, p := range registry {\n		ps = append(ps, p)\n	}\n	mu.RUnlock()\n\n	ch := make(chan goroutines.Pool, len(ps))\n	for _, p := range ps {\n		ch <- p\n	}\n	close(ch)\n	return ch")]),
("b-pools-go","",[(R,"	mu.RLock()\n	defer mu.RUnlock()\n\n	ch := make(chan goroutines.Pool, len(registry))\n	for _, p := range registry {\n		ch <- p\n	}\n	close(ch)\n	return ch","	mu.RLock()\n	ps := make([]goroutines.Pool, 0, len(registry))\n	for _, p := range registry {\n		ps = append(ps, p)\n	}\n	mu.RUnlock()\n\n	ch := make(chan goroutines.Pool, 1)\n	go func() {\n		defer close(ch)\n		for _, p := range ps {\n			ch <- p\n		}\n	}()\n	return ch")]),
("b-unreg-defer","",[(R,"	mu.Lock()\n	delete(registry, pool.GetName())\n	mu.Unlock()","	name := pool.GetName()\n	mu.Lock()\n	defer mu.Unlock()\n	delete(registry, name)")]),
("b-err-copy","",[(G,"	return append([]error(nil), e.errors...)","	out := make([]error, len(e.errors))\n	copy(out, e.errors)\n	return out")]),
("b-err-unlock","",[(G,"	e.mu.Lock()\n	defer e.mu.Unlock()\n\n	e.errors = append(e.errors, err)","	e.mu.Lock()\n	es := e.errors\n	es = append(es, err)\n	e.errors = es\n	e.mu.Unlock()")]),
("b-err-first","",[(G,"	if len(e.errors) == 0 {\n		return nil\n	}\n	return e.errors[0]","	for _, err := range e.errors {\n		return err\n	}\n	return nil")]),
("b-noop","",[(L,"	p.wg.Add(1)\n","	_ = len(options)\n	p.wg.Add(1)\n"),(P,"	p.wg.Add(1)\n","	_ = len(options)\n	p.wg.Add(1)\n")]),
("b-rename","",[(P,"	wg        sync.WaitGroup\n	running   atomic.Int64\n	metrics   pool.Metrics\n","	metrics   pool.Metrics\n	running   atomic.Int64\n	wg        sync.WaitGroup\n")]),
("b-regex","",[(R,"`[0-9-\\s]`","`[\\s\\d-]`")]),
("b-size","",[(L,"if size < 1 {","if size <= 0 {"),(P,"if size < 1 {","if !(size >= 1) {")]),
("b-close","",[(P,"	p.wg.Wait()\n	close(p.queue)\n	register","	p.Wait()\n	defer close(p.queue)\n	register")]),
]
