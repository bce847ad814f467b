# Refactorings in the manner of a maintainer: helpers extracted, statements moved, loops rewritten.
L="goroutines/limited/goroutines.go"; P="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
NEWL='''func New(name string, size int) (*Pool, error) {
	if err := validate(name, size); err != nil {
		return nil, err
	}
	p := &Pool{}
	p.name = name
	p.queue = make(chan struct{}, size)
	p.register()
	return p, nil
}

func validate(name string, size int) error {
	if size <= 0 {
		return fmt.Errorf("cannot have a Pool with size < 1")
	}
	return register.ValidateBaseName(name)
}

// register registers the pool under the first name that is free.
func (p *Pool) register() {
	for register.Register(p) != nil {
		p.setName(register.NewName(p.GetName()))
	}
}
'''
M=[
("lim-new","",[(L,"@func New(",NEWL)]),
("lim-new2","",[(L,"@func New(",'''func New(name string, size int) (p *Pool, err error) {
	switch {
	case size < 1:
		err = fmt.Errorf("cannot have a Pool with size < 1")
	default:
		err = register.ValidateBaseName(name)
	}
	if err != nil {
		return nil, err
	}
	p = &Pool{queue: make(chan struct{}, size), name: name}
	for taken := true; taken; {
		taken = false
		if register.Register(p) != nil {
			taken = true
			p.name = register.NewName(p.name)
		}
	}
	return p, nil
}
''')]),
("lim-submit-split","",[(L,"@func (p *Pool) Submit(",'''func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...goroutines.SubmitOption) error {
	spanner := span.Get(ctx)
	if runner == nil {
		return fail(spanner, fmt.Errorf("cannot submit a runner that is nil"))
	}

	opts, err := applyOptions(options)
	if err != nil {
		return fail(spanner, err)
	}

	now := time.Now()
	fcn := p.callerName(opts)
	p.acquire(spanner, fcn, opts, now)
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
	p.start(ctx, runner, opts)
	return nil
}

func fail(s span.Span, err error) error {
	s.Error(err)
	return err
}

func applyOptions(options []goroutines.SubmitOption) (pool.SubmitOptions, error) {
	opts := pool.SubmitOptions{Type: pool.PTLimited}
	for i := 0; i < len(options); i++ {
		var err error
		if opts, err = options[i](opts); err != nil {
			return pool.SubmitOptions{}, err
		}
	}
	return opts, nil
}

func (p *Pool) acquire(spanner span.Span, fcn string, opts pool.SubmitOptions, now time.Time) {
	if opts.NonBlocking {
		return
	}
	select {
	case p.queue <- struct{}{}:
		return
	default:
	}
	p.blockEvent(spanner, fcn, now)
	p.queue <- struct{}{}
}

func (p *Pool) start(ctx context.Context, runner goroutines.Job, opts pool.SubmitOptions) {
	p.wg.Add(1)
	p.running.Add(1)
	go p.execute(ctx, runner, !opts.NonBlocking)
}

func (p *Pool) execute(ctx context.Context, runner goroutines.Job, slot bool) {
	defer p.finish(slot)
	runner(ctx)
}

func (p *Pool) finish(slot bool) {
	if slot {
		<-p.queue
	}
	p.running.Add(-1)
	p.wg.Done()
}
''')]),
("lim-submit-twoclosures","",[(L,"	go func() {\n		defer p.wg.Done()\n		defer p.running.Add(-1)\n		if !opts.NonBlocking {\n			defer func() { <-p.queue }()\n		}\n		runner(ctx)\n	}()","	release := func() {}\n	if !opts.NonBlocking {\n		release = func() { <-p.queue }\n	}\n	go func() {\n		defer func() {\n			release()\n			p.running.Add(-1)\n			p.wg.Done()\n		}()\n		runner(ctx)\n	}()")]),
("lim-order","",[(L,"	p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n\n	p.wg.Add(1)\n	p.running.Add(1)\n","	p.running.Add(1)\n	p.wg.Add(1)\n	p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n")]),
("lim-event-after","",[(L,"	p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n\n	p.wg.Add(1)\n	p.running.Add(1)\n","	p.running.Add(1)\n	p.wg.Add(1)\n"),(L,"		runner(ctx)\n	}()\n\n	return nil","		runner(ctx)\n	}()\n	p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n	return nil")]),
("lim-count-first","",[(L,"	now := time.Now()\n	fcn := p.callerName(opts)\n","	p.wg.Add(1)\n	now := time.Now()\n	fcn := p.callerName(opts)\n"),(L,"	p.wg.Add(1)\n	p.running.Add(1)\n\n	go","	p.running.Add(1)\n\n	go")]),
("lim-blocking-var","",[(L,"	if !opts.NonBlocking {\n		select","	blocking := !opts.NonBlocking\n	if blocking {\n		select"),(L,"		if !opts.NonBlocking {\n			defer func","		if blocking {\n			defer func")]),
("lim-done-closure","",[(L,"		defer p.wg.Done()\n		defer p.running.Add(-1)\n		if","		defer func() {\n			p.running.Add(-1)\n			p.wg.Done()\n		}()\n		if")]),
("lim-close-wait","",[(L,"func (p *Pool) Close() {\n	p.wg.Wait()\n	close(p.queue)\n	register.Unregister(p)","func (p *Pool) Close() {\n	defer register.Unregister(p)\n	defer close(p.queue)\n	p.Wait()")]),
("lim-len-field","",[(L,"	return cap(p.queue)","	n := cap(p.queue)\n	return n")]),
("lim-running-var","",[(L,"	return int(p.running.Load())","	n := p.running.Load()\n	return int(n)")]),
("lim-pointer-wg","",[(L,"	wg        sync.WaitGroup\n","	wg        *sync.WaitGroup\n"),(L,"p := &Pool{name: name, ","p := &Pool{wg: &sync.WaitGroup{}, name: name, ")]),
("lim-opt-type","",[(L,"		if opt.Type != pool.PTLimited {\n			return opt, fmt.Errorf(\"cannot use limited.NotBlocking() with a non limited.Pool\")\n		}\n		opt.NonBlocking = true\n		return opt, nil","		if opt.Type == pool.PTLimited {\n			opt.NonBlocking = true\n			return opt, nil\n		}\n		return opt, fmt.Errorf(\"cannot use limited.NotBlocking() with a non limited.Pool\")")]),
("lim-opt-shared","",[(L,"@func NonBlocking(",'''func NonBlocking() goroutines.SubmitOption {
	return option(func(o *pool.SubmitOptions) { o.NonBlocking = true })
}

func option(set func(o *pool.SubmitOptions)) goroutines.SubmitOption {
	return func(opt pool.SubmitOptions) (pool.SubmitOptions, error) {
		if opt.Type != pool.PTLimited {
			return opt, fmt.Errorf("cannot use limited.NotBlocking() with a non limited.Pool")
		}
		set(&opt)
		return opt, nil
	}
}
'''),(L,"@func Caller(","func Caller(name string) goroutines.SubmitOption {\n	return option(func(o *pool.SubmitOptions) { o.Caller = name })\n}\n")]),
# pooled
("po-new","",[(P,"@func New(",NEWL.replace("p.queue = make(chan struct{}, size)","p.queue = make(chan submit)\n	p.size = size\n	p.startWorkers()")+'''
func (p *Pool) startWorkers() {
	for n := p.size; n > 0; n-- {
		go p.runner()
	}
}
''')]),
("po-new-rangeint","",[(P,"	for i := 0; i < size; i++ {\n		go p.runner()\n	}\n","	for range size {\n		go p.runner()\n	}\n")]),
("po-new-runnerarg","",[(P,"	for i := 0; i < size; i++ {\n		go p.runner()\n	}\n","	for i := 0; i < size; i++ {\n		go p.runner(ch)\n	}\n"),(P,"func (p *Pool) runner() {\n	for s := range p.queue {","func (p *Pool) runner(in <-chan submit) {\n	for s := range in {")]),
("po-runner-closure","",[(P,"@func (p *Pool) runner(",'''func (p *Pool) runner() {
	for s := range p.queue {
		p.execute(s)
	}
}

func (p *Pool) execute(s submit) {
	defer p.done()
	s.job(s.ctx)
}

func (p *Pool) done() {
	p.running.Add(-1)
	p.wg.Done()
}
'''),(P,"				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)","				p.execute(s)")]),
("po-runner-go","",[(P,"@func (p *Pool) runner(",'''func (p *Pool) runner() {
	for {
		s, ok := <-p.queue
		if !ok {
			return
		}
		p.execute(s)
	}
}

func (p *Pool) execute(s submit) {
	s.job(s.ctx)
	p.running.Add(-1)
	p.wg.Done()
}
'''),(P,"			go func() {\n				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)\n			}()","			go p.execute(s)")]),
("po-submit-split","",[(P,"@func (p *Pool) Submit(",'''func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...goroutines.SubmitOption) error {
	spanner := span.Get(ctx)

	opts, err := p.prepare(runner, options)
	if err != nil {
		spanner.Error(err)
		return err
	}
	now := time.Now()
	fcn := p.callerName(opts)

	p.wg.Add(1)
	p.running.Add(1)
	p.handOver(submit{ctx, runner}, opts.NonBlocking, func() { p.blockEvent(spanner, fcn, now) })
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
	return nil
}

func (p *Pool) prepare(runner goroutines.Job, options []goroutines.SubmitOption) (opts pool.SubmitOptions, err error) {
	opts.Type = pool.PTPooled
	if runner == nil {
		return opts, fmt.Errorf("cannot submit a runner that is nil")
	}
	for _, o := range options {
		if opts, err = o(opts); err != nil {
			return opts, err
		}
	}
	return opts, nil
}

func (p *Pool) handOver(s submit, nonBlocking bool, blocked func()) {
	select {
	case p.queue <- s:
		return
	default:
	}
	if nonBlocking {
		go p.naked(s)
		return
	}
	blocked()
	p.queue <- s
}

func (p *Pool) naked(s submit) {
	defer p.wg.Done()
	defer p.running.Add(-1)
	s.job(s.ctx)
}
''')]),
("po-submit-ptr","",[(P,"	queue     chan submit\n","	queue     chan *submit\n"),(P,"ch := make(chan submit)","ch := make(chan *submit)"),(P,"	s := submit{ctx: ctx, job: runner}","	s := &submit{ctx: ctx, job: runner}")]),
("po-submit-func","",[(P,"	queue     chan submit\n","	queue     chan func()\n"),(P,"ch := make(chan submit)","ch := make(chan func())"),(P,"	s := submit{ctx: ctx, job: runner}","	s := func() {\n		defer p.wg.Done()\n		defer p.running.Add(-1)\n		runner(ctx)\n	}"),(P,"			go func() {\n				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)\n			}()","			go s()"),(P,"		s.job(s.ctx)\n		p.running.Add(-1)\n		p.wg.Done()\n","		s()\n"),(P,"type submit struct {\n	ctx context.Context\n	job goroutines.Job\n}\n","")]),
("po-switch","",[(P,"	if opts.NonBlocking {\n		select {\n		case p.queue <- s:\n		default:\n			go func() {\n				defer p.wg.Done()\n				defer p.running.Add(-1)\n				s.job(ctx)\n			}()\n		}\n		p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n		return nil\n	}\n\n	select {\n	case p.queue <- s:\n	default:\n		p.blockEvent(spanner, fcn, now)\n		p.queue <- s\n	}\n	p.submitEvent","	select {\n	case p.queue <- s:\n	default:\n		switch opts.NonBlocking {\n		case true:\n			go func(s submit) {\n				defer func() {\n					p.running.Add(-1)\n					p.wg.Done()\n				}()\n				s.job(s.ctx)\n			}(s)\n		default:\n			p.blockEvent(spanner, fcn, now)\n			p.queue <- s\n		}\n	}\n	p.submitEvent")]),
("po-options-copy","",[(P,"	for _, o := range options {\n		opts, err = o(opts)\n		if err != nil {\n			spanner.Error(err)\n			return err\n		}\n	}\n","	for _, o := range options {\n		next, oerr := o(opts)\n		if oerr != nil {\n			err = oerr\n			break\n		}\n		opts = next\n	}\n	if err != nil {\n		spanner.Error(err)\n		return err\n	}\n")]),
# register
("reg-method","",[(R,"@func Register(",'''func Register(pool goroutines.Pool) error {
	name := pool.GetName()
	if name == "" {
		return nil
	}
	return add(name, pool)
}

func add(name string, pool goroutines.Pool) error {
	mu.Lock()
	defer mu.Unlock()
	if taken(name) {
		return fmt.Errorf("name already taken")
	}
	registry[name] = pool
	return nil
}

func taken(name string) bool {
	_, ok := registry[name]
	return ok
}
''')]),
("reg-else","",[(R,"@func Register(",'''func Register(pool goroutines.Pool) error {
	name := pool.GetName()
	if name != "" {
		mu.Lock()
		defer mu.Unlock()
		if registry[name] != nil {
			return fmt.Errorf("name already taken")
		}
		registry[name] = pool
	}
	return nil
}
''')]),
("reg-struct","",[(R,"var registry = map[string]goroutines.Pool{}\nvar mu = sync.RWMutex{}","var (\n	mu       sync.RWMutex\n	registry = make(map[string]goroutines.Pool)\n)")]),
("reg-mutex","",[(R,"var mu = sync.RWMutex{}","var mu sync.Mutex"),(R,"mu.RLock()","mu.Lock()"),(R,"mu.RUnlock()","mu.Unlock()")]),
("reg-newname-cut","",[(R,"@func NewName(",'''func NewName(name string) string {
	base, num, ok := strings.Cut(name, "-")
	if !ok {
		return name + "-1"
	}
	n, err := strconv.Atoi(num)
	if err != nil {
		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
	}
	return base + "-" + strconv.Itoa(n+1)
}
''')]),
("reg-newname-idx","",[(R,"	sp := strings.Split(name, \"-\")\n	n, err := strconv.Atoi(sp[1])","	i := strings.LastIndex(name, \"-\")\n	sp := []string{name[:i], name[i+1:]}\n	n, err := strconv.Atoi(sp[1])")]),
("reg-validate","",[(R,"@func ValidateBaseName(",'''func ValidateBaseName(name string) error {
	for _, r := range name {
		if r == '-' || r >= '0' && r <= '9' || r == ' ' || r == '\\t' || r == '\\n' || r == '\\f' || r == '\\r' {
			return fmt.Errorf("name cannot contain numbers or hyphens")
		}
	}
	return nil
}
''')]),
("reg-validate-runebad1","C13",[(R,"@func ValidateBaseName(",'''func ValidateBaseName(name string) error {
	for _, r := range name {
		if r == '-' || r >= '0' && r < '9' || r == ' ' || r == '\\t' || r == '\\n' || r == '\\f' || r == '\\r' {
			return fmt.Errorf("name cannot contain numbers or hyphens")
		}
	}
	return nil
}
''')]),
("reg-validate-runebad2","C13",[(R,"@func ValidateBaseName(",'''func ValidateBaseName(name string) error {
	for _, r := range name {
		if r == '-' || r >= '0' && r <= '9' || r == '\\t' || r == '\\n' || r == '\\f' || r == '\\r' {
			return fmt.Errorf("name cannot contain numbers or hyphens")
		}
	}
	return nil
}
''')]),
("reg-validate-runebad3","C13",[(R,"@func ValidateBaseName(",'''func ValidateBaseName(name string) error {
	for _, r := range name {
		if r == '-' || r == '_' || r >= '0' && r <= '9' || r == ' ' || r == '\\t' || r == '\\n' || r == '\\f' || r == '\\r' {
			return fmt.Errorf("name cannot contain numbers or hyphens")
		}
	}
	return nil
}
''')]),
("reg-validate-runebad4","C13",[(R,"@func ValidateBaseName(",'''func ValidateBaseName(name string) error {
	for i, r := range name {
		if i > 20 {
			break
		}
		if r == '-' || r >= '0' && r <= '9' || r == ' ' || r == '\\t' || r == '\\n' || r == '\\f' || r == '\\r' {
			return fmt.Errorf("name cannot contain numbers or hyphens")
		}
	}
	return nil
}
''')]),
("reg-validate-switch","",[(R,"@func ValidateBaseName(",'''func ValidateBaseName(name string) error {
	for _, r := range name {
		switch {
		case r == '-', '0' <= r && r <= '9', r == ' ', r == '\\t', r == '\\n', r == '\\f', r == '\\r':
			return fmt.Errorf("name cannot contain numbers or hyphens")
		}
	}
	return nil
}
''')]),
("reg-validate2","",[(R,"	if numOrHyphen.MatchString(name) {\n		return fmt.Errorf(\"name cannot contain numbers or hyphens\")\n	}\n	return nil","	if !hasNumOrHyphen(name) {\n		return nil\n	}\n	return fmt.Errorf(\"name cannot contain numbers or hyphens\")"),(R,"// NewName takes","func hasNumOrHyphen(s string) bool { return numOrHyphen.MatchString(s) }\n\n// NewName takes"),(R,"	if !numOrHyphen.MatchString(name) {","	if !hasNumOrHyphen(name) {")]),
("reg-validate-any","",[(R,"	if numOrHyphen.MatchString(name) {\n		return","	if strings.ContainsAny(name, \"0123456789- \\t\\n\\f\\r\") {\n		return")]),
("reg-validate-idx","",[(R,"	if numOrHyphen.MatchString(name) {\n		return","	if strings.IndexAny(name, \"0123456789- \\t\\n\\f\\r\") >= 0 {\n		return")]),
("reg-validate-idx2","",[(R,"	if numOrHyphen.MatchString(name) {\n		return","	if i := strings.IndexAny(name, \"0123456789- \\t\\n\\f\\r\"); i != -1 {\n		return")]),
("reg-validate-anybad","C13",[(R,"	if numOrHyphen.MatchString(name) {\n		return","	if strings.ContainsAny(name, \"012345678- \\t\\n\\f\\r\") {\n		return")]),
("reg-validate-idxbad","C13",[(R,"	if numOrHyphen.MatchString(name) {\n		return","	if i := strings.IndexAny(name, \"0123456789- \\t\\n\\f\\r\"); i > 0 {\n		return")]),
("reg-newname-any","",[(R,"	if !numOrHyphen.MatchString(name) {","	if !strings.ContainsAny(name, \"0123456789-\") {")]),
("reg-newname-contains","",[(R,"	if !numOrHyphen.MatchString(name) {","	if !strings.Contains(name, \"-\") {")]),
("reg-newname-rune","",[(R,"	if !numOrHyphen.MatchString(name) {","	if !strings.ContainsRune(name, '-') {")]),
("reg-newname-join","",[(R,"	return fmt.Sprintf(\"%s-%d\", sp[0], n)","	return strings.Join([]string{sp[0], strconv.Itoa(n)}, \"-\")")]),
("reg-newname-idx3","",[(R,"	sp := strings.Split(name, \"-\")\n	n, err := strconv.Atoi(sp[1])","	i := strings.IndexByte(name, '-')\n	n, err := strconv.Atoi(name[i+1:])"),(R,"fmt.Sprintf(\"%s-%d\", sp[0], n)","fmt.Sprintf(\"%s%d\", name[:i+1], n)")]),
("reg-newname-idxbad","C11",[(R,"	sp := strings.Split(name, \"-\")\n	n, err := strconv.Atoi(sp[1])","	i := strings.IndexByte(name, '-')\n	n, err := strconv.Atoi(name[i+1:i+2])"),(R,"fmt.Sprintf(\"%s-%d\", sp[0], n)","fmt.Sprintf(\"%s%d\", name[:i+1], n)")]),
("err-rangelen","",[(G,"	return append([]error(nil), e.errors...)","	out := make([]error, len(e.errors))\n	for i := range len(out) {\n		out[i] = e.errors[i]\n	}\n	return out")]),
("err-copybad1","C14",[(G,"	return append([]error(nil), e.errors...)","	out := make([]error, len(e.errors))\n	for i := 0; i < len(out)-1; i++ {\n		out[i] = e.errors[i]\n	}\n	return out")]),
("err-copybad2","C14",[(G,"	return append([]error(nil), e.errors...)","	out := make([]error, len(e.errors))\n	for i := range e.errors {\n		out[len(out)-1-i] = e.errors[i]\n	}\n	return out")]),
("err-copybad3","C14",[(G,"	return append([]error(nil), e.errors...)","	out := make([]error, len(e.errors))\n	for i := range e.errors {\n		out[i] = e.errors[i]\n	}\n	if len(out) > 2 {\n		out[1] = nil\n	}\n	return out")]),
("reg-pools-helper","",[(R,"@func Pools(",'''func Pools() chan goroutines.Pool {
	pools := snapshot()
	ch := make(chan goroutines.Pool, len(pools))
	defer close(ch)
	for i := range pools {
		ch <- pools[i]
	}
	return ch
}

func snapshot() []goroutines.Pool {
	mu.RLock()
	defer mu.RUnlock()

	pools := make([]goroutines.Pool, 0, len(registry))
	for _, p := range registry {
		pools = append(pools, p)
	}
	return pools
}
''')]),
("reg-unreg-name","",[(R,"	mu.Lock()\n	delete(registry, pool.GetName())\n	mu.Unlock()","	name := pool.GetName()\n	mu.Lock()\n	defer mu.Unlock()\n	delete(registry, name)")]),
# Errors
("err-switch","",[(G,"	if len(e.errors) == 0 {\n		return nil\n	}\n	return e.errors[0]","	var first error\n	if len(e.errors) > 0 {\n		first = e.errors[0]\n	}\n	return first")]),
("err-range","",[(G,"	if len(e.errors) == 0 {\n		return nil\n	}\n	return e.errors[0]","	for _, err := range e.errors {\n		return err\n	}\n	return nil")]),
("err-make","",[(G,"	return append([]error(nil), e.errors...)","	errs := make([]error, 0, len(e.errors))\n	for _, err := range e.errors {\n		errs = append(errs, err)\n	}\n	return errs")]),
("err-clone","",[(G,"	return append([]error(nil), e.errors...)","	return slices.Clone(e.errors)"),(G,"	\"context\"\n	\"sync\"\n","	\"context\"\n	\"slices\"\n	\"sync\"\n")]),
("err-mapcopy","",[(G,"	return append([]error(nil), e.errors...)","	out := make([]error, len(e.errors))\n	for i := range e.errors {\n		out[i] = e.errors[i]\n	}\n	return out")]),
]
