L="goroutines/limited/goroutines.go"; Po="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"; G="goroutines/goroutines.go"
W="prim/wait/wait.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; A="prim/atomics/atomics.go"; P="pipelines/stagedpipe/stagedpipe.go"; ST="pipelines/stagedpipe/stats.go"; Q="pipelines/stagedpipe/internal/queue/queue.go"
PROP="C46"
M=[
("l-plain-counter","C46",[(L,"	running   atomic.Int64\n","	running   atomic.Int64\n	peak int64\n"),(L,"	p.running.Add(1)\n","	if n := p.running.Add(1); n > p.peak {\n		p.peak = n\n	}\n")]),
("l-last-job","C46",[(L,"	running   atomic.Int64\n","	running   atomic.Int64\n	last time.Time\n"),(L,"		runner(ctx)\n","		runner(ctx)\n		p.last = time.Now()\n")]),
("p-worker-busy","C46",[(Po,"type Pool struct {","type Pool struct {\n	busy map[string]int"),(Po,"p := &Pool{","p := &Pool{busy: map[string]int{}, "),(Po,"		s.job(s.ctx)\n","		if p.busy != nil {\n			p.busy[p.name]++\n		}\n		s.job(s.ctx)\n")]),
("w-name","C46",[(W,"	t := time.Now().UTC()\n	if w.span","	if w.Name == \"\" {\n		w.Name = \"unspecified\"\n	}\n	t := time.Now().UTC()\n	if w.span")]),
("w-started","C46",[(W,"			if w.Name == \"\" {\n				w.Name = \"unspecified\"\n			}\n			w.start","			if w.Name == \"\" {\n				w.Name = \"unspecified\"\n			}\n			w.start"),(W,"	w.count.Add(1)\n	w.total.Add(1)\n","	if w.start.IsZero() {\n		w.start = t\n	}\n	w.count.Add(1)\n	w.total.Add(1)\n")]),
("w-body-name","C46",[(W,"				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n				}\n","				if w.CancelOnErr != nil {\n					w.CancelOnErr()\n					w.CancelOnErr = nil\n				}\n")]),
("g-last","C46",[(P,"	itemNum atomic.Uint64\n","	itemNum atomic.Uint64\n	last time.Time\n"),(P,"	req.queueTime = time.Now()\n","	req.queueTime = time.Now()\n	r.last = req.queueTime\n")]),
("g-last-locked","",[(P,"	itemNum atomic.Uint64\n","	itemNum atomic.Uint64\n	last time.Time\n	lastMu sync.Mutex\n"),(P,"	req.queueTime = time.Now()\n","	req.queueTime = time.Now()\n	r.lastMu.Lock()\n	r.last = req.queueTime\n	r.lastMu.Unlock()\n")]),
("g-last-helper","",[(P,"	itemNum atomic.Uint64\n","	itemNum atomic.Uint64\n	last time.Time\n	lastMu sync.Mutex\n"),(P,"	req.queueTime = time.Now()\n","	req.queueTime = time.Now()\n	r.touch(req.queueTime)\n"),(P,"func (r *RequestGroup[T]) otelStart() {","func (r *RequestGroup[T]) touch(t time.Time) {\n	r.lastMu.Lock()\n	defer r.lastMu.Unlock()\n	r.last = t\n}\n\nfunc (r *RequestGroup[T]) otelStart() {")]),
("g-once-out","C46",[(P,"	if r.ordered != nil {\n		r.submitMu.Lock()","	if r.Name == \"\" {\n		r.Name = gName\n	}\n\n	if r.ordered != nil {\n		r.submitMu.Lock()")]),
("g-fwd-count","C46",[(P,"	itemNum atomic.Uint64\n","	itemNum atomic.Uint64\n	delivered int\n"),(P,"				req.otelEnd()\n				r.user <- req","				req.otelEnd()\n				r.delivered++\n				r.user <- req"),(P,"	req.queueTime = time.Now()\n","	req.queueTime = time.Now()\n	if r.delivered < 0 {\n		panic(\"bug\")\n	}\n")]),
("g-fwd-own","",[(P,"	itemNum atomic.Uint64\n","	itemNum atomic.Uint64\n	delivered int\n"),(P,"				req.otelEnd()\n				r.user <- req","				req.otelEnd()\n				r.delivered++\n				r.user <- req")]),
("pp-groups","C46",[(P,"	p.demux.AddReceiver(id, r.out)\n","	p.demux.AddReceiver(id, r.out)\n	p.groups[id] = struct{}{}\n"),(P,"type Pipelines[T any] struct {","type Pipelines[T any] struct {\n	groups map[uint64]struct{}"),(P,"	p.pipelines = pipelines\n","	p.pipelines = pipelines\n	p.groups = map[uint64]struct{}{}\n")]),
("pp-groups-locked","",[(P,"	p.demux.AddReceiver(id, r.out)\n","	p.demux.AddReceiver(id, r.out)\n	p.groupsMu.Lock()\n	p.groups[id] = struct{}{}\n	p.groupsMu.Unlock()\n"),(P,"type Pipelines[T any] struct {","type Pipelines[T any] struct {\n	groups map[uint64]struct{}\n	groupsMu sync.Mutex"),(P,"	p.pipelines = pipelines\n","	p.pipelines = pipelines\n	p.groups = map[uint64]struct{}{}\n")]),
("pp-closed","",[(P,"	close(p.in)\n\n	go","	close(p.in)\n	p.closed = true\n\n	go"),(P,"type Pipelines[T any] struct {","type Pipelines[T any] struct {\n	closed bool"),(P,"	id := p.requestGroupNum.Add(1)\n","	if p.closed {\n		return nil\n	}\n	id := p.requestGroupNum.Add(1)\n")]),
("pp-closed-go","C46",[(P,"		close(p.out)\n","		p.closed = true\n		close(p.out)\n"),(P,"type Pipelines[T any] struct {","type Pipelines[T any] struct {\n	closed bool"),(P,"	id := p.requestGroupNum.Add(1)\n","	if p.closed {\n		return nil\n	}\n	id := p.requestGroupNum.Add(1)\n")]),
("wk-count","C46",[(P,"type pipeline[T any] struct {","type pipeline[T any] struct {\n	done int"),(P,"		r = p.processReq(r)\n","		r = p.processReq(r)\n		p.done++\n")]),
("wk-cache","C46",[(P,"type pipeline[T any] struct {","type pipeline[T any] struct {\n	names map[uint64]string"),(P,"		r = p.processReq(r)\n","		p.names[r.groupNum] = p.name\n		r = p.processReq(r)\n"),(P,"	p := &pipeline[T]{\n","	p := &pipeline[T]{\n		names: map[uint64]string{},\n")]),
("e-error","C46",[(G,"func (e *Errors) Error() error {\n	e.mu.Lock()\n	defer e.mu.Unlock()\n","func (e *Errors) Error() error {\n")]),
("c-err","C46",[(C,"				return access(\n					ctx,\n					v,\n				)\n","				err := access(ctx, v)\n				if err != nil {\n					ctxErr = err\n				}\n				return err\n")]),
("c-outer","C46",[(C,"	for {\n		var v T\n		ok := false\n","	var v T\n	for {\n		ok := false\n")]),
("c-outer-copy","",[(C,"	for {\n		var v T\n		ok := false\n","	var v T\n	for {\n		ok := false\n"),(C,"		wg.Go(\n","		v := v\n		wg.Go(\n")]),
("s-count","C46",[(S,"	if err := wg.Wait(ctx); err != nil {","	if n > 1<<40 {\n		return nil\n	}\n	if err := wg.Wait(ctx); err != nil {"),(S,"	wg := wait.Group{","	n := 0\n	wg := wait.Group{")]),
("s-count2","C46",[(S,"	wg := wait.Group{","	n := 0\n	wg := wait.Group{"),(S,"				return access(","				n++\n				return access(")]),
("s-count3","",[(S,"	wg := wait.Group{","	var mu sync.Mutex\n	n := 0\n	wg := wait.Group{"),(S,"				return access(","				mu.Lock()\n				n++\n				mu.Unlock()\n				return access("),(S,"	\"context\"\n","	\"context\"\n	\"sync\"\n")]),
("r-names","C46",[(R,"func NewName(name string) string {\n","var tries int\n\nfunc NewName(name string) string {\n	tries++\n")]),
("r-order","C46",[(R,"func Unregister(pool goroutines.Pool) {\n	mu.Lock()\n","var closeMu sync.Mutex\n\nfunc Unregister(pool goroutines.Pool) {\n	closeMu.Lock()\n	defer closeMu.Unlock()\n	mu.Lock()\n"),(R,"	mu.RLock()\n	defer mu.RUnlock()\n\n	ch","	mu.RLock()\n	defer mu.RUnlock()\n	closeMu.Lock()\n	defer closeMu.Unlock()\n\n	ch")]),
("r-order-ok","",[(R,"func Unregister(pool goroutines.Pool) {\n	mu.Lock()\n","var closeMu sync.Mutex\n\nfunc Unregister(pool goroutines.Pool) {\n	closeMu.Lock()\n	defer closeMu.Unlock()\n	mu.Lock()\n"),(R,"	mu.RLock()\n	defer mu.RUnlock()\n\n	ch","	closeMu.Lock()\n	defer closeMu.Unlock()\n	mu.RLock()\n	defer mu.RUnlock()\n\n	ch")]),
("st-last","C46",[(ST,"type stats struct {","type stats struct {\n	last int64"),(ST,"	return stats\n}","	s.last = int64(stats.Completed)\n	return stats\n}")]),
("q-size","C46",[(Q,"@func func (q *Queue[A]) Push","")]),
("lock-leak","C46",[(P,"		if r.ordered != nil {\n			r.itemNum.Add(^uint64(0))","		if r.ordered != nil && req.span.IsRecording() {\n			r.itemNum.Add(^uint64(0))"),(P,"		r.submitMu.Lock()\n		defer r.submitMu.Unlock()\n","		r.submitMu.Lock()\n"),(P,"	case r.p.in <- req:\n	}\n","	case r.p.in <- req:\n	}\n	if r.ordered != nil {\n		r.submitMu.Unlock()\n	}\n")]),
("a-plain","C46",[(A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n","	r.mu.Lock()\n	defer r.mu.Unlock()\n")]),
]
M=[m for m in M if m[0] not in ("q-size","a-plain","s-count")]
