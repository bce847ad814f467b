S = 'pipelines/stagedpipe/stagedpipe.go'
seeds = []
HEAD = '''
package stagedpipe_test

import (
	"context"
%s
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

type data struct{ n int }

type sm struct {
	start func(r stagedpipe.Request[data]) stagedpipe.Request[data]
	then  func(r stagedpipe.Request[data]) stagedpipe.Request[data]
	closed chan struct{}
}

func (s *sm) Start(r stagedpipe.Request[data]) stagedpipe.Request[data] { return s.start(r) }
func (s *sm) Then(r stagedpipe.Request[data]) stagedpipe.Request[data]  { return s.then(r) }
func (s *sm) Close() {
	if s.closed != nil {
		close(s.closed)
	}
}

func within(t *testing.T, what string, ch <-chan struct{}) {
	t.Helper()
	select {
	case <-ch:
	case <-time.After(10 * time.Second):
		t.Fatal(what)
	}
}

var _ = context.Background
'''
def test(body, imports=''):
    return HEAD % ('\n'.join('\t"%s"' % i for i in imports.split()),) + body

seeds.append(dict(id='staged-ordered-errors-first', property='C30', pkg='pipelines/stagedpipe',
 needs='an ordered RequestGroup, a Request that leaves with Err set and one submitted after it',
 breaks='With Ordered a failed Request is delivered directly instead of through the ordering, so its number is never seen there and every later Request of the group is withheld.',
 edits=[(S, '''				if err := r.ordered.Add(req); err != nil {
''', '''				if req.Err != nil {
					r.user <- req
					continue
				}
				if err := r.ordered.Add(req); err != nil {
''')],
 test=test('''
func TestDemo(t *testing.T) {
	s := &sm{}
	s.start = func(r stagedpipe.Request[data]) stagedpipe.Request[data] {
		if r.Data.n == 1 {
			r.Err = errors.New("bad")
		}
		return r
	}
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](s), stagedpipe.Ordered[data]())
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	done := make(chan struct{})
	var got []int
	go func() {
		defer close(done)
		for r := range g.Out() {
			got = append(got, r.Data.n)
		}
	}()
	for i := 0; i < 5; i++ {
		if err := g.Submit(stagedpipe.Request[data]{Ctx: context.Background(), Data: data{i}}); err != nil {
			t.Fatal(err)
		}
	}
	g.Close()
	within(t, "Out() was not closed", done)
	if len(got) != 5 {
		t.Fatalf("got %v", got)
	}
	for i, n := range got {
		if i != n {
			t.Fatalf("got %v", got)
		}
	}
}
''', 'errors')))

seeds.append(dict(id='staged-group-waits-for-all', property='C31', pkg='pipelines/stagedpipe',
 needs='two RequestGroups, one of which has a Request in process while the other one is closed',
 breaks='RequestGroup.Close waits for the requests of all groups instead of only its own.',
 edits=[(S, '''	r.wg.Wait()

	r.otelEnd()
''', '''	r.p.wg.Wait()
	r.wg.Wait()

	r.otelEnd()
''')],
 test=test('''
func TestDemo(t *testing.T) {
	release := make(chan struct{})
	s := &sm{}
	s.start = func(r stagedpipe.Request[data]) stagedpipe.Request[data] {
		if r.Data.n == 1 {
			<-release
		}
		return r
	}
	p, err := stagedpipe.New("demo", 2, stagedpipe.StateMachine[data](s))
	if err != nil {
		t.Fatal(err)
	}
	a, b := p.NewRequestGroup(), p.NewRequestGroup()
	go func() {
		for range a.Out() {
		}
	}()
	go func() {
		for range b.Out() {
		}
	}()
	if err := a.Submit(stagedpipe.Request[data]{Ctx: context.Background(), Data: data{1}}); err != nil {
		t.Fatal(err)
	}
	if err := b.Submit(stagedpipe.Request[data]{Ctx: context.Background(), Data: data{2}}); err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() { b.Close(); close(done) }()
	within(t, "Close() of a group waits for another group", done)
	close(release)
	a.Close()
	p.Close()
}
''')))

seeds.append(dict(id='staged-preprocessors-prepended', property='C34', pkg='pipelines/stagedpipe',
 needs='two PreProcessors options',
 breaks='Pre-processors of a later PreProcessors option run before those of an earlier one.',
 edits=[(S, '''		pipelines.preProcessors = append(pipelines.preProcessors, p...)
''', '''		pipelines.preProcessors = append(append([]PreProcesor[T]{}, p...), pipelines.preProcessors...)
''')],
 test=test('''
func TestDemo(t *testing.T) {
	s := &sm{start: func(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }}
	pp := func(n int) stagedpipe.PreProcesor[data] {
		return func(r stagedpipe.Request[data]) stagedpipe.Request[data] {
			r.Data.n = r.Data.n*10 + n
			return r
		}
	}
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](s),
		stagedpipe.PreProcessors(pp(1), pp(2)), stagedpipe.PreProcessors(pp(3)))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	if err := g.Submit(stagedpipe.Request[data]{Ctx: context.Background()}); err != nil {
		t.Fatal(err)
	}
	if r := <-g.Out(); r.Data.n != 123 {
		t.Fatalf("pre-processors ran in the order %d, want 123", r.Data.n)
	}
	g.Close()
}
''')))

seeds.append(dict(id='staged-submitted-next', property='C33', pkg='pipelines/stagedpipe',
 needs='a Request submitted with Next set and a Start stage that leaves Next alone',
 breaks='Next is no longer cleared before the first stage, so a Next the submitter left in the Request is followed.',
 edits=[(S, '''		preProcessors: []PreProcesor[T]{
			resetNext[T],
		},
	}
''', '''	}
''')],
 test=test('''
func TestDemo(t *testing.T) {
	s := &sm{}
	s.start = func(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }
	s.then = func(r stagedpipe.Request[data]) stagedpipe.Request[data] { r.Data.n++; return r }
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](s))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	if err := g.Submit(stagedpipe.Request[data]{Ctx: context.Background(), Next: s.Then}); err != nil {
		t.Fatal(err)
	}
	if r := <-g.Out(); r.Data.n != 0 {
		t.Fatal("a stage that no stage asked for was run")
	}
	g.Close()
}
''')))

seeds.append(dict(id='staged-cancel-after-preprocessors', property='C36', pkg='pipelines/stagedpipe',
 needs='a Context that is cancelled while the Request is between two stages and a pre-processor',
 breaks='The Context is looked at only after the pre-processors, so they are still called for a cancelled Request.',
 edits=[(S, '''	// If the context has been cancelled, stop processing.
	if r.Ctx.Err() != nil {
		r.Err = r.Ctx.Err()
		return r
	}

''', ''), (S, '''			return r
		}
	}
	return stage(r)
''', '''			return r
		}
	}

	// If the context has been cancelled, stop processing.
	if r.Ctx.Err() != nil {
		r.Err = r.Ctx.Err()
		return r
	}
	return stage(r)
''')],
 test=test('''
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	s := &sm{}
	s.start = func(r stagedpipe.Request[data]) stagedpipe.Request[data] {
		cancel()
		r.Next = s.Then
		return r
	}
	s.then = func(r stagedpipe.Request[data]) stagedpipe.Request[data] { t.Error("Then was called"); return r }
	calls := 0
	pp := func(r stagedpipe.Request[data]) stagedpipe.Request[data] { calls++; return r }
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](s), stagedpipe.PreProcessors[data](pp))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	if err := g.Submit(stagedpipe.Request[data]{Ctx: ctx}); err != nil {
		t.Fatal(err)
	}
	if r := <-g.Out(); r.Err != context.Canceled {
		t.Errorf("Err is %v", r.Err)
	}
	if calls != 1 {
		t.Errorf("the pre-processor was called %d times, want once, before Start", calls)
	}
	g.Close()
}
''')))

seeds.append(dict(id='staged-delay-drops', property='C28', pkg='pipelines/stagedpipe',
 needs='the DelayWarning option and a consumer that is slower than the warning time',
 breaks='When the delay warning is logged the worker gives up delivering the Request: it never comes out.',
 edits=[(S, '''					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					continue
''', '''					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
''')],
 test=test('''
func TestDemo(t *testing.T) {
	s := &sm{start: func(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }}
	p, err := stagedpipe.New("demo", 2, stagedpipe.StateMachine[data](s), stagedpipe.DelayWarning[data](20*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	const n = 20
	go func() {
		for i := 0; i < n; i++ {
			g.Submit(stagedpipe.Request[data]{Ctx: context.Background(), Data: data{i}})
		}
	}()
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < n; i++ {
		select {
		case <-g.Out():
		case <-time.After(5 * time.Second):
			t.Fatalf("only %d of %d requests came out", i, n)
		}
	}
}
''')))

seeds.append(dict(id='staged-cancelled-submit-counted', property='C29', pkg='pipelines/stagedpipe',
 needs='a Submit that fails because its Context is cancelled, then Pipelines.Close',
 breaks='A Submit that fails stays counted in the Pipelines, so after Pipelines.Close the StateMachine is never closed.',
 edits=[(S, '''		r.p.wg.Done()
		r.wg.Done()
		return req.Ctx.Err()
''', '''		r.wg.Done()
		return req.Ctx.Err()
''')],
 test=test('''
func TestDemo(t *testing.T) {
	release := make(chan struct{})
	s := &sm{closed: make(chan struct{})}
	s.start = func(r stagedpipe.Request[data]) stagedpipe.Request[data] { <-release; return r }
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](s))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	failed := false
	for i := 0; i < 20 && !failed; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
		failed = g.Submit(stagedpipe.Request[data]{Ctx: ctx}) != nil
		defer cancel()
	}
	if !failed {
		t.Fatal("no Submit failed")
	}
	close(release)
	go func() {
		for range g.Out() {
		}
	}()
	g.Close()
	p.Close()
	within(t, "the StateMachine was not closed", s.closed)
}
''')))

seeds.append(dict(id='staged-seen-prefix', property='C35', pkg='pipelines/stagedpipe',
 needs='the DAG option and a stage whose name is the beginning of the name of a stage the Request visited before',
 breaks='The visited stages are compared by prefix, so a Request that repeats no stage leaves with a cyclic error.',
 edits=[(S, '''		if st == stage {
''', '''		if strings.HasPrefix(st, stage) {
''')],
 test=test('''
type fetch struct{}

func (s *fetch) Start(r stagedpipe.Request[data]) stagedpipe.Request[data]    { r.Next = s.FetchAll; return r }
func (s *fetch) FetchAll(r stagedpipe.Request[data]) stagedpipe.Request[data] { r.Next = s.Fetch; return r }
func (s *fetch) Fetch(r stagedpipe.Request[data]) stagedpipe.Request[data]    { r.Data.n++; return r }
func (s *fetch) Close()                                                       {}

func TestDemo(t *testing.T) {
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](&fetch{}), stagedpipe.DAG[data]())
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	if err := g.Submit(stagedpipe.Request[data]{Ctx: context.Background()}); err != nil {
		t.Fatal(err)
	}
	r := <-g.Out()
	if r.Err != nil || r.Data.n != 1 {
		t.Fatalf("a request that repeats no stage left with %v", r.Err)
	}
	g.Close()
}
''')))

seeds.append(dict(id='staged-max-plain-store', property='C37', pkg='pipelines/stagedpipe',
 needs='two Requests finishing at the same moment',
 breaks='The maximum is stored without comparing again, so a smaller duration can overwrite a larger one recorded concurrently.',
 edits=[('pipelines/stagedpipe/stats.go', '''		if v <= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
''', '''		if v <= c {
			return
		}
		(*current).Store(v)
		return
''')],
 test='''
package stagedpipe

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	const workers, n = 8, 400
	for round := 0; round < 20000; round++ {
		var max atomic.Int64
		start := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				setMax(&max, int64(workers-w))
			}()
		}
		close(start)
		wg.Wait()
		if max.Load() != workers {
			t.Fatalf("round %d: the maximum is %d, want %d", round, max.Load(), workers)
		}
	}
}
'''))

seeds.append(dict(id='staged-substages-overwritten', property='C38', pkg='pipelines/stagedpipe',
 needs='a CountSubStages option with more than one object',
 breaks='Only the stages of the last CountSubStages object are counted, so too few workers are started.',
 edits=[(S, '''			pipelines.subStages += numStages[T](obj)
''', '''			pipelines.subStages = numStages[T](obj)
''')],
 test=test('''
type sub struct{}

func (sub) A(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }
func (sub) B(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }

func TestDemo(t *testing.T) {
	s := &sm{}
	entered := make(chan struct{}, 100)
	release := make(chan struct{})
	s.start = func(r stagedpipe.Request[data]) stagedpipe.Request[data] { entered <- struct{}{}; <-release; return r }
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](s), stagedpipe.CountSubStages[data](sub{}, sub{}))
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	go func() {
		for i := 0; i < 20; i++ {
			g.Submit(stagedpipe.Request[data]{Ctx: context.Background()})
		}
	}()
	go func() {
		for range g.Out() {
		}
	}()
	// 2 stages of the state machine and 2 of each counted object.
	for i := 0; i < 6; i++ {
		select {
		case <-entered:
		case <-time.After(5 * time.Second):
			t.Fatalf("only %d workers run, want 6", i)
		}
	}
	select {
	case <-entered:
		t.Fatal("more than 6 workers run")
	case <-time.After(300 * time.Millisecond):
	}
	close(release)
}
''')))

seeds.append(dict(id='staged-group-number-race', property='C39', pkg='pipelines/stagedpipe',
 needs='two RequestGroups created at the same moment',
 breaks='The number of a new RequestGroup is read and written in two steps, so two groups can get the same one and the output of both goes to one of them.',
 edits=[(S, '''	id := p.requestGroupNum.Add(1)
''', '''	id := p.requestGroupNum.Load() + 1
	p.requestGroupNum.Store(id)
''')],
 test=test('''
func TestDemo(t *testing.T) {
	s := &sm{start: func(r stagedpipe.Request[data]) stagedpipe.Request[data] { return r }}
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[data](s))
	if err != nil {
		t.Fatal(err)
	}
	for round := 0; round < 3000; round++ {
		const n = 8
		var groups [n]*stagedpipe.RequestGroup[data]
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				groups[i] = p.NewRequestGroup()
			}()
		}
		close(start)
		wg.Wait()
		for i, g := range groups {
			if err := g.Submit(stagedpipe.Request[data]{Ctx: context.Background(), Data: data{i}}); err != nil {
				t.Fatal(err)
			}
			select {
			case r := <-g.Out():
				if r.Data.n != i {
					t.Fatalf("round %d: group %d got the request of group %d", round, i, r.Data.n)
				}
			case <-time.After(3 * time.Second):
				t.Fatalf("round %d: the request of group %d did not come out there", round, i)
			}
		}
		for _, g := range groups {
			g.Close()
		}
	}
}
''', 'sync')))

seeds.append(dict(id='staged-ordered-span-open', property='C40', pkg='pipelines/stagedpipe',
 needs='tracing and the Ordered option',
 breaks='The span of a Request of an ordered group is never ended.',
 edits=[(S, '''				req.otelEnd()
				if err := r.ordered.Add(req); err != nil {
''', '''				if err := r.ordered.Add(req); err != nil {
''')],
 test='''
package stagedpipe_test

import (
	"context"
	"sync"
	"testing"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

var (
	mu     sync.Mutex
	opened = map[string]int{}
	ended  = map[string]int{}
)

type provider struct{ noop.TracerProvider }

func (p provider) Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{p: p} }

type tracer struct {
	noop.Tracer
	p provider
}

func (t tracer) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	mu.Lock()
	opened[name]++
	mu.Unlock()
	s := &rec{name: name, p: t.p}
	return trace.ContextWithSpan(ctx, s), s
}

type rec struct {
	noop.Span
	name string
	p    provider
}

func (r *rec) IsRecording() bool                    { return true }
func (r *rec) TracerProvider() trace.TracerProvider { return r.p }
func (r *rec) End(...trace.SpanEndOption)           { mu.Lock(); ended[r.name]++; mu.Unlock() }

type sm struct{}

func (sm) Start(r stagedpipe.Request[int]) stagedpipe.Request[int] { return r }
func (sm) Close()                                                  {}

func TestDemo(t *testing.T) {
	p, err := stagedpipe.New("demo", 1, stagedpipe.StateMachine[int](sm{}), stagedpipe.Ordered[int]())
	if err != nil {
		t.Fatal(err)
	}
	ctx, root := provider{}.Tracer("").Start(context.Background(), "root")
	g := p.NewRequestGroup()
	done := make(chan struct{})
	go func() {
		defer close(done)
		for range g.Out() {
		}
	}()
	for i := 0; i < 3; i++ {
		if err := g.Submit(stagedpipe.Request[int]{Ctx: ctx}); err != nil {
			t.Fatal(err)
		}
	}
	g.Close()
	<-done
	p.Close()
	root.End()
	mu.Lock()
	defer mu.Unlock()
	if len(opened) < 3 {
		t.Fatalf("spans: %v", opened)
	}
	for name, n := range opened {
		if ended[name] != n {
			t.Errorf("%s: %d spans started, %d ended", name, n, ended[name])
		}
	}
}
'''))
