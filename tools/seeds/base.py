L = 'goroutines/limited/goroutines.go'
P = 'goroutines/pooled/goroutines.go'
W = 'prim/wait/wait.go'
seeds = []

seeds.append(dict(id='limited-count-before-options', property='C05', pkg='goroutines/limited',
 needs='a Submit that is rejected because one of its options fails, followed by Wait, Close or Running',
 breaks='limited.Pool.Submit counts the job before it has applied the options, so a rejected submission stays counted for ever: Running never goes back to 0 and Wait and Close never return.',
 edits=[(L, '''	opts := pool.SubmitOptions{Type: pool.PTLimited}
	var err error
''', '''	p.wg.Add(1)
	p.running.Add(1)

	opts := pool.SubmitOptions{Type: pool.PTLimited}
	var err error
'''), (L, '''	p.submitEvent(spanner, fcn, opts.NonBlocking, now)

	p.wg.Add(1)
	p.running.Add(1)

''', '''	p.submitEvent(spanner, fcn, opts.NonBlocking, now)

''')],
 test='''
package limited_test

import (
	"context"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
)

func TestDemo(t *testing.T) {
	p, err := limited.New("", 2)
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Submit(context.Background(), func(context.Context) {}, pooled.NonBlocking()); err == nil {
		t.Fatal("an option of the other pool type was accepted")
	}
	if n := p.Running(); n != 0 {
		t.Errorf("Running() == %d after a rejected Submit", n)
	}
	done := make(chan struct{})
	go func() { p.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Wait() does not return after a rejected Submit")
	}
}
'''))

seeds.append(dict(id='pooled-skips-cancelled', property='C04', pkg='goroutines/pooled',
 needs='a NonBlocking submission that finds every worker busy and whose Context is cancelled by the time its goroutine starts',
 breaks='An accepted NonBlocking job with a cancelled Context is dropped: Submit returned nil, but the job is never called.',
 edits=[(P, '''				defer p.running.Add(-1)
				s.job(ctx)
''', '''				defer p.running.Add(-1)
				if ctx.Err() == nil {
					s.job(ctx)
				}
''')],
 test='''
package pooled_test

import (
	"context"
	"sync/atomic"
	"testing"

	"github.com/gostdlib/concurrency/goroutines/pooled"
)

func TestDemo(t *testing.T) {
	p, err := pooled.New("", 1)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	release := make(chan struct{})
	if err := p.Submit(context.Background(), func(context.Context) { <-release }); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	var ran atomic.Int64
	accepted := int64(0)
	for i := 0; i < 10; i++ {
		if err := p.Submit(ctx, func(context.Context) { ran.Add(1) }, pooled.NonBlocking()); err == nil {
			accepted++
		}
	}
	close(release)
	p.Wait()
	if ran.Load() != accepted {
		t.Fatalf("%d jobs accepted, %d called", accepted, ran.Load())
	}
}
'''))

seeds.append(dict(id='pooled-early-unregister', property='C10', pkg='goroutines/pooled',
 needs='a Close that has to wait for a running job while another pool of the same name is created',
 breaks='pooled.Pool.Close removes the pool from the registry before the accepted jobs have returned, so two live pools can have one name.',
 edits=[(P, '''	p.wg.Wait()
	close(p.queue)
	register.Unregister(p)
''', '''	register.Unregister(p)
	p.wg.Wait()
	close(p.queue)
''')],
 test='''
package pooled_test

import (
	"context"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines/pooled"
)

func TestDemo(t *testing.T) {
	p, err := pooled.New("demo", 1)
	if err != nil {
		t.Fatal(err)
	}
	release := make(chan struct{})
	if err := p.Submit(context.Background(), func(context.Context) { <-release }); err != nil {
		t.Fatal(err)
	}
	closed := make(chan struct{})
	go func() { p.Close(); close(closed) }()
	time.Sleep(300 * time.Millisecond)

	o, err := pooled.New("demo", 1)
	if err != nil {
		t.Fatal(err)
	}
	if o.GetName() == p.GetName() {
		t.Errorf("two pools that still exist are both called %q", o.GetName())
	}
	close(release)
	<-closed
	o.Close()
}
'''))

seeds.append(dict(id='register-delete-shared', property='C12', pkg='goroutines/internal/register',
 needs='two pools closed at the same moment',
 breaks='Unregister deletes from the registry map while holding only the read lock: concurrent Close calls race and can crash the program.',
 edits=[('goroutines/internal/register/register.go', '''	mu.Lock()
	delete(registry, pool.GetName())
	mu.Unlock()
''', '''	mu.RLock()
	delete(registry, pool.GetName())
	mu.RUnlock()
''')],
 flags='-race',
 test='''
package register_test

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/gostdlib/concurrency/goroutines/limited"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		var pools []*limited.Pool
		for i := 0; i < 16; i++ {
			p, err := limited.New(fmt.Sprintf("demo%s", strings.Repeat("x", i)), 1)
			if err != nil {
				t.Fatal(err)
			}
			pools = append(pools, p)
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for _, p := range pools {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				p.Close()
			}()
		}
		close(start)
		wg.Wait()
	}
}
'''))

seeds.append(dict(id='wait-drops-wrapped-cancel', property='C17', pkg='prim/wait',
 needs='a function that returns an error wrapping context.Canceled after another function has already failed',
 breaks='Group.Wait leaves out every later error that merely wraps a cancellation, so a real failure is lost.',
 edits=[(W, '''			switch err {
			case context.Canceled, context.DeadlineExceeded:
				return
			}
''', '''			if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
				return
			}
''')],
 test='''
package wait_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/gostdlib/concurrency/prim/wait"
)

type opError struct{ err error }

func (o *opError) Error() string { return fmt.Sprintf("write failed: %v", o.err) }
func (o *opError) Unwrap() error { return o.err }

func TestDemo(t *testing.T) {
	first := errors.New("first")
	second := &opError{err: context.Canceled}
	done := make(chan struct{})
	g := wait.Group{}
	ctx := context.Background()
	g.Go(ctx, func(context.Context) error { defer close(done); return first })
	g.Go(ctx, func(context.Context) error {
		<-done
		for g.Running() > 1 {
		}
		return second
	})
	err := g.Wait(ctx)
	if !errors.Is(err, first) {
		t.Errorf("Wait() == %v does not match the first error", err)
	}
	if !errors.Is(err, second) {
		t.Errorf("Wait() == %v does not match the second error", err)
	}
}
'''))

seeds.append(dict(id='wait-keeps-once', property='C19', pkg='prim/wait',
 needs='a Group that is used a second time after a Wait that returned an error',
 breaks='The error of an earlier use of a Group is reported by the Wait of the next use.',
 edits=[(W, '''	w.errors.Store(nil)
''', ''), (W, '''	err := w.errors.Load()
	if err != nil {
''', '''	err := w.errors.Load()
	if err == nil {
		w.errors = atomic.Pointer[error]{}
	} else {
''')],
 test='''
package wait_test

import (
	"context"
	"errors"
	"testing"

	"github.com/gostdlib/concurrency/prim/wait"
)

func TestDemo(t *testing.T) {
	g := wait.Group{}
	ctx := context.Background()
	g.Go(ctx, func(context.Context) error { return errors.New("first use") })
	if err := g.Wait(ctx); err == nil {
		t.Fatal("no error from the first use")
	}
	g.Go(ctx, func(context.Context) error { return nil })
	if err := g.Wait(ctx); err != nil {
		t.Fatalf("the second use, without a failure, reports %v", err)
	}
}
'''))

seeds.append(dict(id='slices-closes-callers-pool', property='C21', pkg='prim/slices',
 needs='two Access calls that share one pooled.Pool given with WithPoolOptions',
 breaks='slices.Access closes the pool its caller supplied, so the next use of that pool panics.',
 edits=[('prim/slices/slice.go', '''			return err
		}
		defer opts.pool.Close()
	}

	var cancel''', '''			return err
		}
	}
	defer opts.pool.Close()

	var cancel''')],
 test='''
package slices_test

import (
	"context"
	"testing"

	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/slices"
)

func TestDemo(t *testing.T) {
	p, err := pooled.New("", 2)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		s := []int{1, 2, 3}
		err := slices.Access(context.Background(), s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
			m(v + 1)
			return nil
		}, slices.WithPoolOptions(p))
		if err != nil {
			t.Fatal(err)
		}
	}
	p.Close()
}
'''))

seeds.append(dict(id='chans-modify-swallows', property='C25', pkg='prim/chans',
 needs='a Modifier that returns context.Canceled of its own although the Context of the call was not cancelled',
 breaks='chans.Modify sends no result for a value whose Modifier failed with context.Canceled.',
 edits=[('prim/chans/chans.go', '''		r, err := mod(ctx, v)
		if err != nil {
''', '''		r, err := mod(ctx, v)
		if err == context.Canceled {
			return err
		}
		if err != nil {
''')],
 test='''
package chans_test

import (
	"context"
	"testing"

	"github.com/gostdlib/concurrency/prim/chans"
)

func TestDemo(t *testing.T) {
	in := make(chan int, 10)
	for i := 0; i < 10; i++ {
		in <- i
	}
	close(in)
	out := make(chan chans.StreamResult[int], 10)
	chans.Modify(context.Background(), in, out, func(ctx context.Context, i int) (int, error) {
		if i%2 == 1 {
			return 0, context.Canceled
		}
		return i, nil
	})
	n := 0
	for range out {
		n++
	}
	if n != 10 {
		t.Fatalf("10 values passed to the modifier, %d results", n)
	}
}
'''))

seeds.append(dict(id='queue-links-before-place', property='C42', pkg='pipelines/stagedpipe/internal/queue',
 needs='a Push on a full bounded queue',
 breaks='Push links its value before it has taken a place, so a full queue holds one more value for every blocked Push.',
 edits=[('pipelines/stagedpipe/internal/queue/queue.go', '''	if q.limit != nil {
		q.limit <- struct{}{}
	}
	q.queue.push(a)
''', '''	q.queue.push(a)
	if q.limit != nil {
		q.limit <- struct{}{}
	}
''')],
 test='''
package queue

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	q := New[int](1)
	q.Push(1)
	for i := 2; i < 5; i++ {
		go q.Push(i)
	}
	time.Sleep(300 * time.Millisecond)
	// No Pop has given a place back, so the queue may hold one value.
	n := 0
	for {
		if _, ok := q.queue.pop(); !ok {
			break
		}
		n++
	}
	if n > 1 {
		t.Fatalf("a queue of size 1 held %d values", n)
	}
}
'''))

seeds.append(dict(id='rwvalue-store-unlocked', property='C26', pkg='prim/atomics',
 needs='a Store while a LoadReplace function is running',
 breaks='RWValue.Store does not wait for a LoadReplace in progress, so its value is overwritten by one computed from the older value: the update is lost.',
 edits=[('prim/atomics/atomics.go', '''	r.mu.Lock()
	defer r.mu.Unlock()
	r.v.Store(&v)
''', '''	r.v.Store(&v)
''')],
 test='''
package atomics_test

import (
	"testing"
	"time"

	"github.com/gostdlib/concurrency/prim/atomics"
)

func TestDemo(t *testing.T) {
	var r atomics.RWValue[int]
	r.Store(1)
	stored := make(chan struct{})
	r.LoadReplace(func(v int) (int, error) {
		go func() {
			r.Store(100)
			close(stored)
		}()
		select {
		case <-stored:
			t.Error("Store() took effect during LoadReplace()")
		case <-time.After(300 * time.Millisecond):
		}
		return v + 1, nil
	})
	<-stored
	if v := r.Load(); v != 100 {
		t.Errorf("Load() == %d, the Store(100) was lost", v)
	}
}
'''))
