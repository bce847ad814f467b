P = 'goroutines/pooled/goroutines.go'
L = 'goroutines/limited/goroutines.go'
R = 'goroutines/internal/register/register.go'
W = 'prim/wait/wait.go'
S = 'pipelines/stagedpipe/stagedpipe.go'
Q = 'pipelines/stagedpipe/internal/queue/queue.go'
seeds = []

seeds.append(dict(id='pooled-spare-goroutine', property='C03', pkg='goroutines/pooled',
 needs='a Submit that comes while a worker is on its way back to the queue, or not there yet, followed by another while the first job runs',
 breaks='A blocking job that finds no worker ready although the pool is not full is run in a goroutine of its own, so with the workers it can be the N+1st blocking job.',
 edits=[(P, '''	default:
		p.blockEvent(spanner, fcn, now)
		p.queue <- s
	}
''', '''	default:
		if p.running.Load() > int64(p.size) {
			p.blockEvent(spanner, fcn, now)
			p.queue <- s
			break
		}
		// Not all of the pool is in use, do not wait for a goroutine to come around.
		go func() {
			defer p.wg.Done()
			defer p.running.Add(-1)
			s.job(ctx)
		}()
	}
''')],
 test='''
package pooled_test

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines/pooled"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	for i := 0; i < 300; i++ {
		p, err := pooled.New("", 1)
		if err != nil {
			t.Fatal(err)
		}
		var now, max atomic.Int64
		job := func(context.Context) {
			n := now.Add(1)
			if m := max.Load(); n > m {
				max.CompareAndSwap(m, n)
			}
			time.Sleep(2 * time.Millisecond)
			now.Add(-1)
		}
		done := make(chan struct{})
		go func() { p.Submit(ctx, job); close(done) }()
		p.Submit(ctx, job)
		<-done
		p.Wait()
		p.Close()
		if max.Load() > 1 {
			t.Fatalf("%d jobs at once in a pool of 1", max.Load())
		}
	}
}
'''))

seeds.append(dict(id='limited-cancel-skips-place', property='C01', pkg='goroutines/limited',
 needs='a pool that is full and a Submit whose Context is cancelled while it waits for a place',
 breaks='A submission whose Context is cancelled stops waiting for a place and its job runs without one, beside the others, and then gives back a place that is not its own.',
 edits=[(L, '''			p.blockEvent(spanner, fcn, now)
			p.queue <- struct{}{}
''', '''			p.blockEvent(spanner, fcn, now)
			select {
			case p.queue <- struct{}{}:
			case <-ctx.Done():
			}
''')],
 test='''
package limited_test

import (
	"context"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines/limited"
)

func TestDemo(t *testing.T) {
	p, err := limited.New("", 1)
	if err != nil {
		t.Fatal(err)
	}
	release := make(chan struct{})
	p.Submit(context.Background(), func(context.Context) { <-release })
	ctx, cancel := context.WithCancel(context.Background())
	second := make(chan struct{})
	returned := make(chan struct{})
	go func() {
		defer close(returned)
		p.Submit(ctx, func(context.Context) { close(second) })
	}()
	time.Sleep(50 * time.Millisecond)
	cancel()
	select {
	case <-second:
		t.Error("two blocking jobs run in a pool of 1")
	case <-time.After(300 * time.Millisecond):
	}
	close(release)
	<-returned
}
'''))

seeds.append(dict(id='limited-nonblocking-stays-counted', property='C07', pkg='goroutines/limited',
 needs='a NonBlocking submission',
 breaks='Running is only taken down together with the place, so a NonBlocking job stays counted after it has ended.',
 edits=[(L, '''		defer p.running.Add(-1)
		if !opts.NonBlocking {
			defer func() { <-p.queue }()
		}
''', '''		if !opts.NonBlocking {
			defer func() {
				<-p.queue
				p.running.Add(-1)
			}()
		}
''')],
 test='''
package limited_test

import (
	"context"
	"testing"

	"github.com/gostdlib/concurrency/goroutines/limited"
)

func TestDemo(t *testing.T) {
	p, err := limited.New("", 2)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		p.Submit(context.Background(), func(context.Context) {}, limited.NonBlocking())
	}
	p.Wait()
	if n := p.Running(); n != 0 {
		t.Errorf("Running() == %d with no job in flight", n)
	}
}
'''))

seeds.append(dict(id='register-check-then-act', property='C11', pkg='goroutines/pooled',
 needs='two pools of one name created at the same moment',
 breaks='Register looks for the name under the read lock and enters it under another hold of the lock, so two pools can get the same name.',
 edits=[(R, '''	mu.Lock()
	defer mu.Unlock()

	name := pool.GetName()
	if name == "" {
		return nil
	}

	if _, ok := registry[name]; ok {
		return fmt.Errorf("name already taken")
	}

	registry[name] = pool
	return nil
''', '''	name := pool.GetName()
	if name == "" {
		return nil
	}

	mu.RLock()
	_, ok := registry[name]
	mu.RUnlock()
	if ok {
		return fmt.Errorf("name already taken")
	}

	mu.Lock()
	defer mu.Unlock()
	registry[name] = pool
	return nil
''')],
 test='''
package pooled_test

import (
	"sync"
	"testing"

	"github.com/gostdlib/concurrency/goroutines/pooled"
)

func TestDemo(t *testing.T) {
	const n = 16
	for i := 0; i < 4000; i++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		pools := make([]*pooled.Pool, n)
		for j := range pools {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				<-start
				p, err := pooled.New("demo", 1)
				if err != nil {
					panic(err)
				}
				pools[j] = p
			}(j)
		}
		close(start)
		wg.Wait()
		names := map[string]bool{}
		for _, p := range pools {
			if names[p.GetName()] {
				t.Errorf("two live pools are called %q", p.GetName())
			}
			names[p.GetName()] = true
		}
		for _, p := range pools {
			p.Close()
		}
		if t.Failed() {
			return
		}
	}
}
'''))

seeds.append(dict(id='register-only-blanks', property='C13', pkg='goroutines/limited',
 needs='a name with white space other than a blank',
 breaks='Names with tabs, newlines or other white space are accepted by both constructors.',
 edits=[(R, '''regexp.MustCompile(`[0-9-\\s]`)''', '''regexp.MustCompile(`[0-9 -]`)''')],
 test='''
package limited_test

import (
	"testing"

	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
)

func TestDemo(t *testing.T) {
	for _, name := range []string{"a b", "a\\tb", "\\nab", "ab\\f"} {
		if p, err := limited.New(name, 1); err == nil || p != nil {
			t.Errorf("limited.New(%q) == %v, %v", name, p, err)
		}
		if p, err := pooled.New(name, 1); err == nil || p != nil {
			t.Errorf("pooled.New(%q) == %v, %v", name, p, err)
		}
	}
}
'''))

seeds.append(dict(id='errors-repeated-once', property='C14', pkg='goroutines',
 needs='two errors with the same text recorded one after the other',
 breaks='Errors leaves out an error whose text is that of the one recorded before.',
 edits=[('goroutines/goroutines.go', '''	e.errors = append(e.errors, err)
''', '''	if n := len(e.errors); n == 0 || e.errors[n-1].Error() != err.Error() {
		e.errors = append(e.errors, err)
	}
''')],
 test='''
package goroutines_test

import (
	"errors"
	"testing"

	"github.com/gostdlib/concurrency/goroutines"
)

func TestDemo(t *testing.T) {
	e := goroutines.Errors{}
	a, b := errors.New("refused"), errors.New("refused")
	e.Record(a)
	e.Record(b)
	got := e.Errors()
	if len(got) != 2 || got[0] != a || got[1] != b {
		t.Errorf("recorded two errors, Errors() has %d", len(got))
	}
}
'''))

seeds.append(dict(id='wait-stale-retry', property='C15', pkg='prim/wait',
 needs='two functions of a Group that fail at the same moment',
 breaks='applyErr reads the recorded error once: when another function records one in between, it retries with the old value for ever and Wait never returns.',
 edits=[(W, '''	for {
		existing := ptr.Load()
		if existing == nil {
''', '''	existing := ptr.Load()
	for {
		if existing == nil {
''')],
 test='''
package wait_test

import (
	"context"
	"errors"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/prim/wait"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	bad := errors.New("bad")
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 100000; i++ {
			g := wait.Group{}
			var here atomic.Int64
			for j := 0; j < 4; j++ {
				g.Go(ctx, func(context.Context) error {
					here.Add(1)
					for k := 0; here.Load() < 4; k++ {
						if k > 10000 {
							runtime.Gosched()
						}
					}
					return bad
				})
			}
			g.Wait(ctx)
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("Wait does not return")
	}
}
'''))

seeds.append(dict(id='wait-skips-after-error', property='C16', pkg='prim/wait',
 needs='a Group with a Pool and CancelOnErr set to a function that does not cancel the Context given to Go, and a failure before another function is started',
 breaks='Once an error is recorded, functions given to a Group with CancelOnErr are skipped although their Context is not cancelled.',
 edits=[(W, '''			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		},
		w.PoolOptions...,
''', '''			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}
			if w.CancelOnErr != nil && w.errors.Load() != nil {
				return // being cancelled
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		},
		w.PoolOptions...,
''')],
 test='''
package wait_test

import (
	"context"
	"errors"
	"testing"

	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/prim/wait"
)

func TestDemo(t *testing.T) {
	p, err := limited.New("", 1)
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	g := wait.Group{Pool: p, CancelOnErr: func() {}}
	g.Go(ctx, func(context.Context) error { return errors.New("bad") })
	for g.Running() > 0 {
	}
	ran := false
	g.Go(ctx, func(context.Context) error { ran = true; return nil })
	g.Wait(ctx)
	if !ran {
		t.Error("a function whose Context was not cancelled was not called")
	}
}
'''))

seeds.append(dict(id='wait-cancels-only-others', property='C18', pkg='prim/wait',
 needs='a function that fails while no other function of the Group is running, with more started afterwards',
 breaks='CancelOnErr is not called for a failure when nothing else is running at that moment, so functions started later are not cancelled.',
 edits=[(W, '''			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()
''', '''			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil && w.Running() > 1 { // there is someone to tell
					w.CancelOnErr()
				}
			}
		}()
''')],
 test='''
package wait_test

import (
	"context"
	"errors"
	"testing"

	"github.com/gostdlib/concurrency/prim/wait"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	g := wait.Group{CancelOnErr: cancel}
	g.Go(ctx, func(context.Context) error { return errors.New("bad") })
	for g.Running() > 0 {
	}
	if ctx.Err() == nil {
		t.Error("a function failed and CancelOnErr was not called")
	}
	g.Wait(ctx)
}
'''))

seeds.append(dict(id='slices-batch-stops', property='C20', pkg='prim/slices',
 needs='a slice of more than 1024 elements and an accessor that fails for one that is not the last of its batch',
 breaks='Large slices are given to the pool in batches, and the elements of a batch after the first failing one are never visited.',
 edits=[('prim/slices/slice.go', '''	for i := 0; i < len(s); i++ {
		i := i

''', '''	batch := 1
	if len(s) > 1024 { // one submission per element costs too much
		batch = 16
	}
	for i := 0; i < len(s); i += batch {
		i := i

'''), ('prim/slices/slice.go', '''				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })
''', '''				for j := i; j < i+batch && j < len(s); j++ {
					if err := access(ctx, j, s[j], func(v T) { modifier(s, j, v) }); err != nil {
						return err
					}
				}
				return nil
''')],
 test='''
package slices_test

import (
	"context"
	"errors"
	"sync/atomic"
	"testing"

	"github.com/gostdlib/concurrency/prim/slices"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{10, 1025, 3000} {
		var calls atomic.Int64
		s := make([]int, n)
		slices.Access(context.Background(), s, func(_ context.Context, i int, v int, _ slices.Modifier[int]) error {
			calls.Add(1)
			if i == 3 {
				return errors.New("bad")
			}
			return nil
		})
		if calls.Load() != int64(n) {
			t.Errorf("%d of %d elements were visited", calls.Load(), n)
		}
	}
}
'''))

seeds.append(dict(id='slices-first-error-only', property='C22', pkg='prim/slices',
 needs='two accessors that fail with different errors',
 breaks='Access takes the joined error apart to return the first error, and drops the last one.',
 edits=[('prim/slices/slice.go', '''		spanner.Error(err)
		return err
	}
	return ctxErr
''', '''		spanner.Error(err)
		if joined, ok := err.(interface{ Unwrap() []error }); ok && !opts.stopOnErr {
			return joined.Unwrap()[0]
		}
		return err
	}
	return ctxErr
''')],
 test='''
package slices_test

import (
	"context"
	"errors"
	"testing"

	"github.com/gostdlib/concurrency/prim/slices"
)

func TestDemo(t *testing.T) {
	errs := []error{errors.New("a"), errors.New("b"), errors.New("c")}
	err := slices.Access(context.Background(), []int{0, 1, 2}, func(_ context.Context, i int, _ int, _ slices.Modifier[int]) error {
		return errs[i]
	})
	for _, e := range errs {
		if !errors.Is(err, e) {
			t.Errorf("Access == %v does not match %v", err, e)
		}
	}
}
'''))

seeds.append(dict(id='chans-drains-after-error', property='C24', pkg='prim/chans',
 needs='WithStopOnErr, an accessor that fails and an input that gets more values afterwards',
 breaks='After a failure Access goes on receiving from its input in the background, and the values are given to no accessor.',
 edits=[('prim/chans/chans.go', '''	if err := wg.Wait(ctx); err != nil {
		spanner.Error(err)
		return err
	}
''', '''	if err := wg.Wait(ctx); err != nil {
		if opts.stopOnErr { // let the sender finish
			go func() {
				for range input {
				}
			}()
		}
		spanner.Error(err)
		return err
	}
''')],
 test='''
package chans_test

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/prim/chans"
)

func TestDemo(t *testing.T) {
	in := make(chan int)
	go func() { in <- 1 }()
	err := chans.Access(context.Background(), in, func(context.Context, int) error { return errors.New("bad") }, chans.WithStopOnErr())
	if err == nil {
		t.Fatal("no error")
	}
	select {
	case in <- 2:
		t.Error("a value was received after Access had returned")
	case <-time.After(200 * time.Millisecond):
	}
}
'''))

seeds.append(dict(id='rwvalue-in-place', property='C27', pkg='prim/atomics',
 needs='a Load of a value of several words while LoadReplace stores one',
 breaks='LoadReplace overwrites the value in place to save an allocation, so a reader can see half of the old value and half of the new one.',
 edits=[('prim/atomics/atomics.go', '''	r.v.Store(&n)
	return nil
''', '''	*v = n
	r.v.Store(v)
	return nil
''')],
 test='''
package atomics_test

import (
	"sync/atomic"
	"testing"

	"github.com/gostdlib/concurrency/prim/atomics"
)

type big [512]int

func TestDemo(t *testing.T) {
	v := &atomics.RWValue[big]{}
	v.Store(big{})
	var stop atomic.Bool
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 200000 && !stop.Load(); i++ {
			v.LoadReplace(func(b big) (big, error) {
				for j := range b {
					b[j]++
				}
				return b, nil
			})
		}
		stop.Store(true)
	}()
	for !stop.Load() {
		b := v.Load()
		for _, n := range b {
			if n != b[0] {
				stop.Store(true)
				t.Errorf("saw a value that was never stored: %d beside %d", b[0], n)
				break
			}
		}
	}
	<-done
}
'''))

seeds.append(dict(id='staged-close-unused', property='C32', pkg='pipelines/stagedpipe',
 needs='Pipelines that are closed without a Request ever having been submitted',
 breaks='The Close method of the StateMachine is not called when the Pipelines processed nothing.',
 edits=[(S, '''		close(p.out)
		p.sm.Close()
''', '''		close(p.out)
		if p.Stats().Completed > 0 { // nothing to stop if it never ran
			p.sm.Close()
		}
''')],
 test='''
package stagedpipe_test

import (
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

type sm struct{ closed chan struct{} }

func (s *sm) Start(r stagedpipe.Request[int]) stagedpipe.Request[int] { return r }
func (s *sm) Close()                                                  { close(s.closed) }

func TestDemo(t *testing.T) {
	s := &sm{closed: make(chan struct{})}
	p, err := stagedpipe.New[int]("demo", 1, s)
	if err != nil {
		t.Fatal(err)
	}
	p.Close()
	select {
	case <-s.closed:
	case <-time.After(5 * time.Second):
		t.Error("the StateMachine was not closed")
	}
}
'''))

seeds.append(dict(id='staged-avg-skips-failed', property='C44', pkg='pipelines/stagedpipe',
 needs='a Request that leaves with Err set',
 breaks='A failed Request is counted as completed but its duration is not added, so the average is too low.',
 edits=[(S, '''	p.stats.avgTotal.Add(int64(runTime))
''', '''	if r.Err == nil {
		p.stats.avgTotal.Add(int64(runTime))
	}
''')],
 test='''
package stagedpipe_test

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

type sm struct{}

func (s *sm) Start(r stagedpipe.Request[int]) stagedpipe.Request[int] {
	time.Sleep(20 * time.Millisecond)
	r.Err = errors.New("bad")
	return r
}
func (s *sm) Close() {}

func TestDemo(t *testing.T) {
	p, err := stagedpipe.New[int]("demo", 1, &sm{})
	if err != nil {
		t.Fatal(err)
	}
	g := p.NewRequestGroup()
	if err := g.Submit(stagedpipe.Request[int]{Ctx: context.Background()}); err != nil {
		t.Fatal(err)
	}
	<-g.Out()
	g.Close()
	if s := p.Stats(); s.Completed != 1 || s.Avg != s.Max || s.Avg == 0 {
		t.Errorf("one Request took %v, the average is %v", s.Max, s.Avg)
	}
	p.Close()
}
'''))

seeds.append(dict(id='staged-group-name-race', property='C46', pkg='pipelines/stagedpipe',
 needs='the first Submit calls of a group without a name, made at the same moment',
 breaks='The first Submit names the group while the others read its name: a data race on RequestGroup.Name.',
 edits=[(S, '''		if r.Name == "" {
			gName = "unnamed"
		}
''', '''		if r.Name == "" {
			r.Name = "unnamed"
			gName = r.Name
		}
''')], flags='-race',
 test='''
package stagedpipe_test

import (
	"context"
	"sync"
	"testing"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

type sm struct{}

func (s *sm) Start(r stagedpipe.Request[int]) stagedpipe.Request[int] { return r }
func (s *sm) Close()                                                  {}

func TestDemo(t *testing.T) {
	p, err := stagedpipe.New[int]("demo", 2, &sm{})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 50; i++ {
		g := p.NewRequestGroup()
		go func() {
			for range g.Out() {
			}
		}()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				g.Submit(stagedpipe.Request[int]{Ctx: context.Background()})
			}()
		}
		close(start)
		wg.Wait()
		g.Close()
	}
	p.Close()
}
'''))

seeds.append(dict(id='queue-pop-store', property='C41', pkg='pipelines/stagedpipe/internal/queue',
 needs='two Pop calls at the same moment',
 breaks='pop moves the head with a plain store when it looks unchanged, so two goroutines can pop one entry.',
 edits=[(Q, '''			if s.head.CompareAndSwap(h, n) {
				return n.val, true
			} else {
				continue
			}
''', '''			if s.head.Load() != h {
				continue
			}
			s.head.Store(n)
			return n.val, true
''')],
 test='''
package queue

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	const n = 300000
	q := New[int](0)
	seen := make([]atomic.Int64, n)
	for i := 0; i < n; i++ {
		q.Push(i)
	}
	q.Close()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				v, ok := q.Pop()
				if !ok {
					return
				}
				seen[v].Add(1)
			}
		}()
	}
	wg.Wait()
	for i := range seen {
		if c := seen[i].Load(); c != 1 {
			t.Fatalf("entry %d was popped %d times", i, c)
		}
	}
}
'''))

seeds.append(dict(id='cli-main-in-package', property='C43', pkg='pipelines/stagedpipe/tools/stagedpipe-cli/cmd',
 needs='the -m flag',
 breaks='main.go is written after the change of directory, so it ends up in the directory of the pipeline package, which then holds two packages.',
 edits=[('pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go', '''		if createMain {
			if err := os.WriteFile("main.go", mainBuff.Bytes(), 0o600); err != nil {
				return err
			}
		}

		if err := os.Chdir(path.Base(tArgs.PackagePath)); err != nil {
			return err
		}

		if err := os.WriteFile("data.go", dataBuff.Bytes(), 0o600); err != nil {
			return err
		}
''', '''		if err := os.Chdir(path.Base(tArgs.PackagePath)); err != nil {
			return err
		}

		files := map[string]*bytes.Buffer{"data.go": dataBuff}
		if createMain {
			files["main.go"] = mainBuff
		}
		for name, buff := range files {
			if err := os.WriteFile(name, buff.Bytes(), 0o600); err != nil {
				return err
			}
		}
''')],
 test='''
package cmd

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(old)
	rootCmd.SetArgs([]string{"init", "-m", "-p", "example.com/x/pipe"})
	if err := rootCmd.Execute(); err != nil {
		t.Fatal(err)
	}
	for _, f := range []string{"main.go", "pipe/data.go", "pipe/pipe.go"} {
		if _, err := os.Stat(filepath.Join(dir, f)); err != nil {
			t.Error(err)
		}
	}
	if _, err := os.Stat(filepath.Join(dir, "pipe/main.go")); err == nil {
		t.Error("main.go is in the directory of the package")
	}
}
'''))
