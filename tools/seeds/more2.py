W = 'prim/wait/wait.go'
seeds = []

seeds.append(dict(id='wait-counts-at-start', property='C47', pkg='prim/wait',
 needs='a Pool without a free goroutine, and Running called while the function waits for one',
 breaks='With a Pool that is given options, a function is counted by Running only when the Pool gets to it, so one that was handed to the Pool is missing.',
 edits=[(W, '''	w.count.Add(1)
	w.total.Add(1)

	if w.Pool == nil {
		w.wg.Add(1)
''', '''	// A Pool with options may keep a function for a while, it is not running then.
	later := w.Pool != nil && len(w.PoolOptions) > 0
	if !later {
		w.count.Add(1)
	}
	w.total.Add(1)

	if w.Pool == nil {
		w.wg.Add(1)
'''), (W, '''		func(ctx context.Context) {
			defer w.wg.Done()
			defer w.count.Add(-1)
''', '''		func(ctx context.Context) {
			if later {
				w.count.Add(1)
			}
			defer w.wg.Done()
			defer w.count.Add(-1)
''')],
 test='''
package wait_test

import (
	"context"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/prim/wait"
)

func TestDemo(t *testing.T) {
	pool, err := limited.New("verifcounted", 1)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Close()
	ctx := context.Background()
	rel := make(chan struct{})
	g := wait.Group{Pool: pool, PoolOptions: []goroutines.SubmitOption{limited.Caller("me")}}
	started := make(chan struct{})
	g.Go(ctx, func(context.Context) error { close(started); <-rel; return nil })
	<-started
	in := make(chan struct{})
	over := make(chan struct{})
	go func() {
		defer close(over)
		close(in)
		g.Go(ctx, func(context.Context) error { return nil })
	}()
	<-in
	n := 0
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if n = g.Running(); n == 2 {
			break
		}
	}
	time.Sleep(50 * time.Millisecond)
	n = g.Running()
	close(rel)
	if n != 2 {
		t.Errorf("Running() = %d with one function running and one handed to the Pool", n)
	}
	<-over
	if err := g.Wait(ctx); err != nil {
		t.Error(err)
	}
}
'''))

seeds.append(dict(id='wait-overflows-pool', property='C48', pkg='prim/wait',
 needs='a Pool on which twice as many functions run or wait as it has places, so several concurrent Go calls or other users of the Pool',
 breaks='When a Pool is overloaded, functions are run in goroutines of their own beside the Pool, so its limit does not hold for them.',
 edits=[(W, '''	if w.Pool == nil {
		w.wg.Add(1)
''', '''	// Do not pile up on a Pool that has more to do than it can.
	if w.Pool == nil || w.Pool.Running() > 2*w.Pool.Len() {
		w.wg.Add(1)
''')],
 test='''
package wait_test

import (
	"context"
	"testing"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/prim/wait"
)

// counting counts what is submitted and looks busy.
type counting struct {
	*limited.Pool
	submits int
}

func (c *counting) Submit(ctx context.Context, job goroutines.Job, o ...goroutines.SubmitOption) error {
	c.submits++
	return c.Pool.Submit(ctx, job, o...)
}

func TestDemo(t *testing.T) {
	lp, err := limited.New("verifoverflow", 1)
	if err != nil {
		t.Fatal(err)
	}
	defer lp.Close()
	pool := &counting{Pool: lp}
	ctx := context.Background()
	rel := make(chan struct{})
	// Other users keep the pool busy.
	for i := 0; i < 4; i++ {
		if err := lp.Submit(ctx, func(context.Context) { <-rel }, limited.NonBlocking()); err != nil {
			t.Fatal(err)
		}
	}
	g := wait.Group{Pool: pool}
	g.Go(ctx, func(context.Context) error { return nil })
	close(rel)
	if err := g.Wait(ctx); err != nil {
		t.Fatal(err)
	}
	if pool.submits != 1 {
		t.Errorf("the Group gave %d functions to its Pool, not 1", pool.submits)
	}
}
'''))
