From 58be6a680edb5d7eeecbee9497998723644b68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 01/32] fix: limited.Pool holds a slot until its job has
 finished

Submit() released the slot when Submit() itself returned, so the pool never
limited the number of running jobs.
---
 goroutines/limited/goroutines.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..26a2f19 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -161,6 +160,9 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 	go func() {
 		defer p.wg.Done()
 		defer p.running.Add(-1)
+		if !opts.NonBlocking {
+			defer func() { <-p.queue }()
+		}
 		runner(ctx)
 	}()
 
-- 
2.43.0


From f5bac42d9360f78088082ec861f4b754cb49cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 02/32] fix: pooled.NonBlocking no longer parks a job behind
 busy goroutines

The queue had a buffer of one, so a NonBlocking job could be put in the buffer
while every goroutine was busy instead of getting its own goroutine.
---
 goroutines/pooled/goroutines.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..4828d39 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -47,7 +47,8 @@ func New(name string, size int) (*Pool, error) {
 		return nil, err
 	}
 
-	ch := make(chan submit, 1)
+	// Unbuffered, so that a job is only handed to a goroutine that is ready to run it.
+	ch := make(chan submit)
 	p := &Pool{name: name, queue: ch}
 	for i := 0; i < size; i++ {
 		go p.runner()
-- 
2.43.0


From a89edfbfee73ea331854a3bea097cc152ff2bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 03/32] fix: Pool.Len returns the size of the pool

It returned the number of queued entries instead.
---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 26a2f19..4ba710e 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 4828d39..a3fc7e0 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -30,6 +30,7 @@ type Pool struct {
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
 	name      string
+	size      int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -49,7 +50,7 @@ func New(name string, size int) (*Pool, error) {
 
 	// Unbuffered, so that a job is only handed to a goroutine that is ready to run it.
 	ch := make(chan submit)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -79,7 +80,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From 2e5a9aef984cbec84111facb606df9c72724319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 04/32] fix: creating three pools with the same name no longer
 hangs

New() asked for the name after the base name on every retry, so it retried
name-1 forever, and NewName() could not increment a name it had made.
---
 goroutines/internal/register/register.go | 2 +-
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..e05f045 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -60,7 +60,7 @@ func NewName(name string) string {
 		return name + "-1"
 	}
 
-	sp := strings.SplitAfter(name, "-")
+	sp := strings.Split(name, "-")
 	n, err := strconv.Atoi(sp[1])
 	if err != nil {
 		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 4ba710e..560da3e 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index a3fc7e0..a0c1454 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -57,7 +57,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From a41416e0b5a32a0f3598b31c605cf78bf1170584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 05/32] fix: register.Pools ends and does not hold the lock
 while sending

The channel was never closed, and a consumer that stopped reading left the
registry locked, so that no pool could be created or closed any more.
---
 goroutines/internal/register/register.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index e05f045..5650907 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -72,13 +72,13 @@ func NewName(name string) string {
 
 // Pools returns all pools registered by this package. Order is non-deterministic.
 func Pools() chan goroutines.Pool {
-	ch := make(chan goroutines.Pool, 1)
-	go func() {
-		mu.RLock()
-		defer mu.RUnlock()
-		for _, p := range registry {
-			ch <- p
-		}
-	}()
+	mu.RLock()
+	defer mu.RUnlock()
+
+	ch := make(chan goroutines.Pool, len(registry))
+	for _, p := range registry {
+		ch <- p
+	}
+	close(ch)
 	return ch
 }
-- 
2.43.0


From caed6b54a9d78926aee83e2772f5e1aa2cba7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 06/32] fix: Errors.Error and Errors.Errors take the lock

Both read the list without the mutex that Record writes it under, and Errors
handed out the list that Record keeps appending to.
---
 goroutines/goroutines.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..ef777cf 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,8 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From cd0a68fa4a8d23317a4ec3f43f804a647099668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 07/32] fix: RWValue.LoadReplace works on a value that was
 never stored

It called the LoadReplacer with the zero value and then dereferenced nil.
---
 prim/atomics/atomics.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..c4e89cd 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -48,16 +48,10 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	defer r.mu.Unlock()
 
 	v := r.v.Load()
-	var n T
-	var err error
 	if v == nil {
-		var zero T
-		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
+		v = new(T)
 	}
-	n, err = lr(*v)
+	n, err := lr(*v)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 29f37e30f95a30b68e0cc68b61949e1c663ac809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 08/32] fix: wait.Group keeps every error instead of only the
 last one

applyErr wrapped the new error in itself and dropped the existing one.
---
 prim/wait/wait.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..dcb25db 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -250,8 +251,8 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			joined := errors.Join(*existing, err)
+			if ptr.CompareAndSwap(existing, &joined) {
 				return
 			}
 		}
-- 
2.43.0


From f55b633ea0c1af3e5eb1a69df6116741d1e042d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 09/32] fix: wait.Group no longer decrements its counter after
 Wait returned

Deferred calls run last to first, so the WaitGroup was released before the
counter was decremented; Wait could reset the counter to 0 in between and
Running() was -1 from then on.
---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index dcb25db..a2d1d92 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -124,8 +124,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -146,8 +146,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From 699a4de6a34d1ef095a7c8f97a46044d8bf7429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 10/32] fix: wait.Group.Wait no longer hangs when the Pool
 refuses a function

The error of Pool.Submit was dropped after the WaitGroup had been incremented.
---
 prim/wait/wait.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index a2d1d92..7e7609a 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -143,7 +143,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	}
 
 	w.wg.Add(1)
-	w.Pool.Submit(
+	err := w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
 			defer w.wg.Done()
@@ -163,6 +163,12 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 		},
 		w.PoolOptions...,
 	)
+	if err != nil {
+		// The Pool refused the function, it will never run.
+		applyErr(&w.errors, err)
+		w.count.Add(-1)
+		w.wg.Done()
+	}
 }
 
 // Running returns the number of goroutines that are currently running.
-- 
2.43.0


From d5ccf240c224d69adbe1dc023650abd25ea5c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 11/32] fix: wait.Group ends the span it starts

The span was never ended, so it was never exported, and a reused Group kept
recording on it.
---
 prim/wait/wait.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 7e7609a..1c68a20 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -84,6 +84,7 @@ type Group struct {
 func (w *Group) reset() {
 	w.start = time.Time{}
 	w.otelOnce = sync.Once{}
+	w.span = span.Span{}
 	w.count.Store(0)
 	w.total.Store(0)
 	w.errors.Store(nil)
@@ -194,6 +195,9 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		if w.span.Span != nil {
+			w.span.End()
+		}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From 549c25d02e492594e272ed843837868e8fbbd611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 12/32] fix: wait.Group runs its functions with the Group's
 span in the Context

The result of trace.ContextWithSpan was dropped.
---
 prim/wait/wait.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 1c68a20..6d5b07b 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -116,7 +116,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	t := time.Now().UTC()
 	if w.span.Span != nil {
 		w.span.Event("Go", "start", t)
-		trace.ContextWithSpan(ctx, w.span.Span)
+		ctx = trace.ContextWithSpan(ctx, w.span.Span)
 	}
 
 	w.count.Add(1)
-- 
2.43.0


From b3ce036b263008274586bb044a0e84fd821b645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 13/32] fix: the options of slices.Access work

ApplyOptions was given a pointer to a pointer, which every option refuses, and
WithPoolOptions dropped the pool.
---
 prim/slices/options.go | 1 +
 prim/slices/slice.go   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..8d9cfa9 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -45,7 +45,7 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	spanner := span.Get(ctx)
 
 	opts := &sliceOptions{}
-	if err := calloptions.ApplyOptions(&opts, options); err != nil {
+	if err := calloptions.ApplyOptions(opts, options); err != nil {
 		return err
 	}
 
-- 
2.43.0


From a5a226e183e6b53d3b5632814959b20c71d3ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 14/32] fix: chans.WithPoolOptions uses the given pool

---
 prim/chans/options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
-- 
2.43.0


From 633ea330e270bbaa3fab9b87909e25e43bb70450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 15/32] fix: slices.Access waits for its accessors and keeps
 their errors on cancel

It returned the Context's error at once, with accessors of a caller's pool
still running, and hiding the error that made WithStopOnErr cancel.
---
 prim/slices/slice.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index 8d9cfa9..9ceea9e 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -69,11 +69,12 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	var ctxErr error
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if ctxErr = ctx.Err(); ctxErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -87,5 +88,5 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return ctxErr
 }
-- 
2.43.0


From e428b022591f79c4983bc931ad7ffcbc602e9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 16/32] fix: chans.Access waits for its accessors and keeps
 their errors on cancel

It returned the Context's error at once, with accessors of a caller's pool
still running (Modify then closed the output they send on), and hiding the
error that made WithStopOnErr cancel.
---
 prim/chans/chans.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..245f6a4 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -131,11 +131,12 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	var ctxErr error
 	for v := range input {
 		v := v
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if ctxErr = ctx.Err(); ctxErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -152,7 +153,7 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return ctxErr
 }
 
 // StreamResult is a result from a Stream operation.
-- 
2.43.0


From c0dadfe422fb6ecb19f4edeac2fd8c2609b264ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 17/32] fix: chans.Access returns on cancel while the input is
 idle

It looked at the Context only after receiving a value.
---
 prim/chans/chans.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 245f6a4..b542a85 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -132,10 +132,14 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
 	var ctxErr error
-	for v := range input {
-		v := v
-
-		if ctxErr = ctx.Err(); ctxErr != nil {
+	for {
+		var v T
+		ok := false
+		select {
+		case <-ctx.Done():
+		case v, ok = <-input:
+		}
+		if ctxErr = ctx.Err(); ctxErr != nil || !ok {
 			break
 		}
 
-- 
2.43.0


From 7a0cd2d255d35fd5825557578e256b23c18215c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 18/32] fix: chans.Modify does not stay blocked on its output
 after a cancel

Only the send of an error watched the Context.
---
 prim/chans/chans.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index b542a85..161fc5c 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -201,7 +201,11 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 			}
 			return err
 		}
-		output <- StreamResult[R]{Value: r}
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case output <- StreamResult[R]{Value: r}:
+		}
 		return nil
 	}
 
-- 
2.43.0


From 9cc38e5c9a543383e40b5c830596b252e1c30b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 19/32] fix: chans.Modify returns the Modifier's error even
 when cancelled

It returned the Context's error instead when the result could not be sent.
---
 prim/chans/chans.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 161fc5c..b1d34f9 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -196,7 +196,6 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 		if err != nil {
 			select {
 			case <-ctx.Done():
-				return ctx.Err()
 			case output <- StreamResult[R]{Err: err}:
 			}
 			return err
-- 
2.43.0


From 7ccd620495bf64360638b6fe43cdd8c35dfbd819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 20/32] fix: Pipelines.Close closes the StateMachine

Nothing ever decremented the Pipelines WaitGroup for a Request that was
processed, so after a single Request the goroutine started by Close waited
for ever: StateMachine.Close was not called and the output was not closed.
---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..5f0e473 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -611,6 +611,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		go func() {
 			defer r.ordered.Close()
 			for req := range r.out {
+				r.p.wg.Done()
 				r.wg.Done()
 				req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
@@ -622,6 +623,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		go func() {
 			defer close(r.user)
 			for req := range r.out {
+				r.p.wg.Done()
 				r.wg.Done()
 				req.otelEnd()
 				r.user <- req
-- 
2.43.0


From 3ea8b447d25b232573937209fffbcd4639d576b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 21/32] fix: an ordered RequestGroup is not stuck after a
 cancelled Submit

A Submit that returned the Context's error had used up an item number, so
every later Request was held back waiting for it and never came out.
---
 pipelines/stagedpipe/stagedpipe.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 5f0e473..966df41 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -496,6 +496,9 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
+	// submitMu is held in Submit() if the output is ordered, so that an item number
+	// whose Request is not accepted can be given back.
+	submitMu sync.Mutex
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -539,6 +542,11 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		r.otelStart()
 	})
 
+	if r.ordered != nil {
+		r.submitMu.Lock()
+		defer r.submitMu.Unlock()
+	}
+
 	req.groupNum = r.id
 	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 	req.queueTime = time.Now()
@@ -555,6 +563,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	select {
 	case <-req.Ctx.Done():
+		if r.ordered != nil {
+			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.
+		}
 		r.p.wg.Done()
 		r.wg.Done()
 		return req.Ctx.Err()
-- 
2.43.0


From db76197f67d94736761d6be8bf5c83281705ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 22/32] fix: DAG tracking of a Request does not leak into other
 Requests

The deferred reset changed a local copy only, so a delivered Request kept its
tracking object after it had gone back to the pool. Submitting it to Pipelines
without the DAG option made them report cyclic errors from an object that
other Requests were using. A stage returning a new Request put nil in the pool.
---
 pipelines/stagedpipe/stagedpipe.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 966df41..03faa4a 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -547,6 +547,7 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		defer r.submitMu.Unlock()
 	}
 
+	req.seenStages = nil // A Request that was in another Pipelines still refers to its own.
 	req.groupNum = r.id
 	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 	req.queueTime = time.Now()
@@ -740,11 +741,9 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
 	if p.ss {
-		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
-		defer func() {
-			seenStagesPool.Put(r.seenStages)
-			r.seenStages = nil
-		}()
+		seen := seenStagesPool.Get().(*seenStages).reset()
+		r.seenStages = seen
+		defer seenStagesPool.Put(seen)
 	}
 
 	p.stats.running.Add(1)
-- 
2.43.0


From b476ee9e41660f92e90d0cb01804c9a983e526f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 23/32] fix: a stage's span is ended and the Request's span is
 restored

The deferred restore changed a local copy only, so each stage ran in a child
of the previous stage's Context, no stage span was ended, and at the end the
last stage's span was ended in place of the Request's.
---
 pipelines/stagedpipe/stagedpipe.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 03faa4a..252e182 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -771,20 +771,24 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (out Request[T]) {
 	stageName := methodName(stage)
 
 	parentCtx := r.Ctx
 	parentSpan := r.span
 	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
+		out.Ctx = parentCtx
+		out.span = parentSpan
 	}()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	stageSpan := r.span
 
 	r.Event(stageName, "start", time.Now())
 	defer func() {
-		r.Event(stageName, "end", time.Now())
+		if stageSpan.IsRecording() {
+			stageSpan.Event(stageName, "end", time.Now())
+			stageSpan.End()
+		}
 	}()
 
 	// If the context has been cancelled, stop processing.
-- 
2.43.0


From f3d8f132d864e8734c4fcd5a8ddc71a920aa0252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 24/32] fix: end the spans of a RequestGroup and of a rejected
 Request

---
 pipelines/stagedpipe/stagedpipe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 252e182..a3a1d1d 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -567,6 +567,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		if r.ordered != nil {
 			r.itemNum.Add(^uint64(0)) // Give the number back, a gap would block the output.
 		}
+		if req.span.IsRecording() {
+			req.span.End()
+		}
 		r.p.wg.Done()
 		r.wg.Done()
 		return req.Ctx.Err()
@@ -597,6 +600,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
-- 
2.43.0


From 775f884784110af19e2d875014e70f110a2e9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 25/32] fix: RequestGroups can be created and closed
 concurrently

The demuxer's default copy-on-write map is not locked on removal, so closing
one RequestGroup could undo the registration of another, and the program died
with 'bug: received ... and got demux error'.
---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index a3a1d1d..5555906 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -405,6 +405,8 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		func(r Request[T], err error) {
 			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
 		},
+		// The default, copy on write, loses receivers added while another is removed.
+		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e927924fc302fd4b88d2d031b8fb38c51fedefcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 26/32] fix: Stats.Min and IngestStats.Min are not always 0

---
 pipelines/stagedpipe/stats.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..c8d258a 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,6 +1,7 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
@@ -34,14 +35,27 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	// So that the first duration recorded is a new minimum, see minDuration().
+	s.min.Store(math.MaxInt64)
+	s.ingestStats.min.Store(math.MaxInt64)
+	return s
+}
+
+// minDuration returns the minimum held in min or 0 if none was recorded.
+func minDuration(min *atomic.Int64) time.Duration {
+	v := min.Load()
+	if v == math.MaxInt64 {
+		return 0
+	}
+	return time.Duration(v)
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       minDuration(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +83,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: minDuration(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
-- 
2.43.0


From 6cf32b5d98577ea220a8383e74fc1dd65835ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 27/32] fix: Queue.Pop does not miss an entry pushed before
 Close

---
 pipelines/stagedpipe/internal/queue/queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..f66b4ae 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -59,12 +59,16 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 	var s time.Duration
 	for {
+		// This must be read before looking for an entry, otherwise we can miss an entry
+		// pushed before Close() was called.
+		closed := q.closed.Load()
+
 		a, ok := q.queue.pop()
 		if ok {
 			return a, ok
 		}
 
-		if q.closed.Load() {
+		if closed {
 			return a, ok
 		}
 
-- 
2.43.0


From 077a6bcfe289960756c7886d4f9323e5560e4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 28/32] fix: stagedpipe.New leaves no goroutine behind when it
 fails

---
 pipelines/stagedpipe/stagedpipe.go | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 5555906..85266eb 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -397,21 +397,6 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 	out := make(chan Request[T], 1)
 	stats := newStats()
 
-	d, err := demux.New(
-		out,
-		func(r Request[T]) uint64 {
-			return r.groupNum
-		},
-		func(r Request[T], err error) {
-			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
-		},
-		// The default, copy on write, loses receivers added while another is removed.
-		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
-	)
-	if err != nil {
-		return nil, err
-	}
-
 	p := &Pipelines[T]{
 		name:  name,
 		in:    in,
@@ -419,7 +404,6 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		wg:    &sync.WaitGroup{},
 		sm:    sm,
 		stats: stats,
-		demux: d,
 		preProcessors: []PreProcesor[T]{
 			resetNext[T],
 		},
@@ -455,6 +439,24 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 	}
 	p.pipelines = pipelines
 
+	// This starts goroutines, so it must come after everything that can fail above.
+	var err error
+	p.demux, err = demux.New(
+		out,
+		func(r Request[T]) uint64 {
+			return r.groupNum
+		},
+		func(r Request[T], err error) {
+			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
+		},
+		// The default, copy on write, loses receivers added while another is removed.
+		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
+	)
+	if err != nil {
+		close(in)
+		return nil, err
+	}
+
 	return p, nil
 }
 
-- 
2.43.0


From e222f02e2c305169838798e44d4b785ac7ab5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 29/32] fix: a Context set by a stage is kept

Follows b476ee9: only the span in the Context is put back.
---
 pipelines/stagedpipe/stagedpipe.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 85266eb..c1b4168 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -87,6 +87,7 @@ import (
 	"github.com/johnsiilver/dynamics/demux"
 	"github.com/johnsiilver/dynamics/method"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
 
 	"github.com/gostdlib/internals/otel/span"
 
@@ -784,18 +785,24 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (out Request[T]) {
 
 	parentCtx := r.Ctx
 	parentSpan := r.span
-	defer func() {
-		out.Ctx = parentCtx
-		out.span = parentSpan
-	}()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	stageCtx := r.Ctx
 	stageSpan := r.span
 
 	r.Event(stageName, "start", time.Now())
 	defer func() {
-		if stageSpan.IsRecording() {
-			stageSpan.Event(stageName, "end", time.Now())
-			stageSpan.End()
+		out.span = parentSpan
+		if !stageSpan.IsRecording() {
+			return
+		}
+		stageSpan.Event(stageName, "end", time.Now())
+		stageSpan.End()
+
+		switch out.Ctx {
+		case stageCtx, nil:
+			out.Ctx = parentCtx
+		default: // The stage changed the Context, we only change the span.
+			out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
 		}
 	}()
 
-- 
2.43.0


From 368c5ba548bd77f95659f4b9b11f3405d26efb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 30/32] fix: give Start the name it has as a Stage, so that
 DAG() notices a return to it

The first stage was noted as StateMachine[...].Start, the name of the
interface's method, but a stage that sets Next to its own Start is noted as
(*T).Start. With DAG() Start was therefore called twice before the cycle was
noticed.
---
 pipelines/stagedpipe/stagedpipe.go | 31 +++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index c1b4168..b8bc0dd 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -667,6 +667,7 @@ type pipeline[T any] struct {
 	in            chan Request[T]
 	out           chan Request[T]
 	name          string
+	startName     string
 	preProcessors []PreProcesor[T]
 	id            int
 	concurrency   int
@@ -701,6 +702,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		sm:            args.sm,
 		ss:            args.ss,
 		delayWarning:  args.delayWarning,
+		startName:     startName(args.sm),
 	}
 
 	p.concurrency = numStages[T](args.sm) + args.subStages
@@ -763,13 +765,13 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 	// Loop through all our states starting with p.sms[0].Start until we
 	// get either an error or the Request.Next == nil
 	// which indicates that the statemachine is done processing.
-	stage := p.sm.Start
+	stage, name := Stage[T](p.sm.Start), p.startName
 	for {
-		r = p.execStage(r, stage)
+		r = p.execStage(r, stage, name)
 		if r.Err != nil {
 			return r
 		}
-		stage = r.Next
+		stage, name = r.Next, methodName(r.Next)
 		r.Next = nil
 
 		if stage == nil {
@@ -780,9 +782,7 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (out Request[T]) {
-	stageName := methodName(stage)
-
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (out Request[T]) {
 	parentCtx := r.Ctx
 	parentSpan := r.span
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
@@ -813,7 +813,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (out Request[T]) {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(stageName) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -849,6 +849,23 @@ func numStages[T any](sm any) int {
 	return count
 }
 
+// startName returns the name that methodName() gives the Start method when the StateMachine uses it as a Stage.
+// methodName() itself would give our p.sm.Start the name of the interface's method.
+func startName(sm any) string {
+	t := reflect.TypeOf(sm)
+	if t.Kind() == reflect.Pointer {
+		// A method with a value receiver has the name of the value's method.
+		if _, ok := t.Elem().MethodByName("Start"); ok {
+			t = t.Elem()
+		}
+	}
+	m, ok := t.MethodByName("Start")
+	if !ok {
+		return "Start"
+	}
+	return methodName(m.Func.Interface())
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From a137ae6db9fac90ea4b9080325afacf78fabc75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 31/32] fix: a stage span that is not sampled does not stay in
 the Request's Context

---
 pipelines/stagedpipe/stagedpipe.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index b8bc0dd..4c78316 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -785,6 +785,8 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string) (out Request[T]) {
 	parentCtx := r.Ctx
 	parentSpan := r.span
+	// A child of a recording span is a new span, that a Sampler can make not recording.
+	newSpan := span.Get(r.Ctx).IsRecording()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
 	stageCtx := r.Ctx
 	stageSpan := r.span
@@ -792,11 +794,13 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T], stageName string)
 	r.Event(stageName, "start", time.Now())
 	defer func() {
 		out.span = parentSpan
-		if !stageSpan.IsRecording() {
+		if !newSpan {
 			return
 		}
-		stageSpan.Event(stageName, "end", time.Now())
-		stageSpan.End()
+		if stageSpan.IsRecording() {
+			stageSpan.Event(stageName, "end", time.Now())
+			stageSpan.End()
+		}
 
 		switch out.Ctx {
 		case stageCtx, nil:
-- 
2.43.0


From 838c08c0eb258d730616e5e3d98966064584f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 32/32] fix: the CLI names the StateMachine's file so that the
 go tool builds it

---
 .../stagedpipe/tools/stagedpipe-cli/cmd/init.go      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
index f6280b6..19c6eee 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
@@ -8,6 +8,7 @@ import (
 	_ "embed"
 	"os"
 	"path"
+	"strings"
 	"text/template"
 
 	"github.com/spf13/cobra"
@@ -101,13 +102,22 @@ If you do not need a main.go, you can simply remove the "-m" from the command.`,
 			return err
 		}
 
-		if err := os.WriteFile(path.Base(tArgs.PackagePath)+".go", pipeBuff.Bytes(), 0o600); err != nil {
+		if err := os.WriteFile(pipelineFile(tArgs.PackageName), pipeBuff.Bytes(), 0o600); err != nil {
 			return err
 		}
 		return nil
 	},
 }
 
+// pipelineFile is the name of the file that holds the StateMachine. It is named after the package, unless that
+// is the name of the file with the data or the go tool might ignore a file of that name, such as x_test.go.
+func pipelineFile(pkg string) string {
+	if pkg == "data" || strings.Contains(pkg, "_") {
+		return "pipeline.go"
+	}
+	return pkg + ".go"
+}
+
 func init() {
 	template.Must(tmpls.New("data").Parse(dataTmpl))
 	template.Must(tmpls.New("pipeline").Parse(pipelineTmpl))
-- 
2.43.0

