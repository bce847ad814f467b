A="prim/atomics/atomics.go"
Q="pipelines/stagedpipe/internal/queue/queue.go"
LR="""	r.mu.Lock()
	defer r.mu.Unlock()

	v := r.v.Load()
	if v == nil {
		v = new(T)
	}
	n, err := lr(*v)
	if err != nil {
		return err
	}
	r.v.Store(&n)
	return nil
"""
def lr(n): return [(A,LR,n)]
POPLOOP="""		h := s.head.Load()
		n := h.next.Load()
		if n != nil {
			if s.head.CompareAndSwap(h, n) {
				return n.val, true
			} else {
				continue
			}
		} else {
			var v A
			return v, false
		}
"""
DEF="""	defer func() {
		if q.limit != nil {
			select {
			case <-q.limit:
			default:
				// Normally when you have a limiter, you don't need a select{}, its
				// 1 for 1. In this case a Pop() can be called when Close() has been called.
				// If you don't have a default, this blocks forever.
			}
		}
	}()

"""
M=[
("lr-inplace","C27",lr(LR.replace("	r.v.Store(&n)\n","	*v = n\n	r.v.Store(v)\n"))),
("lr-inplace2","C27",lr(LR.replace("	r.v.Store(&n)\n","	if old := r.v.Load(); old != nil {\n		*old = n\n		return nil\n	}\n	r.v.Store(&n)\n"))),
("lr-nolock","C26",lr(LR.replace("	r.mu.Lock()\n	defer r.mu.Unlock()\n",""))),
("lr-loadfirst","C26",lr("	v := r.v.Load()\n"+LR.replace("	v := r.v.Load()\n",""))),
("lr-unlockcall","C26",lr(LR.replace("	defer r.mu.Unlock()\n","").replace("	n, err := lr(*v)\n","	r.mu.Unlock()\n	n, err := lr(*v)\n	r.mu.Lock()\n	defer r.mu.Unlock()\n"))),
("lr-errleak","C26",lr(LR.replace("	defer r.mu.Unlock()\n","").replace("	return nil\n","	r.mu.Unlock()\n	return nil\n"))),
("lr-storeerr","C26",lr(LR.replace("	if err != nil {\n		return err\n	}\n	r.v.Store(&n)\n	return nil\n","	r.v.Store(&n)\n	return err\n"))),
("lr-twice","C26",lr(LR.replace("	if err != nil {\n		return err","	if err != nil {\n		n, err = lr(*v)\n	}\n	if err != nil {\n		return err"))),
("lr-cas","C26",lr(LR.replace("	r.mu.Lock()\n	defer r.mu.Unlock()\n","").replace("	r.v.Store(&n)\n","	r.v.CompareAndSwap(v, &n)\n"))),
("lr-noerr","C26",lr(LR.replace("		return err\n","		return nil\n"))),
("lr-zero","C26",lr(LR.replace("lr(*v)","lr(*new(T))"))),
("store-nolock","C26",[(A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n	r.v.Store(&v)","	r.v.Store(&v)")]),
("store-unlockfirst","C26",[(A,"	defer r.mu.Unlock()\n	r.v.Store(&v)","	r.mu.Unlock()\n	r.v.Store(&v)")]),
("store-inplace","C27",[(A,"	r.v.Store(&v)\n","	if p := r.v.Load(); p != nil {\n		*p = v\n		return\n	}\n	r.v.Store(&v)\n")]),
("load-lock","C27",[(A,"	v := r.v.Load()\n	if v == nil {\n		var zero","	r.mu.Lock()\n	defer r.mu.Unlock()\n	v := r.v.Load()\n	if v == nil {\n		var zero")]),
("twomutex","C26",[(A,"	mu sync.Mutex\n","	mu, mu2 sync.Mutex\n"),(A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n	r.v.Store(&v)","	r.mu2.Lock()\n	defer r.mu2.Unlock()\n	r.v.Store(&v)")]),
("b-lr-load","",lr("	r.mu.Lock()\n	defer r.mu.Unlock()\n\n	n, err := lr(r.Load())\n	if err == nil {\n		r.v.Store(&n)\n	}\n	return err\n")),
("b-lr-explicit","",lr(LR.replace("	defer r.mu.Unlock()\n","").replace("	if err != nil {\n		return err","	if err != nil {\n		r.mu.Unlock()\n		return err").replace("	return nil\n","	r.mu.Unlock()\n	return nil\n"))),
("b-lr-helper","",lr("	r.mu.Lock()\n	defer r.mu.Unlock()\n\n	return r.replace(lr)\n")+[(A,"// LoadReplacer is","func (r *RWValue[T]) replace(lr LoadReplacer[T]) error {\n	cur := r.v.Load()\n	var in T\n	if cur != nil {\n		in = *cur\n	}\n	n, err := lr(in)\n	if err != nil {\n		return err\n	}\n	r.set(n)\n	return nil\n}\n\nfunc (r *RWValue[T]) set(v T) {\n	r.v.Store(&v)\n}\n\n// LoadReplacer is"),(A,"	r.v.Store(&v)\n}\n\nfunc (r","	r.set(v)\n}\n\nfunc (r")]),
("b-store-new","",[(A,"	r.v.Store(&v)\n","	p := new(T)\n	*p = v\n	r.v.Store(p)\n")]),
("b-store-copy","",[(A,"	r.v.Store(&v)\n","	nv := v\n	r.v.Store(&nv)\n")]),
("b-rwmutex","",[(A,"mu sync.Mutex","mu sync.RWMutex")]),
("b-load","",[(A,"	v := r.v.Load()\n	if v == nil {\n		var zero T\n		return zero\n	}\n	return *v\n","	if v := r.v.Load(); v != nil {\n		return *v\n	}\n	return *new(T)\n")]),
# queue
("q-closedlate","C41",[(Q,"		closed := q.closed.Load()\n",""),(Q,"		if closed {","		if q.closed.Load() {")]),
("q-pushstore","C41",[(Q,"			s.tail.Store(n)\n			return","			s.tail.CompareAndSwap(rt, n.next.Load())\n			return")]),
("q-tailfirst","C41",[(Q,"		if rt.next.CompareAndSwap(nil, n) {\n			s.tail.Store(n)\n			return","		s.tail.Store(n)\n		if rt.next.CompareAndSwap(nil, n) {\n			return")]),
("q-nextstore","C41",[(Q,"		if rt.next.CompareAndSwap(nil, n) {\n			s.tail.Store(n)\n			return\n		} else {\n			continue\n		}","		if rt.next.Load() == nil {\n			rt.next.Store(n)\n			s.tail.Store(n)\n			return\n		}")]),
("q-popstore","C41",[(Q,"			if s.head.CompareAndSwap(h, n) {\n				return n.val, true\n			} else {\n				continue\n			}","			s.head.Store(n)\n			return n.val, true")]),
("q-hval","C41",[(Q,"return n.val, true","return h.val, true")]),
("q-nocas","C41",[(Q,"			if s.head.CompareAndSwap(h, n) {\n				return n.val, true\n			} else {\n				continue\n			}","			s.head.CompareAndSwap(h, n)\n			return n.val, true")]),
("q-reread","C41",[(Q,"			if s.head.CompareAndSwap(h, n) {\n				return n.val, true","			if s.head.CompareAndSwap(h, n) {\n				return s.head.Load().val, true")]),
("q-staletail","C42",[(Q,"	for {\n		rt := s.tail.Load()\n","	rt := s.tail.Load()\n	for {\n")]),
("q-stalehead","C41",[(Q,"	for {\n		h := s.head.Load()\n","	h := s.head.Load()\n	for {\n")]),
("q-notails","C41",[(Q,"			s.tail.Store(n)\n","")]),
("q-valafter","C41",[(Q,"n := &node[A]{val: val}","n := &node[A]{}"),(Q,"			s.tail.Store(n)\n","			n.val = val\n			s.tail.Store(n)\n")]),
("q-head2","C41",[(Q,"	s.tail.Store(s.head.Load())","	s.tail.Store(&node[A]{})")]),
("q-popearly","C41",[(Q,"		if closed {\n			return a, ok","		if closed || s > time.Second {\n			return a, ok"),(Q,"		if s > 10*time.Millisecond {\n			s = 10 * time.Millisecond\n		}\n","")]),
("q-drop","C41",[(Q,"	q.queue.push(a)","	if !q.closed.Load() {\n		q.queue.push(a)\n	}")]),
("q-size","C42",[(Q,"make(chan struct{}, size)","make(chan struct{}, size+1)")]),
("q-size1","C42",[(Q,"	if size > 0 {","	if size > 1 {")]),
("q-sizeneg","C42",[(Q,"	if size > 0 {","	if size >= 0 {")]),
("q-pushafter","C42",[(Q,"	if q.limit != nil {\n		q.limit <- struct{}{}\n	}\n	q.queue.push(a)","	q.queue.push(a)\n	if q.limit != nil {\n		q.limit <- struct{}{}\n	}")]),
("q-relfirst","C42",[(Q,DEF,DEF.replace("defer func() {","func() {"))]),
("q-block","C42",[(Q,DEF,"	defer func() {\n		if q.limit != nil {\n			<-q.limit\n		}\n	}()\n\n")]),
("q-norel","C42",[(Q,DEF,"")]),
("q-trysend","C42",[(Q,"		q.limit <- struct{}{}\n","		select {\n		case q.limit <- struct{}{}:\n		default:\n		}\n")]),
("q-rel2","C42",[(Q,"			return a, ok\n		}\n\n		if closed","			if q.limit != nil && cap(q.limit) > 1 {\n				select {\n				case <-q.limit:\n				default:\n				}\n			}\n			return a, ok\n		}\n\n		if closed")]),
("q-closelimit","C42",[(Q,"	q.closed.Store(true)","	q.closed.Store(true)\n	if q.limit != nil {\n		close(q.limit)\n	}")]),
("b-q-pop","",[(Q,POPLOOP,"""		h := s.head.Load()
		n := h.next.Load()
		if n == nil {
			var v A
			return v, false
		}
		if s.head.CompareAndSwap(h, n) {
			return n.val, true
		}
""")]),
("b-q-val","",[(Q,POPLOOP,"""		h := s.head.Load()
		n := h.next.Load()
		if n == nil {
			break
		}
		if !s.head.CompareAndSwap(h, n) {
			continue
		}
		v := n.val
		return v, true
"""),(Q,"func (s *simple[A]) push","func (s *simple[A]) push"),(Q,"		return v, true\n	}\n}","		return v, true\n	}\n	var zero A\n	return zero, false\n}")]),
("b-q-okrel","",[(Q,DEF,""),(Q,"		if ok {\n			return a, ok","		if ok {\n			if q.limit != nil {\n				<-q.limit\n			}\n			return a, ok")]),
("b-q-relhelper","",[(Q,DEF,"	defer q.release()\n\n"),(Q,"// simple is a simple lock","func (q *Queue[A]) release() {\n	if q.limit == nil {\n		return\n	}\n	select {\n	case <-q.limit:\n	default:\n	}\n}\n\n// simple is a simple lock")]),
("b-q-named","",[(Q,"		a, ok := q.queue.pop()\n		if ok {\n			return a, ok\n		}\n\n		if closed {\n			return a, ok\n		}","		if val, ok = q.queue.pop(); ok || closed {\n			return val, ok\n		}")]),
("b-q-push","",[(Q,"		rt := s.tail.Load()\n\n		if rt.next.CompareAndSwap(nil, n) {\n			s.tail.Store(n)\n			return\n		} else {\n			continue\n		}","		if rt := s.tail.Load(); rt.next.CompareAndSwap(nil, n) {\n			s.tail.Store(n)\n			break\n		}")]),
("b-q-new","",[(Q,"	var s simple[A]\n	s.head.Store(&s.dummy)\n	s.tail.Store(s.head.Load())\n	return &s","	s := &simple[A]{}\n	s.tail.Store(&s.dummy)\n	s.head.Store(&s.dummy)\n	return s")]),
("b-q-new2","",[(Q,"	var s simple[A]\n	s.head.Store(&s.dummy)\n	s.tail.Store(s.head.Load())\n	return &s","	s := &simple[A]{}\n	d := &node[A]{}\n	s.tail.Store(d)\n	s.head.Store(d)\n	return s")]),
("b-q-newq","",[(Q,"	var limit chan struct{}\n	if size > 0 {\n		limit = make(chan struct{}, size)\n	}\n	return &Queue[A]{limit: limit, queue: newSimple[A]()}","	q := &Queue[A]{queue: newSimple[A]()}\n	if size < 1 {\n		return q\n	}\n	q.limit = make(chan struct{}, size)\n	return q")]),
("b-q-embed","",[(Q,"	queue *simple[A]\n","	queue simple[A]\n"),(Q,"return &Queue[A]{limit: limit, queue: newSimple[A]()}","q := &Queue[A]{limit: limit}\n	q.queue.init()\n	return q"),(Q,"func newSimple[A any]() *simple[A] {\n	var s simple[A]\n	s.head.Store(&s.dummy)\n	s.tail.Store(s.head.Load())\n	return &s","func (s *simple[A]) init() {\n	s.head.Store(&s.dummy)\n	s.tail.Store(s.head.Load())")]),
("b-q-len","",[(Q,"// simple is a simple lock","// Empty reports that nothing is queued.\nfunc (q *Queue[A]) Empty() bool {\n	return q.queue.head.Load().next.Load() == nil\n}\n\n// simple is a simple lock")]),
]
