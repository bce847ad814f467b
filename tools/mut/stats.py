PROP="C37,C44"
S="pipelines/stagedpipe/stagedpipe.go"; T="pipelines/stagedpipe/stats.go"
def s(*e): return [(S,o,n) for o,n in e]
def t(*e): return [(T,o,n) for o,n in e]
SMIN="""		c := (*current).Load()
		if v >= c {
			return
		}
		if (*current).CompareAndSwap(c, v) {
			return
		}
"""
SMAX=SMIN.replace("v >= c","v <= c")
EXIT="""	p.stats.running.Add(-1)
	p.stats.completed.Add(1)
"""
M=[
("b-min-nocas","C37",t((SMIN,"		if v >= (*current).Load() {\n			return\n		}\n		(*current).Store(v)\n		return\n"))),
("b-min-giveup","C37",t((SMIN,SMIN.replace("		if (*current).CompareAndSwap(c, v) {\n			return\n		}\n","		(*current).CompareAndSwap(c, v)\n		return\n")))),
("b-max-stale","C37",t((SMAX,"		(*current).CompareAndSwap((*current).Load(), v)\n		return\n"))),
("b-max-hoist","C37",t(("func setMax(current *atomic.Int64, v int64) {\n	for {\n		c := (*current).Load()\n","func setMax(current *atomic.Int64, v int64) {\n	c := (*current).Load()\n	for {\n		if (*current).Load() != c {\n			return\n		}\n"))),
("b-max-cmp","C37",t((SMAX,SMAX.replace("v <= c","v >= c")))),
("b-min-zero","C37",t((SMIN,SMIN.replace("if v >= c {","if c != 0 && v >= c {")),("	s.min.Store(math.MaxInt64)\n",""),("	s.ingestStats.min.Store(math.MaxInt64)\n",""),("	if v == math.MaxInt64 {","	if v == math.MaxInt64 {"))),
("b-min-noinit","C37",t(("	s.ingestStats.min.Store(math.MaxInt64)\n",""))),
("b-min-swap","C37",t(("Min: minDuration(&i.min),\n		Max: time.Duration(i.max.Load()),","Min: minDuration(&i.max),\n		Max: time.Duration(i.min.Load()),"))),
("b-min-shared","C37",t(("Min: minDuration(&i.min),","Min: minDuration(&i.max),"))),
("b-run-early","C37",s(("		if r.Err != nil {\n			return r\n		}\n		stage, name = r.Next","		if r.Err != nil {\n			p.stats.running.Add(-1)\n			return r\n		}\n		stage, name = r.Next"))),
("b-run-after","C37",s(("		p.calcExitStats(r)\n",""),("			p.out <- r\n		}\n","			p.out <- r\n		}\n		p.calcExitStats(r)\n"))),
("b-run-go","C37,C44",s(("		p.calcExitStats(r)\n","		go p.calcExitStats(r)\n"))),
("b-comp-err","C37",s((EXIT,EXIT.replace("	p.stats.completed.Add(1)","	if r.Err == nil {\n		p.stats.completed.Add(1)\n	}")))),
("b-comp-twice","C37",s((EXIT,EXIT+"	p.stats.completed.Add(1)\n"))),
("b-run-stage","C37",s(("	p.stats.running.Add(1)\n",""),("		r = p.execStage(r, stage, name)\n","		p.stats.running.Add(1)\n		r = p.execStage(r, stage, name)\n"))),
("b-run-late","C37",s(("	p.stats.running.Add(1)\n",""),(EXIT,"	p.stats.running.Add(1)\n"+EXIT))),
("b-comp-early","C37",s(("	p.stats.completed.Add(1)\n",""),("	p.stats.running.Add(1)\n","	p.stats.running.Add(1)\n	p.stats.completed.Add(1)\n"))),
("b-max-wrong","C37",s(("setMax(&p.stats.max, int64(runTime))","setMax(&p.stats.ingestStats.max, int64(runTime))"))),
("b-max-ms","C37",s(("setMax(&p.stats.max, int64(runTime))","setMax(&p.stats.max, runTime.Milliseconds())"))),
("b-max-skip","C37",s(("	setMax(&p.stats.max, int64(runTime))\n","	if r.Err == nil {\n		setMax(&p.stats.max, int64(runTime))\n	}\n"))),
("b-max-else","C37",s(("	setMin(&p.stats.min, int64(runTime))\n	setMax(&p.stats.max, int64(runTime))\n","	if int64(runTime) < p.stats.min.Load() {\n		setMin(&p.stats.min, int64(runTime))\n	} else {\n		setMax(&p.stats.max, int64(runTime))\n	}\n"))),
("b-time-stage","C37,C44",s(("	r.ingestTime = time.Now()\n",""),("		r = p.execStage(r, stage, name)\n","		r.ingestTime = time.Now()\n		r = p.execStage(r, stage, name)\n"))),
("b-time-queue","C37,C44",s(("time.Since(r.ingestTime)","time.Since(r.queueTime)"))),
("b-avg-err","C44",s(("	p.stats.avgTotal.Add(int64(runTime))","	if r.Err == nil {\n		p.stats.avgTotal.Add(int64(runTime))\n	}"))),
("b-avg-store","C44",s(("	p.stats.avgTotal.Add(int64(runTime))","	p.stats.avgTotal.Store(p.stats.avgTotal.Load() + int64(runTime))"))),
("b-avg-cell","C44",s(("p.stats.ingestStats.avgTotal.Add(int64(queuedTime))","p.stats.avgTotal.Add(int64(queuedTime))"))),
("b-avg-div","C44",t(("stats.Avg = time.Duration(s.avgTotal.Load() / stats.Completed)","stats.Avg = time.Duration(s.avgTotal.Load() / (stats.Completed + stats.Running))"))),
("b-avg-ing","C44",t(("stats.Avg = time.Duration(i.avgTotal.Load() / completed)","stats.Avg = time.Duration(i.avgTotal.Load() / (completed + 1))"))),
("b-stats-reset","C37",s(("	return p.stats.toStats()","	defer p.stats.max.Store(0)\n	return p.stats.toStats()"))),
("b-stats-running","C37",t(("Running:   s.running.Load(),","Running:   s.running.Load() + s.completed.Load(),"))),
# behaviour kept
("k-min-gt","",t((SMIN,"		c := current.Load()\n		if c <= v || current.CompareAndSwap(c, v) {\n			return\n		}\n"))),
("k-min-for","",t(("	for {\n"+SMIN+"	}\n","	for c := current.Load(); v < c; c = current.Load() {\n		if current.CompareAndSwap(c, v) {\n			break\n		}\n	}\n"))),
("k-max-done","",t(("	for {\n"+SMAX+"	}\n","	done := false\n	for !done {\n		c := current.Load()\n		done = v <= c || current.CompareAndSwap(c, v)\n	}\n"))),
("k-max-goto","",t(("	for {\n"+SMAX+"	}\n","retry:\n	if c := current.Load(); v > c {\n		if !current.CompareAndSwap(c, v) {\n			goto retry\n		}\n	}\n"))),
("k-record","",[(S,"	setMin(&p.stats.min, int64(runTime))\n	setMax(&p.stats.max, int64(runTime))\n","	p.stats.record(runTime)\n"),(T,"func newStats()","func (s *stats) record(d time.Duration) {\n	setMax(&s.max, int64(d))\n	setMin(&s.min, d.Nanoseconds())\n}\n\nfunc newStats()")]),
("k-order","",s((EXIT,"	p.stats.completed.Add(1)\n	p.stats.running.Add(-1)\n"))),
("k-defer","",s(("	p.stats.running.Add(1)\n","	p.stats.running.Add(1)\n	defer p.stats.running.Add(-1)\n"),("	p.stats.running.Add(-1)\n",""))),
("k-sub","",s(("	runTime := time.Since(r.ingestTime)","	runTime := time.Now().Sub(r.ingestTime)"))),
("k-fast","",t(("	for {\n"+SMAX,"	if v <= current.Load() {\n		return\n	}\n	for {\n"+SMAX))),
("k-generic","",t(("func setMin(current *atomic.Int64, v int64) {\n	for {\n"+SMIN+"	}\n}","func setMin(current *atomic.Int64, v int64) {\n	set(current, v, func(a, b int64) bool { return a < b })\n}\n\nfunc set(current *atomic.Int64, v int64, better func(a, b int64) bool) {\n	for {\n		c := current.Load()\n		if !better(v, c) {\n			return\n		}\n		if current.CompareAndSwap(c, v) {\n			return\n		}\n	}\n}"))),
("k-tostats","",t(("	stats := Stats{\n		Running:   s.running.Load(),\n		Completed: s.completed.Load(),\n		Min:       minDuration(&s.min),\n		Max:       time.Duration(s.max.Load()),\n	}\n","	var stats Stats\n	stats.Completed = s.completed.Load()\n	stats.Running = s.running.Load()\n	stats.Max = time.Duration(s.max.Load())\n	if m := s.min.Load(); m < math.MaxInt64 {\n		stats.Min = time.Duration(m)\n	}\n"))),
("k-neg","",t(("	s.min.Store(math.MaxInt64)\n	s.ingestStats.min.Store(math.MaxInt64)\n","	s.min.Store(-1)\n	s.ingestStats.min.Store(-1)\n"),("if v == math.MaxInt64 {","if v < 0 {"),(SMIN,SMIN.replace("if v >= c {","if c >= 0 && v >= c {")),('	"math"\n',""))),
("k-flat","",[(S,"&p.stats.ingestStats.min","p.stats.ingestMin()"),(T,"func newStats()","func (s *stats) ingestMin() *atomic.Int64 { return &s.ingestStats.min }\n\nfunc newStats()")]),
]
