PROP="C38"
S="pipelines/stagedpipe/stagedpipe.go"
def s(*eds): return [(S,o,n) for o,n in eds]
OPT="""	for _, o := range options {
		if err := o(p); err != nil {
			return nil, err
		}
	}

"""
RUN="""	for i := 0; i < p.concurrency; i++ {
		go p.runner()
	}
"""
CONC="	p.concurrency = numStages[T](args.sm) + args.subStages\n"
ZERO="""	if p.concurrency == 0 {
		return nil, fmt.Errorf("did not find any Public methods that implement Stages")
	}
"""
CNT="""	for range method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(sig)) {
		count++
	}
	return count
"""
ADD="pipelines.subStages += numStages[T](obj)"
LOOP="for i := 0; i < num; i++ {"
NEWP="""		_, err := newPipeline(args)
		if err != nil {
			close(in)
			return nil, err
		}
"""
DEM="""	if err != nil {
		close(in)
		return nil, err
	}

	return p, nil
}
"""
SMNIL="""	if sm == nil {
		return nil, fmt.Errorf("must provide a valid StateMachine")
	}
"""
C="C38"
M=[
("b-num0",C,s(("if num < 1 {","if num < 0 {"))),
("b-sm",C,s((SMNIL,""))),
("b-opterr",C,s((OPT,OPT.replace("			return nil, err\n","			continue\n")))),
("b-optbreak",C,s((OPT,OPT.replace("			return nil, err\n","			break\n")))),
("b-assign",C,s((ADD,ADD.replace("+=","=")))),
("b-max",C,s((ADD,"pipelines.subStages = max(pipelines.subStages, numStages[T](obj))"))),
("b-first",C,s((ADD,ADD+"\n			break"))),
("b-skipfirst",C,s(("range subStageObj {","range subStageObj[1:] {"))),
("b-skipnil",C,s((ADD,"if n := numStages[T](obj); n > 1 {\n				pipelines.subStages += n\n			}"))),
("b-nosub",C,s((CONC,CONC.replace(" + args.subStages","")))),
("b-maxsub",C,s((CONC,"	p.concurrency = max(numStages[T](args.sm), args.subStages)\n"))),
("b-cap",C,s((CONC,CONC+"	if p.concurrency > 64 {\n		p.concurrency = 64\n	}\n"))),
("b-le",C,s((RUN,RUN.replace("i < p.c","i <= p.c")))),
("b-one",C,s((RUN,RUN.replace("i := 0","i := 1")))),
("b-two",C,s((RUN,RUN.replace("go p.runner()","go p.runner()\n		go p.runner()")))),
("b-some",C,s((RUN,RUN.replace("go p.runner()","if i%2 == 0 {\n			go p.runner()\n		}")))),
("b-numm1",C,s((LOOP,"for i := 0; i < num-1; i++ {"))),
("b-numonly",C,s((LOOP,"for i := 0; i < 1; i++ {"))),
("b-noclose",C,s((NEWP,NEWP.replace("			close(in)\n","")))),
("b-noclosed",C,s((DEM,DEM.replace("		close(in)\n","")))),
("b-closeok",C,s((DEM,DEM.replace("	return p, nil","	if p.subStages > 100 {\n		close(in)\n	}\n	return p, nil")))),
("b-nodelay",C,s(("			delayWarning:  p.delayWarning,\n",""))),
("b-nodelay2",C,s(("		delayWarning:  args.delayWarning,\n",""))),
("b-optlate",C,s((OPT,""),("	p.pipelines = pipelines\n",OPT+"	p.pipelines = pipelines\n"))),
("b-count1",C,s(("	count := 0\n","	count := 1\n"))),
("b-count2",C,s((CNT,CNT.replace("count++","count += 2")))),
("b-countbreak",C,s((CNT,CNT.replace("count++","count++\n		if count == 10 {\n			break\n		}")))),
("b-othersig",C,s(("	var sig Stage[T]\n","	var sig PreProcesor[T]\n	var sig2 func()\n	_ = sig\n"),(CNT,CNT.replace("ValueOf(sig)","ValueOf(sig2)")))),
("b-big",C,s(("if num < 1 {","if num < 1 || num > 1000 {"))),
("b-name",C,s(("if num < 1 {","if name == \"\" || num < 1 {"))),
("b-both",C,s((DEM,DEM.replace("return nil, err","return p, err")))),
("b-nilnil",C,s((NEWP,NEWP.replace("return nil, err","return nil, nil")))),
("b-dagorder",C,s(("p.ss = true","p.ss = true\n\t\tp.ordered = true"))),
("b-dependent",C,s(("pipelines.delayWarning = d","if !pipelines.ordered {\n			pipelines.delayWarning = d\n		}"))),
("b-subearly",C,s((OPT,"	sub := p.subStages\n"+OPT),("subStages:     p.subStages","subStages:     sub"))),
("b-runnerends",C,s(("\tfor r := range p.in {\n","\tfor r := range p.in {\n\t\tif r.Ctx == nil {\n\t\t\treturn\n\t\t}\n"))),
("b-extra",C,s((OPT,OPT+"	go func() {\n		<-out\n	}()\n"))),
("b-demuxfirst",C,s(("	p.pipelines = pipelines\n","	p.pipelines = pipelines\n	if p.subStages > 10 {\n		return nil, fmt.Errorf(\"too many\")\n	}\n"))),
("b-rest",C,s((LOOP,"for i := 0; i < num; i++ {\n		if i == 7 {\n			break\n		}"))),
("b-half",C,s((LOOP,"for i := 0; i < num; i += 2 {"))),
("k-once","",s((LOOP,"per := numStages[T](sm) + p.subStages\n	for i := 0; i < num; i++ {"),("subStages:     p.subStages","subStages:     per"),(CONC,"	p.concurrency = args.subStages\n"))),
("k-down","",s((RUN,RUN.replace("i := 0; i < p.concurrency; i++","i := p.concurrency; i > 0; i--")))),
("k-range","",s((RUN,RUN.replace("i := 0; i < p.concurrency; i++","range p.concurrency")))),
("k-rangeopt","",s((OPT,OPT.replace("_, o := range options","i := range len(options)").replace("o(p)","options[i](p)")))),
("k-range2","",s((RUN,RUN.replace("i := 0; i < p.concurrency; i++","range p.concurrency")),(LOOP,"for i := range num {"))),
("k-noZero","",s((ZERO,""))),
("k-noZerorange","",s((ZERO,""),(RUN,RUN.replace("i := 0; i < p.concurrency; i++","range p.concurrency")))),
("k-objs","",s(("for _, obj := range subStageObj {","for i := range subStageObj {"),(ADD,ADD.replace("obj","subStageObj[i]")))),
("k-objs2","",s(("for _, obj := range subStageObj {","for i := range len(subStageObj) {"),(ADD,ADD.replace("obj","subStageObj[i]")))),
("k-dowhile","",s((RUN,"\tn := p.concurrency\n\tfor {\n\t\tif n == 0 {\n\t\t\tbreak\n\t\t}\n\t\tn--\n\t\tgo p.runner()\n\t}\n"))),
("k-mid","",s((RUN,"\tfor i := 0; ; i++ {\n\t\tif i >= p.concurrency {\n\t\t\tbreak\n\t\t}\n\t\tgo p.runner()\n\t}\n"))),
("k-rangen","",s((LOOP,"for i := range num {"))),
("k-two","",s((RUN,RUN.replace("p.concurrency","numStages[T](args.sm)")+RUN.replace("p.concurrency","args.subStages")))),
("k-helper","",s((RUN,"	p.run()\n"),("func (p *pipeline[T]) runner() {","func (p *pipeline[T]) run() {\n"+RUN+"}\n\nfunc (p *pipeline[T]) runner() {"))),
("k-opthelper","",s((OPT,"	if err := apply(p, options); err != nil {\n		return nil, err\n	}\n"),("// New creates","func apply[T any](p *Pipelines[T], options []Option[T]) error {\n	for i := 0; i < len(options); i++ {\n		if err := options[i](p); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\n// New creates"))),
("k-local","",s((ADD,"total += numStages[T](obj)"),("		for _, obj := range subStageObj {","		total := 0\n		for _, obj := range subStageObj {"),("		return nil\n	}\n}\n\n// resetNext","		pipelines.subStages += total\n		return nil\n	}\n}\n\n// resetNext"))),
("k-early","",s(("	return func(pipelines *Pipelines[T]) error {\n		for _, obj","	return func(pipelines *Pipelines[T]) error {\n		if len(subStageObj) == 0 {\n			return nil\n		}\n		for _, obj"))),
("k-le0","",s(("if p.concurrency == 0 {","if p.concurrency <= 0 {"))),
("k-lt1","",s(("if p.concurrency == 0 {","if p.concurrency < 1 {"))),
("k-zero","",s(("if num < 1 {","if num <= 0 {"))),
("k-defer","",s((NEWP,NEWP.replace("			close(in)\n","")),(DEM,DEM.replace("		close(in)\n","").replace("	return p, nil","	ok = true\n	return p, nil")),(OPT,OPT+"	ok := false\n	defer func() {\n		if !ok {\n			close(in)\n		}\n	}()\n"))),
("k-swap","",s((SMNIL,""),("	if num < 1 {",SMNIL+"	if num < 1 {"))),
("k-while","",s((CNT,"	ch := method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(sig))\n	for {\n		if _, ok := <-ch; !ok {\n			return count\n		}\n		count++\n	}\n"))),
("k-single","",s((RUN,""),("	p.pipelines = pipelines\n","	p.pipelines = pipelines\n	for _, q := range pipelines {\n		for i := 0; i < q.concurrency; i++ {\n			go q.runner()\n		}\n	}\n"),(NEWP,NEWP.replace("_, err","q, err")+"		pipelines = append(pipelines, q)\n")) if False else s()),
("k-wgo","",s((RUN,RUN.replace("go p.runner()","go func() {\n			p.runner()\n		}()")))),
]
M=[m for m in M if m[2]]
