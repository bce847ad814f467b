PROP="C35"
S="pipelines/stagedpipe/stagedpipe.go"
def s(*eds): return [(S,o,n) for o,n in eds]
SEEN="""	for _, st := range *s {
		if st == stage {
			return true
		}
	}

	n := append(*s, stage)
	*s = n
	return false
"""
GET="""		seen := seenStagesPool.Get().(*seenStages).reset()
		r.seenStages = seen
		defer seenStagesPool.Put(seen)
"""
USE="""	if r.seenStages != nil {
		if r.seenStages.seen(stageName) {
			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
			return r
		}
	}

"""
RESET="""	n := (*s)[:0]
	s = &n
	return s
"""
PP="""	for _, pp := range p.preProcessors {
		r = pp(r)
		if r.Err != nil {
			return r
		}
	}
	return stage(r)
"""
START="""	stage, name := Stage[T](p.sm.Start), p.startName
"""
NEXT="stage, name = r.Next, methodName(r.Next)"
NAME="""strings.TrimSuffix(strings.TrimSuffix(runtime.FuncForPC(valueOf.Pointer()).Name(), "-fm"), "[...]")"""
C="C35"
M=[
("b-reset",C,s((RESET,"	return s\n"))),
("b-noreset",C,s(("(*seenStages).reset()","(*seenStages)"))),
("b-prefix",C,s(("		if st == stage {","		if strings.HasPrefix(st, stage) {"))),
("b-base",C,s(("		if st == stage {","		if len(st) == len(stage) {"))),
("b-last",C,s((SEEN,SEEN.replace("for _, st := range *s {\n		if st == stage {","if n := len(*s); n > 0 {\n		if (*s)[n-1] == stage {")))),
("b-from1",C,s((SEEN,SEEN.replace("for _, st := range *s {","for i := 1; i < len(*s); i++ {\n		st := (*s)[i]")))),
("b-noappend",C,s((SEEN,SEEN.replace("	n := append(*s, stage)\n	*s = n\n","")))),
("b-dropfirst",C,s((SEEN,SEEN.replace("	n := append(*s, stage)\n","	n := append((*s)[min(len(*s), 1):], stage)\n")))),
("b-cap",C,s((SEEN,SEEN.replace("	n := append(*s, stage)\n	*s = n\n","	if len(*s) < 64 {\n		*s = append(*s, stage)\n	}\n")))),
("b-invert",C,s((SEEN,SEEN.replace("return true","return false")))),
("b-early",C,s((GET,GET.replace("defer ","")))),
("b-putstage",C,s((GET,GET.replace("defer seenStagesPool.Put(seen)","_ = seen")),(PP,PP.replace("	return stage(r)","	if r.seenStages != nil {\n		seenStagesPool.Put(r.seenStages)\n	}\n	return stage(r)")))),
("b-shared",C,s((GET,"		r.seenStages = &sharedSeen\n"),("// seenStagesPool is","var sharedSeen seenStages\n\n// seenStagesPool is"))),
("b-newshared",C,s(("		return &seenStages{}","		return oneSeen"),("// seenStagesPool is","var oneSeen = &seenStages{}\n\n// seenStagesPool is"))),
("b-skipstart",C,s((USE,USE.replace("if r.seenStages != nil {","if r.seenStages != nil && stageName != p.startName {")))),
("b-afterpp",C,s((USE,""),(PP,PP.replace("	return stage",USE.rstrip()+"\n	return stage")))),
("b-onlyone",C,s((USE,USE.replace("if r.seenStages != nil {","if r.seenStages != nil && p.concurrency > 1 {")))),
("b-noerr",C,s((USE,USE.replace("r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}","r.Err = Error{Msg: r.seenStages.callTrace()}")))),
("b-errfmt",C,s((USE,USE.replace("r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}","r.Err = fmt.Errorf(\"%w\", Error{Type: cyclicErr})")))),
("b-always",C,s(("	if p.ss {","	if p.concurrency > 0 {"))),
("b-never",C,s(("	if p.ss {","	if p.ss && p.delayWarning == 0 {"))),
("b-startname",C,s((START,"	stage := Stage[T](p.sm.Start)\n	name := methodName(stage)\n"))),
("b-sameName",C,s((NEXT,"stage = r.Next"))),
("b-numname",C,s((NAME,"runtime.FuncForPC(valueOf.Pointer()).Name()[:1] + valueOf.Type().String()"))),
("b-trimpkg",C,s((NAME,NAME.replace('"-fm")','"1")')))),
("b-lastpart",C,s((NEXT,'stage, name = r.Next, methodName(r.Next)\n		name = name[strings.LastIndex(name, ".")+1:]'))),
("b-dagoff",C,s(("		args.ss = p.ss","		_ = p.ss"))) if False else ("b-cycdata",C,s((USE,USE.replace("r.seenStages.seen(stageName)","r.seenStages.seen(stageName) && r.Err == nil && len(*r.seenStages) > 2")))),
# kept
("k-contains","",s((SEEN,"""	if slices.Contains(*s, stage) {
		return true
	}
	*s = append(*s, stage)
	return false
"""),('	"strings"\n','	"slices"\n	"strings"\n'))),
("k-index","",s((SEEN,"""	if slices.Index(*s, stage) >= 0 {
		return true
	}
	*s = append(*s, stage)
	return false
"""),('	"strings"\n','	"slices"\n	"strings"\n'))),
("k-flag","",s((SEEN,"""	found := false
	for i := range *s {
		if (*s)[i] == stage {
			found = true
			break
		}
	}
	if !found {
		*s = append(*s, stage)
	}
	return found
"""))),
("k-flagnobreak","",s((SEEN,"""	found := false
	for i := 0; i < len(*s); i++ {
		if (*s)[i] == stage {
			found = true
		}
	}
	if !found {
		*s = append(*s, stage)
	}
	return found
"""))),
("k-backward","",s((SEEN,SEEN.replace("for _, st := range *s {","for i := len(*s) - 1; i >= 0; i-- {\n		st := (*s)[i]")))),
("k-reset","",s((RESET,"	*s = (*s)[:0]\n	return s\n"))),
("k-new","",s((GET,"		r.seenStages = &seenStages{}\n"))),
("k-newnil","",s((GET,"		r.seenStages = new(seenStages)\n		defer func() { r.seenStages = nil }()\n"))),
("k-map","",s(("type seenStages []string","type seenStages map[string]bool"),(SEEN,"	if (*s)[stage] {\n		return true\n	}\n	(*s)[stage] = true\n	return false\n"),
  (RESET,"	n := seenStages{}\n	return &n\n"),("	for i, st := range *s {\n		if i != 0 {","	for st := range *s {\n		if out.Len() != 0 {"))),
("k-map2","",s(("type seenStages []string","type seenStages map[string]struct{}"),(SEEN,"	if _, ok := (*s)[stage]; ok {\n		return true\n	}\n	(*s)[stage] = struct{}{}\n	return false\n"),
  (RESET,"	n := seenStages{}\n	return &n\n"),("	for i, st := range *s {\n		if i != 0 {","	for st := range *s {\n		if out.Len() != 0 {"))),
("k-cond","",s((USE,USE.replace("""	if r.seenStages != nil {
		if r.seenStages.seen(stageName) {
			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
			return r
		}
	}
""","""	if r.seenStages != nil && r.seenStages.seen(stageName) {
		r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
		return r
	}
""")))),
("k-pss","",s((USE,USE.replace("if r.seenStages != nil {","if p.ss {")))),
("k-helper","",s((USE,"	if err := p.visit(r, stageName); err != nil {\n		r.Err = err\n		return r\n	}\n\n"),("// calcExitStats calc","""// visit notes the stage.
func (p *pipeline[T]) visit(r Request[T], stageName string) error {
	if r.seenStages == nil || !r.seenStages.seen(stageName) {
		return nil
	}
	return Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
}

// calcExitStats calc"""))),
("k-inproc","",s((USE,""),("		r = p.execStage(r, stage, name)\n","""		if r.seenStages != nil && r.Ctx.Err() == nil && r.seenStages.seen(name) {
			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
			return r
		}
		r = p.execStage(r, stage, name)
"""))),
("k-putfunc","",s((GET,GET.replace("defer seenStagesPool.Put(seen)","defer func() {\n			seenStagesPool.Put(seen)\n		}()")))),
("k-noarg","",s(("		r = p.execStage(r, stage, name)\n","		r = p.execStage(r, stage)\n"),("	"+START.strip()+"\n","	stage := Stage[T](p.sm.Start)\n	first := true\n") if False else (NEXT,"stage, name = r.Next, methodName(r.Next)")) if False else s((NAME,"strings.TrimSuffix(name, \"[...]\")"),("	case reflect.Func:\n","	case reflect.Func:\n		name := runtime.FuncForPC(valueOf.Pointer()).Name()\n		name = strings.TrimSuffix(name, \"-fm\")\n"))),
]
