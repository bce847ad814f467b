package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"strings"
	"text/template"
	"text/template/parse"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// C43: the files stagedpipe-cli init writes type-check. What is written where is read off the paths of the command's
// function; the templates are instantiated and type-checked against the module, which is not run.

const relCLI = "pipelines/stagedpipe/tools/stagedpipe-cli"

type cli struct {
	c     *Check
	pkg   *ssa.Package
	run   *ssa.Function
	pkgF  *ssa.Global // what -p sets
	mainF *ssa.Global // what -m sets
	tmpl  map[string]string
	vars  map[*ssa.Global]string // variables that hold a template

	embedded map[string]string
	holds    map[*ssa.Global]ssa.Value
}

// cliModel: names of files and templates.
func cliModel(e *Engine, fr *frame, st *State, name string, args []*Term, site string, ins ssa.Instruction) []callOut {
	one := func(t *Term) []callOut { return []callOut{{st: st, res: t}} }
	str := types.Typ[types.String]
	switch name {
	case "path.Base", "path/filepath.Base":
		return one(mkPure("base", str, args[0]))
	case "path/filepath.FromSlash", "path/filepath.Clean", "path.Clean":
		return one(cleanPath(args[0]))
	case "path/filepath.Join", "path.Join":
		if la, ok := listArgs(args[0]); ok {
			return one(joinPath(la))
		}
	case "strings.Contains", "strings.ContainsRune":
		return one(mkPure("contains", types.Typ[types.Bool], args[0], charStr(args[1])))
	case "strings.ContainsAny":
		if s, ok := args[1].strConst(); ok && len(s) == 1 {
			return one(mkPure("contains", types.Typ[types.Bool], args[0], args[1]))
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte":
		return one(mkPure("indexof", types.Typ[types.Int], args[0], charStr(args[1])))
	case "strings.IndexAny", "strings.LastIndexAny":
		if s, ok := args[1].strConst(); ok && len(s) == 1 {
			return one(mkPure("indexof", types.Typ[types.Int], args[0], args[1]))
		}
	case "strings.Count":
		return one(mkPure("count", types.Typ[types.Int], args[0], args[1]))
	case "(*text/template.Template).Lookup":
		if _, ok := args[1].strConst(); ok {
			return one(mkPure("tmpl", nil, args[1]))
		}
	case "(*text/template.Template).New":
		return one(mkPure("tmpl", nil, args[1]))
	case "text/template.New":
		return one(mkPure("tmpl", nil, args[0]))
	case "(*text/template.Template).Parse":
		st.ev(&Event{Kind: "parse", Args: args, Fn: fr.fn, Instr: ins, Site: site})
		return one(mkTuple(args[0], tNil))
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		r := mkPure("content", nil, args[0], mkConst("site:"+site, nil))
		st.ev(&Event{Kind: "call", Name: name, Args: args, Res: []*Term{r}, Fn: fr.fn, Instr: ins, Site: site})
		return one(r)
	case "text/template.Must":
		return one(args[0])
	}
	return nil
}

// charStr is a constant character as a string.
func charStr(t *Term) *Term {
	if n, ok := t.intConst(); ok {
		return mkStr(string(rune(n)))
	}
	return t
}

func cleanPath(t *Term) *Term {
	for t.K == KStr {
		s, ok := t.Args[0].strConst()
		if !ok || !strings.HasPrefix(s, "./") {
			return t
		}
		t = mkConcat(append([]*Term{mkStr(s[2:])}, t.Args[1:]...)...)
	}
	if s, ok := t.strConst(); ok {
		return mkStr(path.Clean(s))
	}
	return t
}

func joinPath(la []*Term) *Term {
	var ps []*Term
	for i, a := range la {
		if s, ok := a.strConst(); ok && (s == "" || s == "." && len(la) > i+1) {
			continue
		}
		if len(ps) > 0 {
			ps = append(ps, mkStr("/"))
		}
		ps = append(ps, a)
	}
	return cleanPath(mkConcat(ps...))
}

func globalOf(t *Term) *ssa.Global {
	if t.K == KLoad {
		t = t.Args[0]
	}
	for t.K == KIface && len(t.Args) == 1 {
		t = t.Args[0]
	}
	g, _ := t.Ref.(*ssa.Global)
	return g
}

// find finds the command's function, its flags and the templates.
func (x *cli) find() {
	c := x.c
	x.pkg = c.L.pkg(relCLI + "/cmd")
	c.need(x.pkg != nil, "role: package", "package cmd exists")
	use, fn, holds := map[ssa.Value]string{}, map[ssa.Value]*ssa.Function{}, map[*ssa.Global]ssa.Value{}
	var inits []*ssa.Function
	added := map[*ssa.Global]bool{}
	for _, f := range c.L.All {
		if f.Pkg != x.pkg {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			inits = append(inits, f)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok {
						holds[g] = i.Val
					}
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n, ok := types.Unalias(deref(fa.X.Type())).(*types.Named)
					if !ok || n.Obj().Name() != "Command" {
						continue
					}
					switch fieldVar(n, fa.Field).Name() {
					case "Use":
						if k, ok := i.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							use[fa.X] = constant.StringVal(k.Value)
						}
					case "RunE":
						switch v := i.Val.(type) {
						case *ssa.Function:
							fn[fa.X] = v
						case *ssa.MakeClosure:
							fn[fa.X] = v.Fn.(*ssa.Function)
						case *ssa.ChangeType:
							if v, ok := v.X.(*ssa.Function); ok {
								fn[fa.X] = v
							}
						}
					}
				case ssa.CallInstruction:
					g := i.Common().StaticCallee()
					if g == nil {
						continue
					}
					as := i.Common().Args
					switch g.String() {
					case "(*github.com/spf13/pflag.FlagSet).StringVarP", "(*github.com/spf13/pflag.FlagSet).StringVar":
						if v, ok := as[1].(*ssa.Global); ok && strConstOf(as[2]) == "pkg" {
							x.pkgF = v
						}
					case "(*github.com/spf13/pflag.FlagSet).BoolVarP", "(*github.com/spf13/pflag.FlagSet).BoolVar":
						if v, ok := as[1].(*ssa.Global); ok && strConstOf(as[2]) == "createMain" {
							x.mainF = v
						}
					case "(*github.com/spf13/cobra.Command).AddCommand":
						// the variadic slice holds loads of globals
						for _, b := range f.Blocks {
							for _, j := range b.Instrs {
								if s, ok := j.(*ssa.Store); ok {
									if u, ok := s.Val.(*ssa.UnOp); ok {
										if g, ok := u.X.(*ssa.Global); ok {
											added[g] = true
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for v, u := range use {
		if u != "init" && !strings.HasPrefix(u, "init ") {
			continue
		}
		c.need(x.run == nil && fn[v] != nil, "role: init", "one command init has a function that returns an error")
		x.run = fn[v]
		ok := false
		for g, h := range holds {
			ok = ok || h == v && added[g]
		}
		c.ob(ok, "the command init is part of the program", c.at(x.run), "it is not added")
	}
	c.need(x.run != nil, "role: init", "there is a command init")
	c.need(x.pkgF != nil && x.mainF != nil, "role: flags", "flags pkg and createMain set variables")

	// templates: name -> file
	files := x.embeds()
	x.tmpl = map[string]string{}
	x.vars = map[*ssa.Global]string{}
	x.embedded, x.holds = files, holds
	e := c.eng(Config{Model: cliModel, NoMerge: true, KeepStr: true, MaxFlat: 16})
	for _, f := range inits {
		if f.Name() == "init" && !parses(f) {
			continue // set up by the compiler: package variables
		}
		_, ps := c.run(e, f)
		for _, p := range ps {
			x.parsed(p)
			for _, m := range x.pkg.Members {
				g, ok := m.(*ssa.Global)
				if !ok {
					continue
				}
				if v := p.heapVal(in.mk(Term{K: KGlobal, Op: g.RelString(nil), T: deref(g.Type()), Ref: g}, "")); v != nil && v.K == KPure && v.Op == "tmpl" {
					if n, ok := v.Args[0].strConst(); ok {
						c.need(x.vars[g] == "" || x.vars[g] == n, "role: templates", "a variable holds one template")
						x.vars[g] = n
					}
				}
			}
		}
	}
	for g := range x.vars {
		for _, f := range c.L.All {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok && st.Addr == g && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
						c.need(false, "role: templates", "a variable holds one template")
					}
				}
			}
		}
	}
	_, ps := c.run(e, x.run)
	for _, p := range ps {
		x.parsed(p)
	}
	c.need(len(x.tmpl) > 0, "role: templates", "templates are parsed when the program starts")
}

// parses: the function parses templates.
func parses(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if k, ok := i.(ssa.CallInstruction); ok {
				if g := k.Common().StaticCallee(); g != nil && g.String() == "(*text/template.Template).Parse" {
					return true
				}
			}
		}
	}
	return false
}

// parsed notes which templates a path parses.
func (x *cli) parsed(p *Path) {
	c := x.c
	for _, ev := range evs(p.Events, "parse") {
		r := ev.Args[0]
		n, ok := "", false
		if r.K == KPure && r.Op == "tmpl" {
			n, ok = r.Args[0].strConst()
		}
		g := globalOf(ev.Args[1])
		c.need(ok && g != nil && x.embedded[g.Name()] != "", "role: templates", "templates are parsed from embedded files under constant names (%s)", c.L.pos(ev.Instr))
		c.need(x.holds[g] == nil, "role: templates", "the text of a template is what was embedded")
		c.need(x.tmpl[n] == "" || x.tmpl[n] == x.embedded[g.Name()], "role: templates", "templates have different names (%s)", n)
		x.tmpl[n] = x.embedded[g.Name()]
	}
}

// named is the name of the template a value is.
func (x *cli) named(t *Term) string {
	if t.K == KPure && t.Op == "tmpl" {
		n, _ := t.Args[0].strConst()
		return n
	}
	if g := globalOf(t); g != nil {
		return x.vars[g]
	}
	return ""
}

func strConstOf(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return ""
}

// embeds: what is embedded in which variable.
func (x *cli) embeds() map[string]string {
	r := map[string]string{}
	p := x.c.L.Pkgs[x.pkg.Pkg.Path()]
	for i, file := range p.Syntax {
		dir := filepath.Dir(p.CompiledGoFiles[i])
		for _, d := range file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 {
					continue
				}
				for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if doc == nil {
						continue
					}
					for _, l := range doc.List {
						if f, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
							r[vs.Names[0].Name] = filepath.Join(dir, strings.Trim(strings.TrimSpace(f), "\"`"))
						}
					}
				}
			}
		}
	}
	return r
}

// outFile is a file a path of the command writes.
type outFile struct {
	sub  bool  // in the directory of the package
	name *Term // in its directory
	tmpl string
	data *Term
}

// outSet is what a path leaves, with main.go and without.
type outSet struct {
	p     *Path
	files map[bool][]outFile
}

// possibleName: the path can be taken for a package of this name.
func possibleName(f *Fact, base *Term, name string) bool {
	for ; f != nil; f = f.prev {
		if v, ok := withName(f.t, base, name).(bool); ok && v != f.v {
			return false
		}
	}
	return true
}

// withName is the value of a term for a package of this name, nil if it is not known.
func withName(t, base *Term, name string) any {
	if t == base {
		return name
	}
	if s, ok := t.strConst(); ok {
		return s
	}
	if n, ok := t.intConst(); ok {
		return n
	}
	if len(t.Args) == 0 {
		return nil
	}
	a := withName(t.Args[0], base, name)
	if t.K == KUn && t.Op == "!" {
		if v, ok := a.(bool); ok {
			return !v
		}
	}
	if len(t.Args) < 2 {
		return nil
	}
	b := withName(t.Args[1], base, name)
	if a == nil || b == nil {
		return nil
	}
	as, okA := a.(string)
	bs, okB := b.(string)
	strs := okA && okB
	switch {
	case t.K == KBin && t.Op == "==":
		return a == b
	case t.K == KBin && t.Op == "<":
		an, okA := a.(int64)
		bn, okB := b.(int64)
		if okA && okB {
			return an < bn
		}
		if strs {
			return as < bs
		}
	case t.K == KPure && strs:
		switch t.Op {
		case "contains":
			return strings.Contains(as, bs)
		case "indexof":
			return int64(strings.Index(as, bs))
		case "count":
			return int64(strings.Count(as, bs))
		}
	}
	return nil
}

// lacks: on this path the name does not contain s.
func lacks(p *Path, base *Term, s string) bool {
	w := mkStr(s)
	if v, ok := p.Facts.Eval(mkPure("contains", types.Typ[types.Bool], base, w)); ok {
		return !v
	}
	i := mkPure("indexof", types.Typ[types.Int], base, w)
	n := mkPure("count", types.Typ[types.Int], base, w)
	for _, q := range []struct {
		t *Term
		v bool
	}{
		{mkBin("<", i, mkInt(0), nil), true}, {mkBin("==", i, mkInt(-1), nil), true}, {mkBin("<", mkInt(-1), i, nil), false},
		{mkBin("==", n, mkInt(0), nil), true}, {mkBin("<", mkInt(0), n, nil), false}, {mkBin("<", n, mkInt(1), nil), true},
	} {
		if v, ok := p.Facts.Eval(q.t); ok && v == q.v {
			return true
		}
	}
	return false
}

func errOf(e *Event) *Term {
	if len(e.Res) == 0 {
		return nil
	}
	r := e.Res[len(e.Res)-1]
	if r.T != nil && types.Identical(r.T, types.Universe.Lookup("error").Type()) {
		return r
	}
	return nil
}

func rC43(c *Check) {
	x := &cli{c: c}
	x.find()
	e := c.eng(Config{Model: cliModel, NoMerge: true, KeepStr: true, MaxFlat: 16})
	_, ps := c.run(e, x.run)
	base := mkPure("base", types.Typ[types.String], mkLoadOf(e, x.pkgF))
	isMain := mkLoadOf(e, x.mainF)
	var outs []outSet
	good := 0
	for _, p := range ps {
		at := c.pathAt(x.run, p)
		if p.Kind != OReturn {
			c.ob(p.Kind == OCut, "the command returns", at, "a path ends otherwise")
			continue
		}
		failed := false
		for _, ev := range allEvs(p.Events, "call", "invoke") {
			er := errOf(ev)
			if er == nil {
				continue
			}
			if p.Facts.isNil(er) {
				continue
			}
			known := p.Facts.nonNil(er)
			c.ob(known || p.Results[0] == er || p.Facts.nonNil(p.Results[0]), "every error of a file operation is looked at", at, "the one of %s at %s is not", ev.Name, c.L.pos(ev.Instr))
			if known || p.Facts.nonNil(p.Results[0]) {
				failed = true
			}
			c.ob(p.Facts.nonNil(p.Results[0]) || p.Results[0] == er, "a failure is returned", at, "%s at %s failed, %s is returned", ev.Name, c.L.pos(ev.Instr), p.Results[0])
			if p.Results[0] == er {
				failed = failed || known
			}
		}
		if failed {
			continue
		}
		v, known := p.Facts.Eval(isMain)
		fs, ok := x.files(p, at, base)
		if !ok {
			continue
		}
		good++
		c.ob(p.Facts.isNil(p.Results[0]) || p.Results[0] == tNil || x.lastErr(p), "the command succeeds when all files were written", at, "returns %s", p.Results[0])
		m := map[bool][]outFile{}
		if !known || v {
			m[true] = fs
		}
		if !known || !v {
			m[false] = fs
		}
		outs = append(outs, outSet{p, m})
		// which names may be written
		for want, fs := range m {
			x.names(p, fs, want, base, at)
		}
	}
	c.need(good > 0, "role: init", "the command can succeed")
	x.typeCheck(outs, base)
	x.exits()
}

// lastErr: the path returns the error of its last operation without having looked at it.
func (x *cli) lastErr(p *Path) bool {
	es := allEvs(p.Events, "call")
	return len(es) > 0 && errOf(es[len(es)-1]) == p.Results[0]
}

func mkLoadOf(e *Engine, g *ssa.Global) *Term {
	a := in.mk(Term{K: KGlobal, Op: g.RelString(nil), T: deref(g.Type()), Ref: g}, "")
	return e.load(&State{heap: map[*Term]*Term{}}, a, deref(g.Type()))
}

// files: what a path without failures leaves.
func (x *cli) files(p *Path, at string, base *Term) ([]outFile, bool) {
	c := x.c
	type exec struct {
		tmpl string
		data *Term
	}
	bufs := map[*Term]*exec{}
	opened := map[*Term]*outFile{}
	var open []*outFile
	made, sub := false, false
	var r []outFile
	ok := true
	bad := func(rule, f string, a ...any) { ok = c.ob(false, rule, at, f, a...) && ok; ok = false }
	perm := func(t *Term, bits int64) bool {
		n, k := t.intConst()
		return k && n&bits == bits
	}
	execute := func(ev *Event, w, data *Term, t string) {
		if x.tmpl[t] == "" {
			bad("only known templates are executed", "%s at %s", ev.Args, c.L.pos(ev.Instr))
			return
		}
		w = unIface(w)
		if f := opened[w]; f != nil {
			if f.tmpl != "" {
				bad("a file is what one template gave", "a second at %s", c.L.pos(ev.Instr))
			}
			f.tmpl, f.data = t, unIface(data)
			return
		}
		if bufs[w] != nil {
			bad("one template is written to a buffer", "a second at %s", c.L.pos(ev.Instr))
		}
		bufs[w] = &exec{t, unIface(data)}
	}
	// place: the directory and the name in it
	place := func(ev *Event, nm *Term) outFile {
		nm = cleanPath(nm)
		in := sub
		if nm.K == KStr && len(nm.Args) > 1 && !sub && nm.Args[0] == base {
			// base + "/" + name
			rest := mkConcat(nm.Args[1:]...)
			if s, k := rest.strConst(); k && strings.HasPrefix(s, "/") {
				nm, in = mkStr(s[1:]), true
			} else if s, k := nm.Args[1].strConst(); k && strings.HasPrefix(s, "/") {
				nm, in = mkConcat(append([]*Term{mkStr(s[1:])}, nm.Args[2:]...)...), true
			}
		}
		if in && !made {
			bad("files are written to the directory made", "it is not made yet at %s", c.L.pos(ev.Instr))
		}
		return outFile{sub: in, name: nm}
	}
	// source: what is written
	source := func(ev *Event, v *Term) *exec {
		var src *exec
		k := 0
		for b, ex := range bufs {
			if x.reads(p, v, b) {
				src = ex
				k++
			}
		}
		if k != 1 {
			bad("a file is what one template gave", "written at %s from %s", c.L.pos(ev.Instr), v)
			return nil
		}
		return src
	}
	fill := func(ev *Event, file *Term, src *exec) {
		f := opened[unIface(file)]
		if f == nil || f.tmpl != "" {
			bad("a file is what one template gave", "written at %s", c.L.pos(ev.Instr))
			return
		}
		if src != nil {
			f.tmpl, f.data = src.tmpl, src.data
		}
	}
	for _, ev := range allEvs(p.Events, "call", "invoke") {
		n := ev.Name
		switch {
		case n == "(*text/template.Template).ExecuteTemplate":
			t, _ := ev.Args[2].strConst()
			execute(ev, ev.Args[1], ev.Args[3], t)
		case n == "(*text/template.Template).Execute":
			execute(ev, ev.Args[1], ev.Args[2], x.named(ev.Args[0]))
		case n == "os.Mkdir" || n == "os.MkdirAll":
			if cleanPath(ev.Args[0]) != base || sub {
				bad("the directory made is the one of the package", "%s at %s", ev.Args[0], c.L.pos(ev.Instr))
			}
			c.ob(perm(ev.Args[1], 0o700), "the directory can be used", at, "mode %s at %s", ev.Args[1], c.L.pos(ev.Instr))
			made = true
		case n == "os.Chdir":
			if cleanPath(ev.Args[0]) != base || sub || !made {
				bad("files are written to the directory made", "goes to %s at %s", ev.Args[0], c.L.pos(ev.Instr))
			}
			sub = true
		case n == "os.WriteFile":
			f := place(ev, ev.Args[0])
			c.ob(perm(ev.Args[2], 0o600), "the file can be used", at, "mode %s at %s", ev.Args[2], c.L.pos(ev.Instr))
			if src := source(ev, ev.Args[1]); src != nil {
				f.tmpl, f.data = src.tmpl, src.data
				r = append(r, f)
			}
		case n == "os.Create":
			f := place(ev, ev.Args[0])
			opened[ev.Res[0]] = &f
			open = append(open, &f)
		case n == "os.OpenFile":
			f := place(ev, ev.Args[0])
			fl, k := ev.Args[1].intConst()
			c.ob(k && int(fl)&os.O_CREATE != 0 && int(fl)&(os.O_WRONLY|os.O_RDWR) != 0, "the file can be written", at, "flags %s at %s", ev.Args[1], c.L.pos(ev.Instr))
			c.ob(perm(ev.Args[2], 0o600), "the file can be used", at, "mode %s at %s", ev.Args[2], c.L.pos(ev.Instr))
			opened[ev.Res[0]] = &f
			open = append(open, &f)
		case n == "(*os.File).Write" || n == "(*os.File).WriteString":
			fill(ev, ev.Args[0], source(ev, ev.Args[1]))
		case n == "(*bytes.Buffer).WriteTo":
			fill(ev, ev.Args[1], bufs[ev.Args[0]])
		case n == "io.Copy":
			fill(ev, ev.Args[0], bufs[unIface(ev.Args[1])])
		case n == "io.WriteString":
			fill(ev, ev.Args[0], source(ev, ev.Args[1]))
		case n == "(*os.File).Close" || n == "(*os.File).Sync" || n == "(*os.File).Name":
		case strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "io.") || strings.HasPrefix(n, "(*os.") || strings.HasPrefix(n, "(*text/template."):
			bad("file operations are understood", "%s at %s", n, c.L.pos(ev.Instr))
		}
	}
	for _, f := range open {
		if f.tmpl == "" {
			bad("a file is what one template gave", "nothing is written to %s", f.name)
			continue
		}
		r = append(r, *f)
	}
	return r, ok
}

// reads: what is written is the content of the buffer.
func (x *cli) reads(p *Path, v, buf *Term) bool {
	filled := false
	for _, ev := range allEvs(p.Events, "call") {
		if strings.HasPrefix(ev.Name, "(*text/template.Template).Execute") && unIface(ev.Args[1]) == buf {
			filled = true
		}
		if len(ev.Res) == 1 && ev.Res[0].K == KPure && ev.Res[0].Op == "content" && ev.Args[0] == buf && v.contains(ev.Res[0]) {
			return filled
		}
	}
	return false
}

// names: the files have different names and the go tool builds them, whatever the package is called.
func (x *cli) names(p *Path, fs []outFile, main bool, base *Term, at string) {
	c := x.c
	consts := map[bool]map[string]bool{true: {}, false: {}}
	named := map[bool]bool{}
	for _, f := range fs {
		if s, ok := f.name.strConst(); ok {
			c.ob(!consts[f.sub][s], "files have different names", at, "%s", s)
			consts[f.sub][s] = true
			b, isGo := strings.CutSuffix(s, ".go")
			c.ob(isGo && b != "" && !strings.ContainsAny(b, "_./") && !strings.HasPrefix(b, "."), "the go tool builds the files", at, "%s", s)
			continue
		}
		ok := f.name.K == KStr && len(f.name.Args) == 2 && f.name.Args[0] == base
		if ok {
			s, k := f.name.Args[1].strConst()
			ok = k && s == ".go"
		}
		c.ob(ok && !named[f.sub], "files are named after the package or by a constant", at, "%s", f.name)
		named[f.sub] = true
	}
	for in := range named {
		c.ob(lacks(p, base, "_"), "a file is named after the package only if the go tool builds a file of that name", at, "the name of the package may have _")
		for s := range consts[in] {
			v, known := p.Facts.Eval(mkBin("==", base, mkStr(strings.TrimSuffix(s, ".go")), nil))
			c.ob(known && !v, "files have different names", at, "a package may be called like %s", s)
		}
	}
	mains := 0
	for _, f := range fs {
		if !f.sub {
			mains++
		}
	}
	if main {
		c.ob(mains > 0, "main.go is written when asked for", at, "it is not")
	} else {
		c.ob(mains == 0, "main.go is only written when asked for", at, "%d files", mains)
	}
}

// typeCheck instantiates the templates and type-checks the result.
func (x *cli) typeCheck(outs []outSet, base *Term) {
	c := x.c
	done := map[string]bool{}
	for _, o := range outs {
		m := o.files
		for _, withMain := range []bool{true, false} {
			for _, name := range []string{"frobnicator", "data", "v2", "a_test", "a_linux", "a_windows"} {
				if !possibleName(o.p.Facts, base, name) {
					continue
				}
				var key string
				for _, f := range m[withMain] {
					key += fmt.Sprintf("%v/%v/%s;", f.sub, f.name, f.tmpl)
				}
				key += name
				if len(m[withMain]) == 0 || done[key] {
					continue
				}
				done[key] = true
				x.typeCheckAs(m[withMain], base, name)
			}
		}
	}
	c.need(len(done) > 0, "role: templates", "files are generated")
}

func (x *cli) typeCheckAs(fs []outFile, base *Term, name string) {
	c := x.c
	const rel = "zzgenerated/skeleton"
	root := filepath.Join(c.L.Dir, rel)
	pkgPath := modPath + "/" + rel + "/" + name
	overlay := map[string][]byte{}
	for _, f := range fs {
		at := "template " + x.tmpl[f.tmpl]
		if strings.HasPrefix(at, "template "+c.L.Dir+"/") {
			at = "template " + strings.TrimPrefix(x.tmpl[f.tmpl], c.L.Dir+"/")
		}
		src, err := os.ReadFile(x.tmpl[f.tmpl])
		c.need(err == nil, "role: templates", "template %s is readable", f.tmpl)
		t, err := template.New("x").Parse(string(src))
		if !c.ob(err == nil, "templates parse", at, "%v", err) {
			return
		}
		args, ok := x.argsOf(f.data, base, pkgPath, name)
		c.need(ok, "role: arguments", "templates are given the package's path and its last element (%s)", f.data)
		for _, n := range t.Tree.Root.Nodes {
			switch n := n.(type) {
			case *parse.TextNode, *parse.CommentNode:
			case *parse.ActionNode:
				ok := n.Pipe != nil && len(n.Pipe.Decl) == 0 && len(n.Pipe.Cmds) == 1 && len(n.Pipe.Cmds[0].Args) == 1
				if ok {
					fn, isF := n.Pipe.Cmds[0].Args[0].(*parse.FieldNode)
					ok = isF && len(fn.Ident) == 1
					if ok {
						_, has := args[fn.Ident[0]]
						c.ob(has, "templates use what they are given", at, "%s", n)
						if !has {
							return
						}
					}
				}
				c.need(ok, "role: templates", "templates only insert fields (%s)", n)
			default:
				c.need(false, "role: templates", "templates only insert fields (%s)", n)
			}
		}
		var b bytes.Buffer
		if err := t.Execute(&b, args); !c.ob(err == nil, "templates can be executed", at, "%v", err) {
			return
		}
		fn := evalName(f.name, base, name)
		p := filepath.Join(root, fn)
		if f.sub {
			p = filepath.Join(root, name, fn)
		}
		overlay[p] = b.Bytes()
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir:     c.L.Dir,
		Env:     os.Environ(),
		Overlay: overlay,
	}
	var pats []string
	hasMain := false
	for _, f := range fs {
		hasMain = hasMain || !f.sub
	}
	pats = append(pats, "./"+rel+"/"+name)
	if hasMain {
		pats = append(pats, "./"+rel)
	}
	ps, err := packages.Load(cfg, pats...)
	c.need(err == nil, "role: loader", "the generated packages can be loaded (%v)", err)
	n := 0
	for _, p := range ps {
		at := "generated package " + strings.TrimPrefix(p.PkgPath, modPath+"/"+rel)
		if p.PkgPath == pkgPath {
			at = "generated package <" + name + ">"
			n++
			c.ob(p.Name == name, "the package is named after the last element of its path", at, "it is called %s", p.Name)
		} else {
			at = "generated main package (package " + name + ")"
			c.ob(p.Name == "main", "main.go is a program", at, "it is package %s", p.Name)
			if p.Types != nil {
				f, _ := p.Types.Scope().Lookup("main").(*types.Func)
				c.ob(f != nil, "main.go is a program", at, "it has no function main")
			}
		}
		for _, er := range p.Errors {
			c.ob(false, "the generated files type-check", at, "%s", strings.ReplaceAll(er.Error(), root+"/", ""))
		}
		c.ob(p.Types != nil && len(p.CompiledGoFiles) > 0, "the generated files type-check", at, "no files are built")
		want := 0
		for _, f := range fs {
			if f.sub == (p.PkgPath == pkgPath) {
				want++
			}
		}
		c.ob(len(p.Errors) > 0 || len(p.CompiledGoFiles) == want, "all generated files are part of the package", at, "%d of %d", len(p.CompiledGoFiles), want)
	}
	c.ob(n == 1, "the package is generated", "package "+name, "it is not found")
}

// argsOf are the fields templates are given.
func (x *cli) argsOf(data, base *Term, pkgPath, name string) (map[string]string, bool) {
	if data == nil {
		return nil, false
	}
	st := structOf(data.T)
	if st == nil {
		return nil, false
	}
	t := data.T
	r := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		switch v := mkField(data, i, t); v {
		case base:
			r[st.Field(i).Name()] = name
		case base.Args[0]:
			r[st.Field(i).Name()] = pkgPath
		default:
			return nil, false
		}
	}
	return r, true
}

func evalName(t, base *Term, name string) string {
	if s, ok := t.strConst(); ok {
		return s
	}
	if t == base {
		return name
	}
	s := ""
	if t.K == KStr {
		for _, a := range t.Args {
			s += evalName(a, base, name)
		}
	}
	return path.Clean(s)
}

// exits: the program tells that the command failed.
func (x *cli) exits() {
	c := x.c
	p := c.L.pkg(relCLI)
	c.need(p != nil && p.Func("main") != nil, "role: main", "the program has a function main")
	e := c.eng(Config{Model: cliModel, NoMerge: true, KeepStr: true})
	f := p.Func("main")
	_, ps := c.run(e, f)
	n := 0
	for _, p := range ps {
		at := c.pathAt(f, p)
		for _, ev := range evs(p.Events, "call") {
			if ev.Name != "(*github.com/spf13/cobra.Command).Execute" && ev.Name != "(*github.com/spf13/cobra.Command).ExecuteContext" {
				continue
			}
			n++
			er := errOf(ev)
			if p.Facts.isNil(er) {
				continue
			}
			code := int64(-1)
			for _, ex := range evs(p.Events, "exit") {
				code = 1
				if len(ex.Args) == 1 {
					if k, ok := ex.Args[0].intConst(); ok {
						code = k
					}
				}
			}
			c.ob(p.Kind == OPanic || p.Kind == OExit && code != 0 && code != -1, "the program fails when the command fails", at, "it ends otherwise")
		}
	}
	c.need(n > 0, "role: main", "the program runs its commands")
}

func init() {
	reg("C43", rC43, "Every path of the command that passes a failing operation returns an error; on the others the files, their directories and templates are read off the path, file names are shown to be distinct and built by the go tool for every package name, and the instantiated templates are type-checked against the module.")
}
