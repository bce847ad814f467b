package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the type-checked program.
type Loaded struct {
	Dir    string
	Mod    string
	Pkgs   map[string]*packages.Package
	Prog   *ssa.Program
	SPkgs  map[string]*ssa.Package
	Fset   *token.FileSet
	All    []*ssa.Function // every function of the module
	NFiles int
}

const modPath = "github.com/gostdlib/concurrency"

func Load(dir string) (*Loaded, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir: dir,
		Env: os.Environ(),
	}
	// dependencies come from export data: only the module's own packages are parsed
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	l := &Loaded{Dir: dir, Mod: modPath, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			var s []string
			for _, e := range p.Errors {
				s = append(s, e.Error())
			}
			return nil, fmt.Errorf("package %s does not load: %s", p.PkgPath, strings.Join(s, "; "))
		}
		l.Pkgs[p.PkgPath] = p
		l.Fset = p.Fset
		l.NFiles += len(p.CompiledGoFiles)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	l.Prog = prog
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		l.SPkgs[pkgs[i].PkgPath] = p
	}
	// all functions: declared ones and the functions nested in them
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		l.All = append(l.All, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range pkgs {
		sp := l.SPkgs[p.PkgPath]
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				add(f)
			}
		}
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(o))
					}
				}
			}
		}
	}
	sort.Slice(l.All, func(i, j int) bool { return l.All[i].String() < l.All[j].String() })
	l.sentinels()
	return l, nil
}

func (l *Loaded) isModPkg(p string) bool {
	return p == l.Mod || strings.HasPrefix(p, l.Mod+"/")
}

// pkg returns a package of the module by relative path.
func (l *Loaded) pkg(rel string) *ssa.Package { return l.SPkgs[l.Mod+"/"+rel] }

// fn returns a package-level function.
func (l *Loaded) fn(rel, name string) *ssa.Function {
	p := l.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// typ returns a named type of a package.
func (l *Loaded) typ(rel, name string) *types.Named {
	p := l.pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// method returns a method declared on a named type (pointer or value receiver).
func (l *Loaded) method(rel, typ, name string) *ssa.Function {
	n := l.typ(rel, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return l.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// globalInit returns the instruction that initialises a package variable, if there is exactly one store to it.
func (l *Loaded) globalInit(g *ssa.Global) ssa.Value {
	var v ssa.Value
	n := 0
	if g.Pkg == nil {
		return nil
	}
	scan := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					v = s.Val
					n++
				}
			}
		}
	}
	if f := g.Pkg.Func("init"); f != nil {
		scan(f)
	}
	for _, f := range l.All {
		if f.Pkg == g.Pkg && f.Name() != "init" {
			scan(f)
		}
	}
	if n != 1 {
		return nil
	}
	return v
}

// sentinels finds the package variables that are never nil, such as errors made once.
func (l *Loaded) sentinels() {
	other := map[*ssa.Global]bool{} // used other than by reading or setting it
	for _, f := range l.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Val == ssa.Value(g) {
							other[g] = true
						}
					default:
						other[g] = true
					}
				}
			}
		}
	}
	for _, p := range l.SPkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || other[g] {
				continue
			}
			v := l.globalInit(g)
			if v == nil || v.Parent() != nil && v.Parent().Name() != "init" {
				continue
			}
			switch v := v.(type) {
			case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeChan, *ssa.Function:
				neverNil[g] = true
			case *ssa.Call:
				if f := v.Call.StaticCallee(); f != nil {
					switch fullName(f) {
					case "errors.New", "fmt.Errorf":
						neverNil[g] = true
					}
				}
			}
		}
	}
}

// regexpOf returns the pattern of a package-level regular expression.
func (l *Loaded) regexpOf(t *Term) (string, bool) {
	if t.K != KLoad || t.Args[0].K != KGlobal {
		return "", false
	}
	g, ok := t.Args[0].Ref.(*ssa.Global)
	if !ok {
		return "", false
	}
	v := l.globalInit(g)
	c, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	f := c.Call.StaticCallee()
	if f == nil || fullName(f) != "regexp.MustCompile" {
		return "", false
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

func classOf(pat string) ([]rune, bool) {
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	r = r.Simplify()
	for r.Op == syntax.OpCapture || r.Op == syntax.OpPlus {
		r = r.Sub[0]
	}
	if r.Op == syntax.OpLiteral && len(r.Rune) == 1 {
		return []rune{r.Rune[0], r.Rune[0]}, true
	}
	if r.Op != syntax.OpCharClass {
		return nil, false
	}
	return r.Rune, true
}

// charClass: the pattern matches a string exactly if it contains one of a set of characters.
func charClass(pat string) bool {
	_, ok := classOf(pat)
	return ok
}

func forbiddenRune(r rune) bool {
	return r >= '0' && r <= '9' || r == '-' || r == ' ' || r >= '\t' && r <= '\r'
}

func subsetOfForbidden(pat string) bool {
	c, ok := classOf(pat)
	if !ok {
		return false
	}
	for i := 0; i+1 < len(c); i += 2 {
		for r := c[i]; r <= c[i+1]; r++ {
			if !forbiddenRune(r) {
				return false
			}
			if r > 0x2000 {
				return false
			}
		}
	}
	return true
}

func supersetOfForbidden(pat string) bool {
	c, ok := classOf(pat)
	if !ok {
		return false
	}
	for _, want := range "0123456789- \t\n\f\r" {
		found := false
		for i := 0; i+1 < len(c); i += 2 {
			if want >= c[i] && want <= c[i+1] {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}
