package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dumpFn(l *Loaded, spec string) {
	pk, name, _ := strings.Cut(spec, ":")
	var f *ssa.Function
	if t, m, ok := strings.Cut(name, "."); ok {
		f = l.method(pk, t, m)
	} else {
		f = l.fn(pk, name)
	}
	if f == nil {
		fmt.Println("not found")
		return
	}
	cfg := Config{Async: asyncSubmit()}
	if pk == relSlices || pk == relChans {
		cfg = accessCfg(l)
	}
	switch os.Getenv("CFG") {
	case "coarse":
		cfg = Config{Coarse: true, Cut: true, Carry: func(t types.Type) bool { return true }, Recording: tFalse, Drop: func(e *Event) bool { return strings.HasPrefix(e.Kind, "atomic.") }}
	}
	if os.Getenv("SPANS") != "" {
		cfg.Spans, cfg.Recording = true, nil
	}
	e := NewEngine(l, cfg)
	ps := e.Run(f, e.params(f), nil)
	for i, p := range ps {
		fmt.Printf("=== path %d %s\n", i, kindName(p.Kind))
		fmt.Print(p.Dump(l, "  "))
	}
	fmt.Println(len(ps), "paths", e.steps, "steps", "overflow:", e.Overflow, "unsup:", e.unsup())
}

func kindName(k int) string { return []string{"return", "panic", "exit", "cut", "iter"}[k] }

func (p *Path) Dump(l *Loaded, ind string) string {
	var sb strings.Builder
	var fs []string
	for f := p.Facts; f != nil; f = f.prev {
		s := f.t.String()
		if !f.v {
			s = "!" + s
		}
		fs = append([]string{s}, fs...)
	}
	fmt.Fprintf(&sb, "%sfacts: %s\n", ind, strings.Join(fs, "; "))
	for _, e := range p.Events {
		pos := ""
		if e.Instr != nil {
			pos = l.pos(e.Instr)
		}
		b := ""
		if e.Blocking {
			b = " [blocking]"
		}
		fmt.Fprintf(&sb, "%s%s %s %v -> %v%s  %s\n", ind, e.Kind, e.Name, e.Args, e.Res, b, pos)
		for i, bp := range e.Bodies {
			fmt.Fprintf(&sb, "%s  body %d %s\n", ind, i, kindName(bp.Kind))
			sb.WriteString(bp.Dump(l, ind+"    "))
		}
	}
	fmt.Fprintf(&sb, "%sresults: %v\n", ind, p.Results)
	return sb.String()
}

// pos gives file:line of an instruction, or of its function.
func (l *Loaded) pos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	p := i.Pos()
	if !p.IsValid() {
		// nearest instruction of the block with a position
		if b := i.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
				}
				if x == i && p.IsValid() {
					break
				}
			}
			if !p.IsValid() {
				p = i.Parent().Pos()
			}
		}
	}
	if !p.IsValid() {
		return "?"
	}
	q := l.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, l.Dir+"/") + ":" + fmt.Sprint(q.Line)
}

// debugPath prints a path while rules are developed (DBGX=1).
func debugPath(what string, p *Path, before []*Event) {
	if os.Getenv("DBGX") == "" {
		return
	}
	fmt.Println("PATH", what)
	for f := p.Facts; f != nil; f = f.prev {
		fmt.Println("   fact", f.t, f.v)
	}
	for _, e := range before {
		fmt.Println("   ev", e.Kind, e.Name)
		for _, a := range e.Args {
			fmt.Println("       ", a)
		}
	}
}
