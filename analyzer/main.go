package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	dir := flag.String("dir", "/repo", "module to analyse")
	dump := flag.String("dump", "", "pkg:func or pkg:Type.method to dump")
	prop := flag.String("prop", "", "property to decide, or all")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "directory for evidence and reports")
	known := flag.String("known", "/verif/KNOWN_FINDINGS.txt", "known findings")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	if *dump != "" {
		l, err := Load(*dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dumpFn(l, *dump)
		return
	}
	os.Exit(drive(*dir, *prop, *tier, *out, *known, *verbose))
}
