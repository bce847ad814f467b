package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type rule struct {
	fn   func(*Check)
	what string
}

var rules = map[string]rule{}

func reg(id string, f func(*Check), what string) { rules[id] = rule{f, what} }

func drive(dir, prop, tier, out, known string, verbose bool) int {
	if tier == "build" {
		return handOver(dir, prop)
	}
	ids := strings.Split(prop, ",")
	if prop == "all" {
		ids = sortedKeys(rules)
	}
	start := time.Now()
	l, err := Load(dir)
	rc := 0
	for _, id := range ids {
		r, ok := rules[id]
		if !ok {
			fmt.Println("no such property:", id)
			return 2
		}
		c := &Check{L: l, Prop: id, Tier: tier, roots: map[string]bool{}}
		if err != nil {
			c.ob(false, "the module loads and type-checks", "module", "%v", err)
		} else {
			runRule(c, r)
			if tier == "thorough" {
				c.otherBuilds(dir)
			}
			c.findings(known)
		}
		if c.report(r, out, start, verbose) {
			rc = 1
		}
		start = time.Now()
	}
	return rc
}

// builds are what the thorough tier looks at apart from the build of the machine it runs on: they select other files
// and other sizes of int. Windows is not among them, the command line tool needs a module there that is not in reach.
var builds = [][]string{{"GOFLAGS=-mod=readonly -tags=race"}, {"GOOS=darwin", "GOARCH=arm64"}, {"GOARCH=386", "CGO_ENABLED=0"}}

// observed is what another build's run hands over.
type observed struct {
	Obs          []Ob
	Paths, Steps int
	Funcs        []string
}

func (c *Check) observed() observed {
	o := observed{Obs: c.Obs, Paths: c.other.Paths, Steps: c.other.Steps, Funcs: c.other.Funcs}
	for _, e := range c.engines {
		o.Paths += e.NPaths
		o.Steps += e.steps
		for f := range e.Funcs {
			o.Funcs = append(o.Funcs, fullName(f))
		}
	}
	return o
}

// otherBuilds decides the rule for each of the builds, in a process of its own.
func (c *Check) otherBuilds(dir string) {
	os_ := make([]observed, len(builds))
	errs := make([]error, len(builds))
	var wg sync.WaitGroup
	for i, b := range builds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-dir", dir, "-prop", c.Prop, "-tier", "build")
			cmd.Env = append(os.Environ(), b...)
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, os.Stderr
			if errs[i] = cmd.Run(); errs[i] == nil {
				errs[i] = json.Unmarshal(buf.Bytes(), &os_[i])
			}
		}()
	}
	wg.Wait()
	for i, b := range builds {
		at := " [" + strings.Join(b, " ") + "]"
		if !c.ob(errs[i] == nil, "the other builds can be analysed", "module"+at, "%v", errs[i]) {
			continue
		}
		c.ob(len(os_[i].Obs) > 0, "the rule applies to something", "module"+at, "%d obligations", len(os_[i].Obs))
		for _, o := range os_[i].Obs {
			o.At += at
			c.Obs = append(c.Obs, o)
		}
		c.other.Paths += os_[i].Paths
		c.other.Steps += os_[i].Steps
		c.other.Funcs = append(c.other.Funcs, os_[i].Funcs...)
	}
}

// handOver is the other side of otherBuilds.
func handOver(dir, prop string) int {
	r, ok := rules[prop]
	if !ok {
		return 2
	}
	l, err := Load(dir)
	c := &Check{L: l, Prop: prop, Tier: "thorough", roots: map[string]bool{}}
	if err != nil {
		c.ob(false, "the module loads and type-checks", "module", "%v", err)
	} else {
		runRule(c, r)
	}
	if err := json.NewEncoder(os.Stdout).Encode(c.observed()); err != nil {
		return 2
	}
	return 0
}

func runRule(c *Check, r rule) {
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(abort); ok {
				_ = a // already an obligation that failed
				return
			}
			c.ob(false, "the analysis completes", "analyzer", "%v\n%s", x, debug.Stack())
		}
	}()
	r.fn(c)
	for _, e := range c.engines {
		if e.Overflow != "" {
			c.ob(false, "the analysis completes within its bounds", "analyzer", "%s", e.Overflow)
		}
		for _, u := range e.unsup() {
			c.ob(false, "every construct met can be analysed", u, "not supported")
		}
	}
}

// findings reports what the committed file lists as known, and nothing else, apart from the violations. A line is
//
//	known: property=ID | RULE | FOUND | what fails
func (c *Check) findings(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := strings.SplitN(strings.TrimPrefix(l, "known: property="), "|", 4)
		if !strings.HasPrefix(l, "known: ") || len(p) != 4 || strings.TrimSpace(p[0]) != c.Prop {
			continue
		}
		hit := false
		for i := range c.Obs {
			if o := &c.Obs[i]; !o.OK && o.Rule == strings.TrimSpace(p[1]) && o.Detail == strings.TrimSpace(p[2]) {
				o.OK, o.Known, hit = true, true, true
			}
		}
		if hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, strings.TrimSpace(p[3]))
			c.Known++
		}
	}
}

// report prints the verdict and writes the evidence. It returns true on a violation.
func (c *Check) report(r rule, out string, start time.Time, verbose bool) bool {
	bad := c.failed()
	if len(c.Obs) == 0 {
		c.ob(false, "the rule applies to something", "module", "no obligation was generated")
		bad = c.failed()
	}
	seen := c.observed()
	paths, steps := seen.Paths, seen.Steps
	funcs := map[string]bool{}
	for _, f := range seen.Funcs {
		funcs[f] = true
	}
	disch := 0
	byRule := map[string]int{}
	sites := map[string]bool{}
	for _, o := range c.Obs {
		if o.OK && !o.Known {
			disch++
		}
		byRule[o.Rule]++
		sites[o.At] = true
	}
	if verbose {
		for _, o := range c.Obs {
			s := "ok  "
			if !o.OK {
				s = "FAIL"
			}
			fmt.Printf("  %s %s | %s | %s\n", s, o.Rule, o.At, o.Detail)
		}
	}
	var samples []any
	step := len(c.Obs)/12 + 1
	for i := 0; i < len(c.Obs); i += step {
		o := c.Obs[i]
		samples = append(samples, map[string]any{"rule": o.Rule, "at": o.At, "found": o.Detail, "holds": o.OK})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if out != "" {
		os.MkdirAll(out, 0o755)
		ev := map[string]any{
			"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other",
			"wall_s": time.Since(start).Seconds(),
			"coverage": map[string]any{
				"explanation":        r.what,
				"obligations":        len(c.Obs),
				"discharged":         disch,
				"known_findings":     c.Known,
				"rules":              byRule,
				"constructs":         len(sites),
				"entry_points":       sortedKeys(c.roots),
				"functions_analysed": sortedKeys(funcs),
				"abstract_paths":     paths,
				"instructions":       steps,
				"samples":            samples,
			},
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, c.Prop+".json"), append(b, '\n'), 0o644)
	}
	if len(bad) == 0 {
		fmt.Printf("%s holds: %d obligations on %d constructs, %d abstract paths through %d functions\n", c.Prop, len(c.Obs), len(sites), paths, len(funcs))
		return false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", c.Prop)
	for _, o := range bad {
		fmt.Fprintf(&sb, "violated: %s\n  at: %s\n  found: %s\n", o.Rule, o.At, o.Detail)
	}
	replay := "-"
	if out != "" {
		replay = filepath.Join(out, c.Prop+".violation.txt")
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	return true
}

var _ = sort.Strings

func init() {
	reg("C01", rC01, "every path of limited.Submit and of the goroutine it starts: the slot channel (capacity = size parameter of New) is sent to once before, and received from once after, the call of the job; never on NonBlocking paths")
	reg("C02", rC02, "as C01: one receive after the job for each send before it on every path, none kept on rejecting paths, nobody else uses the slot channel")
	reg("C03", rC03, "worker goroutines of pooled.New: counting loop with trip count size, receive loop that ends only on close, one call per receive; Submit hands over by send, or by go after a failed non-blocking send")
	reg("C04", rC04, "every path of both Submits: exactly one hand-over and one call of the job with the given Context on accepting paths, none on rejecting ones")
	reg("C05", rC05, "every path of both Submits: nil check, complete loop over the options, errors checked, no net effect on rejecting paths; option closures evaluated with both pool types")
	reg("C06", rC06, "WaitGroup typestate over the life of each job: Add before the hand-over, one Done after the call; Wait and Close wait")
	reg("C07", rC07, "counter typestate over the life of each job: +1 before the call, -1 after it and before Done; Running returns it")
	reg("C08", rC08, "no blocking operation on NonBlocking paths of both Submits and before the call in the job's goroutine; hand-over channel unbuffered")
	reg("C09", rC09, "symbolic evaluation of Len on the memory New returns gives the size parameter; fields read are set only in New")
	reg("C10", rC10, "order of Wait, close and unregistering on every path of Close; workers return on the closed channel; names fixed")
	reg("C11", rC11, "abstract string evaluation of the names New tries (base, first retries, retry from base-N); check and insert in one critical section")
	reg("C12", rC12, "lockset of every registry access; enumeration sends each ranged value once, into room reserved for it or without the lock, and closes")
	reg("C13", rC13, "facts on every path of both New functions: success implies size >= 1 and valid name, failure implies the contrary and no effect; the regular expression is exactly the refused character class")
	reg("C14", rC14, "lockset of every access to the recorded errors; append in Record; fresh copy in Errors; first element in Error")
}
