package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/overlay"
)

// verifDir may be set to work on a copy.
var verifDir = "/verif"

func init() {
	if d := os.Getenv("PKGRSIM_DIR"); d != "" {
		verifDir = d
	}
}

// repoDir is changed only while developing, by a fourth argument of check.
var repoDir = "/repo"

// budget is how long a check explores, in seconds.
func budget(tier string) int {
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	if tier == "thorough" {
		return 1500
	}
	return 45
}

// scratchDir makes a directory for everything a check writes while it runs.
func scratchDir() string {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		var st syscall.Statfs_t
		if syscall.Statfs(base, &st) != nil || int64(st.Bavail)*st.Bsize < 2<<30 {
			continue
		}
		if d, err := os.MkdirTemp(base, "pkgrsim-"); err == nil {
			return d
		}
	}
	d, err := os.MkdirTemp("", "pkgrsim-")
	must(err)
	return d
}

// replayFile is a violation that can be shown again.
type replayFile struct {
	Property string
	Kind     string
	Message  string
	Seed     uint64 // VERIF_SEED of the search
	Family   string
	Trace    string // digest over the traces of the minimised history
	Steps    []string
	Faults   []string
	Case     *Case
}

// known is one line of the known-findings file that still stands.
type known struct {
	prop, kind string
	re         *regexp.Regexp
	text       string
}

// loadKnown reads /verif/known-findings.txt.  Lines are
//
//	known: property=<id> kind=<kind> match=<regexp> -- <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown() []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "known: ")
		if !ok {
			continue
		}
		def, text, _ := strings.Cut(rest, " -- ")
		k := known{text: text}
		for _, f := range strings.SplitN(def, " ", 3) {
			n, v, _ := strings.Cut(f, "=")
			switch n {
			case "property":
				k.prop = v
			case "kind":
				k.kind = v
			case "match":
				k.re = regexp.MustCompile(v)
			}
		}
		if k.prop != "" && k.re != nil {
			out = append(out, k)
		}
	}
	return out
}

func isKnown(ks []known, v Violation) bool {
	for _, k := range ks {
		if k.prop == v.Prop && (k.kind == "" || k.kind == v.Kind) && k.re.MatchString(v.Msg) {
			return true
		}
	}
	return false
}

// pool runs workers until the deadline or until a violation is confirmed.
type pool struct {
	node, scratch, prop string
	seed                uint64
	fams                []family
	known               []known
	workers             int
	deadline            time.Time

	mu       sync.Mutex
	total    *stats
	best     *finding
	harness  []string
	unrepro  []string
	knownHit map[string]int
	detRuns  int
	detDiff  int
	samples  []any
	stop     atomic.Bool
	firstAt  time.Duration
	start    time.Time
}

type finding struct {
	c      *Case
	v      Violation
	family string
}

func (p *pool) runWorker(k int) {
	dir := filepath.Join(p.scratch, fmt.Sprint("w", k))
	w := &worker{run: newRunner(p.node, dir), prop: p.prop, st: newStats(), deadline: p.deadline}
	confirm := newRunner(p.node, filepath.Join(p.scratch, fmt.Sprint("c", k)))
	w.found = func(c *Case, h *History, vs []Violation) {
		for _, v := range vs {
			if isKnown(p.known, v) {
				p.mu.Lock()
				p.knownHit[v.Kind]++
				p.mu.Unlock()
				continue
			}
			// the same history again must show the same violation
			h2 := confirm.Run(c)
			ok := false
			for _, v2 := range judge(h2) {
				if v2.Prop == v.Prop && v2.Kind == v.Kind && v2.Step == v.Step {
					ok = true
				}
			}
			p.mu.Lock()
			if !ok {
				p.unrepro = append(p.unrepro, fmt.Sprintf("[%s] %s-%s step %d: %s", w.family, v.Prop, v.Kind, v.Step, v.Msg))
				b, _ := json.MarshalIndent(c, "", " ")
				os.WriteFile(filepath.Join(verifDir, "evidence", "unreproduced-"+v.Prop+".json"), b, 0o644)
				if len(p.unrepro) > 5 {
					p.stop.Store(true)
				}
			} else if p.best == nil || caseSize(c) < caseSize(p.best.c) {
				if p.best == nil {
					p.firstAt = time.Since(p.start)
				}
				p.best = &finding{c, v, w.family}
				p.stop.Store(true)
			}
			p.mu.Unlock()
			break
		}
	}
	w.halt = &p.stop
	defer func() {
		if e := recover(); e != nil {
			p.mu.Lock()
			if he, ok := e.(harnessError); ok {
				p.harness = append(p.harness, he.s)
			} else {
				p.harness = append(p.harness, fmt.Sprintf("panic: %v\n%s", e, debug.Stack()))
			}
			p.mu.Unlock()
			p.stop.Store(true)
		}
		p.mu.Lock()
		p.total.add(w.st)
		p.mu.Unlock()
	}()
	n := len(p.fams)
	for i := uint64(0); !w.over(); i++ {
		r := newRng(p.seed*1000003 + uint64(k)*7919*7919 + i*2654435761)
		f := p.fams[(int(i)+k)%n]
		w.family = f.name
		w.big = k < 2 && i < uint64(n) || i%200 < uint64(n) && k == 2
		first := true
		w.each = func(c *Case, h *History) {
			// determinism: every so often a case runs twice
			if first && i%24 == 0 {
				first = false
				h2 := confirm.Run(c)
				p.mu.Lock()
				p.detRuns++
				if h2.Trace != h.Trace {
					p.detDiff++
				}
				if len(p.samples) < 3 && k < 3 && i == 0 {
					p.samples = append(p.samples, sampleOf(f.name, c, h))
				}
				p.mu.Unlock()
			}
		}
		f.gen(w, r)
	}
}

func sampleOf(fam string, c *Case, h *History) any {
	var steps []any
	for _, r := range h.Steps {
		m := map[string]any{"args": strings.Join(r.Step.Args, " "), "exit": r.Exit, "schedule_seed": r.Step.SchedSeed, "schedule_mode": r.Step.Mode,
			"cpus": r.Step.NCPU, "trace_events": len(r.Ev), "simulated_s": float64(r.T1-r.T0) / 1e9}
		if len(r.Step.Faults) > 0 {
			m["faults"] = r.Step.Faults
		}
		steps = append(steps, m)
	}
	var repos []string
	for _, x := range c.World.Repos {
		s := x.Name + " " + x.URL + ":"
		for _, p := range x.Pkgs {
			s += " " + p.Name + "_" + p.Version
		}
		repos = append(repos, s)
	}
	return map[string]any{"family": fam, "repositories": repos, "packages": c.World.Projects[0].Cfg.Packages, "library": len(c.World.Projects[0].Lib),
		"steps": steps, "trace_digest": fmt.Sprintf("%016x", h.Trace)}
}

func caseSize(c *Case) int {
	b, _ := json.Marshal(c)
	return len(b)
}

func famsFor(prop string) []family {
	var out []family
	for _, f := range families {
		for _, p := range f.props {
			if p == prop {
				out = append(out, f)
			}
		}
	}
	return out
}

// cmdCheck decides one property.
func cmdCheck(prop, tier string) int {
	start := time.Now()
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	fams := famsFor(prop)
	if len(fams) == 0 {
		fmt.Println("no such property:", prop)
		return 4
	}
	scratch := scratchDir()
	cleanup := func() { os.RemoveAll(scratch) }
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
	go func() { <-sig; cleanup(); os.Exit(5) }()

	node := filepath.Join(scratch, "node")
	if err := overlay.Build(repoDir, filepath.Join(verifDir, "sim"), scratch, node); err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	buildT := time.Since(start)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})

	p := &pool{node: node, scratch: scratch, prop: prop, seed: seed, fams: fams, known: loadKnown(), workers: 8,
		total: newStats(), knownHit: map[string]int{}, start: time.Now()}
	p.deadline = time.Now().Add(time.Duration(budget(tier)) * time.Second)
	var wg sync.WaitGroup
	for k := 0; k < p.workers; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.runWorker(k) }()
	}
	wg.Wait()
	explored := time.Since(p.start)

	for _, k := range p.known {
		if k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	code := 0
	nviol := 0
	switch {
	case p.best != nil:
		nviol = 1
		code = 1
		m := newMinimiser(p, p.best)
		c, v, h := m.run(20 * time.Second)
		path := filepath.Join(verifDir, "evidence", "replay-"+prop+".json")
		writeReplay(path, c, v, h, seed, p.best.family)
		fmt.Printf("%s [%s], found in family %s after %.1f s: %s\n", prop, v.Kind, p.best.family, p.firstAt.Seconds(), v.Msg)
		printSteps(c)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	case len(p.harness) > 0:
		for _, s := range p.harness {
			fmt.Println("ERROR:", s)
		}
		code = 3
	case len(p.unrepro) > 0:
		fmt.Println("ERROR: histories that did not repeat:")
		for _, s := range p.unrepro {
			fmt.Println("  ", s)
		}
		code = 3
	case p.total.Cases == 0:
		fmt.Println("ERROR: nothing was explored")
		code = 3
	}
	p.writeEvidence(tier, buildT, explored, time.Since(start), nviol)
	fmt.Printf("%s %s: %d histories, %d invocations, %d distinct schedules, %s simulated in %.0f s (build %.0f s)\n",
		prop, tier, p.total.Cases, p.total.Runs, len(p.total.Schedules), time.Duration(p.total.Sim).Round(time.Second), explored.Seconds(), buildT.Seconds())
	return code
}

func printSteps(c *Case) {
	for i, s := range c.Steps {
		fmt.Printf("  step %d: pkgr %s (schedule mode %d)\n", i, strings.Join(s.Args, " "), s.Mode)
		for _, f := range s.Faults {
			fmt.Printf("    fault: %s\n", describeFault(f))
		}
		if s.With != nil {
			fmt.Printf("    at the same time: pkgr %s\n", strings.Join(s.With.Args, " "))
		}
	}
}

func writeReplay(path string, c *Case, v Violation, h *History, seed uint64, fam string) {
	rf := replayFile{Property: v.Prop, Kind: v.Kind, Message: v.Msg, Seed: seed, Family: fam, Trace: fmt.Sprintf("%016x", h.Trace), Case: c}
	for _, s := range c.Steps {
		rf.Steps = append(rf.Steps, "pkgr "+strings.Join(s.Args, " "))
		for _, f := range s.Faults {
			rf.Faults = append(rf.Faults, describeFault(f))
		}
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	must(os.WriteFile(path, append(b, '\n'), 0o644))
}

// cmdReplay shows a recorded violation again.
func cmdReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Case == nil {
		fmt.Println("ERROR: not a replay file:", file)
		return 3
	}
	scratch := scratchDir()
	defer os.RemoveAll(scratch)
	node := filepath.Join(scratch, "node")
	if err := overlay.Build(repoDir, filepath.Join(verifDir, "sim"), scratch, node); err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	h := newRunner(node, filepath.Join(scratch, "w")).Run(rf.Case)
	printSteps(rf.Case)
	for _, v := range judge(h) {
		if v.Prop == rf.Property && v.Kind == rf.Kind {
			same := "identical trace"
			if fmt.Sprintf("%016x", h.Trace) != rf.Trace {
				same = "the code or the toolchain changed: another trace"
			}
			fmt.Printf("%s [%s] step %d: %s (%s)\n", v.Prop, v.Kind, v.Step, v.Msg, same)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, file)
			return 1
		}
	}
	fmt.Println("the violation does not occur")
	return 0
}

var propNotes = map[string]string{}

func (p *pool) writeEvidence(tier string, build, explored, wall time.Duration, nviol int) {
	st := p.total
	perHour := func(n int) int { return int(float64(n) / explored.Hours()) }
	fired := 0
	for _, n := range st.Fired {
		fired += n
	}
	var famNames []string
	for _, f := range p.fams {
		famNames = append(famNames, f.name)
	}
	places := map[string]int{}
	for k, v := range st.Places {
		places[k] = v
	}
	cov := map[string]any{
		"evaluations":                   st.Cases,
		"distinct_nontrivial":           st.Nontrivial,
		"rule":                          "one evaluation is one simulated history: a generated world (repositories, indexes, configuration, library, R installation) and 1 to 5 invocations of the real pkgr under one scheduler seed per invocation, with the faults listed; it counts as distinct and non-trivial when the digest over its complete traces (every scheduling-visible event, file system call, request, R process, output) was not seen before in this run and a fault fired, or several invocations ran, or more than 100 events were recorded",
		"samples":                       p.samples,
		"families":                      st.Families,
		"invocations":                   st.Runs,
		"histories_per_hour":            perHour(st.Cases),
		"invocations_per_hour":          perHour(st.Runs),
		"seeds_per_hour":                perHour(st.Runs),
		"simulated_seconds":             st.Sim / 1e9,
		"faults_fired":                  st.Fired,
		"faults_fired_total":            fired,
		"disk_faults_by_call_and_place": places,
		"distinct_schedules":            len(st.Schedules),
		"distinct_measure":              "64-bit digests over the complete event traces of a history",
		"outcomes":                      st.Exits,
		"determinism_reruns":            p.detRuns,
		"determinism_differences":       p.detDiff,
		"unreproduced":                  len(p.unrepro),
		"known_findings_hit":            p.knownHit,
		"explored_s":                    explored.Seconds(),
		"build_s":                       build.Seconds(),
		"real_code":                     []string{"all of pkgr's Go packages and its Go dependencies, from /repo's working tree", "Go runtime scheduler, channels, maps, timers (patched: seeded choices, simulated clock)", "os, afero, net/http client, os/exec (real code above the system call / transport / fork boundary)", "kernel file system on a scratch directory"},
		"stubs":                         []string{"R (R CMD INSTALL, --version, library(), find.package): model process writing real files over simulated time", "HTTP servers and network: transport-level model", "process clock, CPU count, random source, process id: simulated"},
	}
	ev := map[string]any{
		"property": p.prop, "tier": tier, "seed": p.seed, "level": levelOf(p.prop), "coverage": cov,
		"assumptions": []string{
			"R is a model of R CMD INSTALL as documented (staged install, lock-free, exit status); its bugs and its on-disk details beyond DESCRIPTION, NAMESPACE, R/, inst/ and Meta/ are not covered",
			"one file system call is atomic; a kill leaves exactly the effects of completed calls (no reordering of unsynced writes after power loss)",
			"explored by seeded search: schedules, worlds and faults not drawn are not covered",
		},
		"wall_s": wall.Seconds(), "violations": nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verifDir, "evidence", p.prop+".json"), append(b, '\n'), 0o644))
}

func levelOf(prop string) string { return "exploration" }

// cmdSelftest runs cases of every family twice and compares their traces.
func cmdSelftest(secs int) int {
	scratch := scratchDir()
	defer os.RemoveAll(scratch)
	node := filepath.Join(scratch, "node")
	if err := overlay.Build(repoDir, filepath.Join(verifDir, "sim"), scratch, node); err != nil {
		fmt.Println("ERROR:", err)
		return 3
	}
	var mu sync.Mutex
	n := map[string]int{}
	diff := map[string]int{}
	var wg sync.WaitGroup
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{run: newRunner(node, filepath.Join(scratch, fmt.Sprint("w", k))), st: newStats(), deadline: deadline}
			second := newRunner(node, filepath.Join(scratch, fmt.Sprint("other", k)))
			w.found = func(*Case, *History, []Violation) {}
			w.each = func(c *Case, h *History) {
				h2 := second.Run(c)
				mu.Lock()
				n[w.family]++
				if h.Trace != h2.Trace {
					diff[w.family]++
					if diff[w.family] <= 2 {
						firstDiff(w.family, h, h2)
					}
				}
				mu.Unlock()
			}
			for i := uint64(0); !w.over(); i++ {
				f := families[(int(i)+k)%len(families)]
				w.family = f.name
				f.gen(w, newRng(uint64(k)*977+i))
			}
		}()
	}
	wg.Wait()
	bad := 0
	var names []string
	for f := range n {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		fmt.Printf("%-12s %6d histories run twice, %d differ\n", f, n[f], diff[f])
		bad += diff[f]
	}
	if bad > 0 {
		return 3
	}
	return 0
}

// firstDiff shows where two runs of one history part.
func firstDiff(fam string, a, b *History) {
	for i := range a.Steps {
		for _, xy := range [][2]*Res{{a.Steps[i], b.Steps[i]}, {a.Steps[i].With, b.Steps[i].With}} {
			x, y := xy[0], xy[1]
			if x == nil || y == nil {
				continue
			}
			for j := range x.Ev {
				if j >= len(y.Ev) || fmt.Sprint(x.Ev[j]) != fmt.Sprint(y.Ev[j]) {
					fmt.Printf("%s step %d event %d of %d/%d\n", fam, i, j, len(x.Ev), len(y.Ev))
					for k := max(0, j-3); k < j+2; k++ {
						if k < len(x.Ev) {
							fmt.Printf("   a %v\n", x.Ev[k])
						}
						if k < len(y.Ev) {
							fmt.Printf("   b %v\n", y.Ev[k])
						}
					}
					return
				}
			}
			if x.Stdout != y.Stdout {
				fmt.Printf("%s step %d stdout\n   a %.2000s\n   b %.2000s\n", fam, i, x.Stdout, y.Stdout)
				return
			}
			if pointers.ReplaceAllString(x.Stderr, "") != pointers.ReplaceAllString(y.Stderr, "") {
				fmt.Printf("%s step %d stderr\n   a %.2000s\n   b %.2000s\n", fam, i, x.Stderr, y.Stderr)
				return
			}
		}
	}
	fmt.Println(fam, "no difference found")
}
