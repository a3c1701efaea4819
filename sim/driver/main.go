package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"verifsim/overlay"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: check <property> quick|thorough | replay <file> | selftest <seconds>")
		os.Exit(4)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if len(os.Args) > 4 {
			repoDir = os.Args[4]
		}
		os.Exit(cmdCheck(os.Args[2], tier))
	case "setup":
		d := scratchDir()
		err := overlay.Build(repoDir, filepath.Join(verifDir, "sim"), d, filepath.Join(d, "node"))
		os.RemoveAll(d)
		if err != nil {
			fmt.Println("ERROR:", err)
			os.Exit(3)
		}
	case "replay":
		os.Exit(cmdReplay(os.Args[2]))
	case "selftest":
		n := 60
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		os.Exit(cmdSelftest(n))
	case "build":
		os.MkdirAll(os.Args[2], 0o755)
		if len(os.Args) > 3 {
			repoDir = os.Args[3]
		}
		if err := overlay.Build(repoDir, verifDir+"/sim", os.Args[2], os.Args[2]+"/node"); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	case "fuzz": // node scratch family|all seconds seed [prop]
		devFuzz(os.Args[2:])
	case "show": // node scratch case.json
		devShow(os.Args[2:])
	}
}

func devShow(a []string) {
	b, err := os.ReadFile(a[2])
	must(err)
	var c Case
	must(json.Unmarshal(b, &c))
	h := newRunner(a[0], a[1]).Run(&c)
	for i, r := range h.Steps {
		fmt.Printf("== step %d %v exit %d killed %v stuck %q crash %q\n", i, r.Step.Args, r.Exit, r.Killed, r.Stuck, r.Crash)
		if len(a) > 3 {
			for _, e := range r.Ev {
				fmt.Println(e.T-epoch, e.Kind, e.F)
			}
		}
		fmt.Println(r.Stdout)
		fmt.Println(r.Stderr)
		if r.With != nil {
			fmt.Printf("-- with exit %d\n%s\n%s\n", r.With.Exit, r.With.Stdout, r.With.Stderr)
		}
	}
	for _, v := range judge(h) {
		fmt.Printf("%s [%s] step %d: %s\n", v.Prop, v.Kind, v.Step, v.Msg)
	}
}

func devFuzz(a []string) {
	node, scratch, fam := a[0], a[1], a[2]
	secs, _ := strconv.Atoi(a[3])
	seed, _ := strconv.ParseUint(a[4], 10, 64)
	prop := ""
	if len(a) > 5 {
		prop = a[5]
	}
	var mu sync.Mutex
	seen := map[string]int{}
	total := newStats()
	var wg sync.WaitGroup
	start := time.Now()
	workers, first := 8, os.Getenv("FIRST") != "" // FIRST: stop at the first violation
	if n, _ := strconv.Atoi(os.Getenv("WORKERS")); n > 0 {
		workers = n
	}
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			dir := filepath.Join(scratch, fmt.Sprint("w", k))
			w := &worker{run: newRunner(node, dir), prop: prop, st: newStats(), deadline: time.Now().Add(time.Duration(secs) * time.Second)}
			w.found = func(c *Case, h *History, vs []Violation) {
				mu.Lock()
				defer mu.Unlock()
				for _, v := range vs {
					key := v.Prop + "-" + v.Kind
					seen[key]++
					if seen[key] <= 3 {
						fmt.Printf("[%s] %s step %d: %s\n", w.family, key, v.Step, v.Msg)
						b, _ := json.MarshalIndent(c, "", " ")
						os.WriteFile(filepath.Join(scratch, fmt.Sprintf("%s-%d.json", key, seen[key])), b, 0o644)
						if first {
							os.Exit(1)
						}
					}
				}
			}
			for i := uint64(0); !w.over(); i++ {
				r := newRng(seed*1000003 + uint64(k)*7919 + i)
				f := families[(int(i)+k)%len(families)]
				if fam != "all" {
					for _, x := range families {
						if x.name == fam {
							f = x
						}
					}
				}
				w.family = f.name
				f.gen(w, r)
			}
			mu.Lock()
			total.add(w.st)
			mu.Unlock()
		}()
	}
	wg.Wait()
	fmt.Println(total.Cases, "cases", total.Runs, "runs", time.Since(start), "sim", time.Duration(total.Sim))
	fmt.Println(total.Families, total.Exits)
	fmt.Println(total.Fired)
	for _, k := range sortedKeys(seen) {
		fmt.Println("  ", k, seen[k])
	}
}
