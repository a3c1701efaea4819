package main

import (
	"encoding/json"
	"path"
	"strings"
)

// ---- S23: the configured R and the configured library ----

func (c *ctx) judgeR() {
	pr := c.World.Projects[c.Step.Proj]
	pr.Cfg = c.cfg
	lost := ""
	if c.noR() {
		switch c.sub() {
		case "install", "plan", "inspect", "load":
			if c.finished && !c.reported && !c.flag("installed-from") {
				c.bad("S23", "unreported", "there is no R at %s, but nothing is reported", pr.r())
			}
		}
	}
	for _, p := range c.procs {
		want := pr.r()
		if p.phase == "renv" {
			want += "script"
		}
		if path.Clean(p.exe) != want {
			c.bad("S23", "exe", "R is started as %s (%s %s) instead of %s", p.exe, p.phase, p.pkg, want)
		}
		if p.phase != "load" && p.phase != "info" && p.phase != "libpaths" {
			// what R starts by name is of the same installation
			first := path.Dir(want)
			got, _ := p.getenv("PATH")
			user := simPath
			if v, ok := c.Step.Env["PATH"]; ok {
				user = v
			}
			if x, _, _ := strings.Cut(user, ":"); (pr.Cfg.RPath == "" || path.Clean(x) == first) && got != user || path.Clean(x) != first && pr.Cfg.RPath != "" && got != first+":"+user {
				c.bad("S23", "path", "R is started (%s %s) with PATH=%s; the user's is %s", p.phase, p.pkg, got, user)
			}
		}
		if p.phase == "renv" && path.Clean(p.dir) != path.Join("/sim", pr.Dir) {
			c.bad("S23", "renvdir", "renv is asked for its library in %s instead of the project's directory", p.dir)
		}
	}
	for _, e := range c.Ev {
		if e.Kind == "fault" && e.F[0] == "r" && e.F[2] == "renv" && e.F[1] != "slow" && e.F[1] != "short" {
			lost = e.F[1]
		}
	}
	flag := c.args["library"] != "" || c.Step.Env["PKGR_LIBRARY"] != ""
	asked := false
	for _, p := range c.procs {
		asked = asked || p.phase == "renv"
	}
	if c.cfg.Lock != "renv" || flag {
		if asked {
			c.bad("S23", "asked", "renv is asked for a library although Library is given")
		}
		lost = ""
	}
	if lost != "" && c.finished {
		if !c.reported {
			c.bad("S23", "unreported", "renv did not say which library to use (%s), but nothing is reported", lost)
		}
		if d := diffTree(c.lib0, c.lib1); d != "" || c.had0 != c.has1 {
			c.bad("S23", "touched", "the library is changed although renv did not say which one to use: %s", d)
		}
		if y := pr.ymlFile(); c.Pre[y].Data != c.Post[y].Data {
			c.bad("S23", "edited", "the configuration is changed although renv did not say which library to use")
		}
	}
	if c.sub() == "run" && c.finished && lost == "" {
		c.judgeRun()
	}
	// packages anywhere but in the library: R would not find them
	for _, p := range c.procs {
		if p.placed != "" && p.phase == "install" && path.Clean(p.placed) != c.lib {
			c.bad("S23", "library", "%s is installed into %s instead of %s", p.pkg, p.placed, c.lib)
		}
	}
}

// noR says whether the R that is configured does not exist.
func (c *ctx) noR() bool {
	pr := c.World.Projects[c.Step.Proj]
	pr.Cfg = c.cfg
	for x := range c.h.Case.World.exes() {
		if x == pr.r() || path.Dir(x)+"/R" == pr.r() {
			return false
		}
	}
	return true
}

// judgeRun checks the R session that pkgr run starts.
func (c *ctx) judgeRun() {
	n := 0
	for _, p := range c.procs {
		if p.phase != "run" {
			continue
		}
		n++
		have := false
		for _, k := range []string{"R_LIBS", "R_LIBS_USER", "R_LIBS_SITE"} {
			v, _ := p.getenv(k)
			for _, l := range strings.Split(v, ":") {
				if l == "" {
					continue
				}
				if !path.IsAbs(l) {
					l = path.Join(p.dir, l)
				}
				if path.Clean(l) == c.lib {
					have = true
				} else if t, ok := c.Post.tree(l); ok && len(t) > 0 {
					c.bad("S23", "runlib", "pkgr run starts R with the library %s (%s)", l, k)
				}
			}
		}
		if !have {
			c.bad("S23", "runlib", "pkgr run starts R without the library %s", c.lib)
		}
		for _, x := range c.cfg.Cust {
			if x.Name != c.args["pkg"] {
				continue
			}
			for _, k := range sortedKeys(x.Env) {
				if got, ok := p.getenv(k); !ok || got != x.Env[k] {
					c.bad("S23", "runenv", "pkgr run --pkg=%s starts R with %s=%q instead of %q", x.Name, k, got, x.Env[k])
				}
			}
		}
		// the environments of other packages must stay out of the session
		mine := map[string]string{}
		for _, x := range c.cfg.Cust {
			if x.Name == c.args["pkg"] {
				mine = x.Env
			}
		}
		for _, x := range c.cfg.Cust {
			for _, k := range sortedKeys(x.Env) {
				got, ok := p.getenv(k)
				if _, own := mine[k]; own || !ok || got != x.Env[k] || strings.HasPrefix(k, "R_LIBS") {
					continue
				}
				if c.Step.Env[k] != got {
					c.bad("S23", "runenv", "pkgr run --pkg=%s starts R with %s=%q, which is set for %s", c.args["pkg"], k, got, x.Name)
				}
			}
		}
	}
	if n != 1 && !c.faulted {
		c.bad("S23", "run", "pkgr run starts R %d times", n)
	}
}

// ---- S24: log files ----

func canonical(l LogLine) string {
	m := map[string]any{}
	for k, v := range l {
		if k != "time" {
			m[k] = v
		}
	}
	b, _ := json.Marshal(m)
	return string(b)
}

// isLog says whether a path is one of the configured log files.
func (c *ctx) isLog(p string) bool {
	pr := c.World.Projects[c.Step.Proj]
	return c.cfg.LogAll != "" && pr.path(c.cfg.LogAll) == p || c.cfg.LogInstall != "" && pr.path(c.cfg.LogInstall) == p
}

// logFiles are the files this run has to write records to.
func (c *ctx) logFiles() []string {
	pr := c.World.Projects[c.Step.Proj]
	all, inst := c.cfg.LogAll, c.cfg.LogInstall
	var out []string
	switch {
	case c.sub() == "install" && inst != "":
		out = append(out, inst)
	case c.sub() == "add" && c.installing() && inst != "":
		return nil // both
	case all != "":
		out = append(out, all)
	}
	for i := range out {
		out[i] = pr.path(out[i])
	}
	return out
}

// onlyLog says that nothing but accesses to the log files failed.
func (c *ctx) onlyLog() bool {
	n := 0
	for _, e := range c.Ev {
		if e.Kind != "fault" {
			continue
		}
		if e.F[0] != "fs" || e.F[1] != "errno" && e.F[1] != "torn" || !c.isLog("/sim/"+e.F[4]) {
			return false
		}
		n++
	}
	return n > 0
}

func judgeLogs(pair []*ctx) {
	for _, c := range pair {
		if c.Killed || !c.onlyLog() {
			continue
		}
		x := *c
		x.faulted = false
		switch {
		case !c.finished:
			c.bad("S24", "failed", "%s does not end because its log file cannot be written: %s%s", strings.Join(c.pos, " "), c.Stuck, c.Crash)
		case c.sub() == "install" && x.expectOK() && c.reported, c.sub() == "plan" && x.expectOK() && c.Exit != 0:
			c.bad("S24", "failed", "%s fails because its log file cannot be written (status %d): %s", strings.Join(c.pos, " "), c.Exit, c.errors())
		case c.sub() == "install" && x.expectOK():
			if d := matchLib(c.lib1, c.wants(), true); d != "" {
				c.bad("S24", "failed", "the library is wrong because the log file cannot be written: %s", d)
			}
		}
	}
	for _, c := range pair {
		pr := c.World.Projects[c.Step.Proj]
		if c.sub() != "install" || c.cfg.LogInstall == "" || c.cfg.LogAll == "" {
			continue
		}
		f := pr.path(c.cfg.LogAll)
		skip := f == pr.path(c.cfg.LogInstall)
		for _, x := range pair {
			if x == c {
				continue
			}
			y := x.World.Projects[x.Step.Proj]
			skip = skip || x.cfg.LogAll != "" && y.path(x.cfg.LogAll) == f || x.cfg.LogInstall != "" && y.path(x.cfg.LogInstall) == f
		}
		if !skip && c.Pre[f].Data != c.Post[f].Data {
			c.bad("S24", "both", "install changes the log file %s although it has one of its own", f)
		}
	}
	files := map[string][]*ctx{}
	for _, c := range pair {
		for _, f := range c.logFiles() {
			files[f] = append(files[f], c)
		}
	}
	for _, f := range sortedKeys(files) {
		cs := files[f]
		c := cs[0]
		over, skip := false, false
		for _, x := range pair {
			over = over || x.cfg.LogOver
			skip = skip || x.faultUnder(f) || x.diskFull() || x.Stuck != "" || x.Crash != ""
			if !contains2(cs, x) {
				// it may write there as well
				pr := x.World.Projects[x.Step.Proj]
				skip = skip || pr.path(x.cfg.LogAll) == f || pr.path(x.cfg.LogInstall) == f
			}
			if x.flag("json") {
				skip = true
			}
		}
		if skip || len(cs) > 1 && over {
			continue
		}
		pre, post := c.Pre[f].Data, c.Post[f].Data
		if over {
			if len(pre) > 0 && strings.HasPrefix(post, pre) && !c.Killed && c.Exit == 0 {
				c.bad("S24", "kept", "the log file %s is not overwritten", f)
				continue
			}
			if post == pre {
				pre = post
			} else {
				pre = ""
			}
		}
		if !strings.HasPrefix(post, pre) {
			c.bad("S24", "lost", "records of earlier runs are gone from the log file %s", f)
			continue
		}
		var have = map[string]int{}
		killed := false
		for _, x := range cs {
			killed = killed || x.Killed
		}
		for _, s := range strings.Split(strings.TrimPrefix(post, pre), "\n") {
			if s == "" {
				continue
			}
			var l LogLine
			if json.Unmarshal([]byte(s), &l) != nil {
				if !killed {
					c.bad("S24", "record", "the log file %s has a line that is no record: %.80q", f, s)
				}
				continue
			}
			have[canonical(l)]++
		}
		if killed {
			continue
		}
		printed := map[string]int{}
		for _, x := range cs {
			for _, l := range x.Log {
				printed[canonical(l)]++
			}
		}
		extra := ""
		for _, k := range sortedKeys(have) {
			if have[k] > printed[k] {
				extra = k
			}
		}
		if extra != "" {
			c.bad("S24", "extra", "the log file %s has a record more often than it was printed: %.120s", f, extra)
			continue
		}
		if n := len(c.Log); len(cs) == 1 && n > 0 && len(have) > 0 && have[canonical(c.Log[n-1])] == 0 {
			c.bad("S24", "missing", "the log file %s lacks the last record of the run: %.160s", f, canonical(c.Log[n-1]))
			continue
		}
		// records from before the configuration was read are not logged
		gap, any := "", false
		for _, x := range cs {
			n := len(x.Log)
			for n > 0 && have[canonical(x.Log[n-1])] > 0 {
				n--
				have[canonical(x.Log[n])]--
				any = true
			}
			if n > 0 {
				gap = canonical(x.Log[n-1])
			}
			if n == len(x.Log) && n > 0 && x.Exit == 0 {
				c.bad("S24", "empty", "%s writes nothing to the log file %s", strings.Join(x.pos, " "), f)
				any = false
				break
			}
		}
		for _, k := range sortedKeys(have) {
			if any && have[k] > 0 {
				c.bad("S24", "missing", "the log file %s lacks a record that was printed: %.160s", f, gap)
				break
			}
		}
	}
}

func contains2(cs []*ctx, x *ctx) bool {
	for _, c := range cs {
		if c == x {
			return true
		}
	}
	return false
}
