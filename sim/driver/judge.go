package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
)

// Violation is one broken property in one history.
type Violation struct {
	Prop string
	Kind string // what sort of breakage: the minimiser keeps it
	Step int
	Msg  string
}

// rproc is one R process of the trace.
type rproc struct {
	id         int
	phase, pkg string
	exe, dir   string
	args       []string
	env        []string
	start, end int   // event indices; end<0: never ended
	t0, t1     int64 // simulated times
	status     int
	placed     string // library it put the package into
	lib        string // --library argument
	path       string // package argument
}

func (p *rproc) getenv(k string) (string, bool) {
	v, ok := "", false
	for _, e := range p.env {
		if strings.HasPrefix(e, k+"=") {
			v, ok = e[len(k)+1:], true
		}
	}
	return v, ok
}

func (p *rproc) cmd() bool { return p.phase == "build" || p.phase == "install" }

// ctx is one invocation with everything the oracles derive from it.
type ctx struct {
	*Res
	idx      int
	h        *History
	args     map[string]string // flags
	pos      []string          // positional arguments, the subcommand first
	cfg      Config
	lib      string
	lib0     Snap
	lib1     Snap
	had0     bool
	has1     bool
	plan     *Plan
	procs    []*rproc
	finished bool // ended by itself without a runtime failure
	reported bool // non-zero status or an error was logged
	faulted  bool
	paired   bool // another pkgr ran at the same time
	want     map[string]Want
	stale    bool              // the index content used cannot be known
	damaged  bool              // R was killed over a package that pkgr cannot know to be damaged
	moved    bool              // a cached index was used that no longer describes the files served
	dbRepo   map[string]string // cached index file -> repository name
	under    map[string][]int  // pkgr's own changes by path
	byTop    map[string]Snap   // the library afterwards by package
	out      []Violation
}

// after is what the library holds of a package after the run.
func (c *ctx) after(name string) (Snap, bool) {
	if c.byTop == nil {
		c.byTop = map[string]Snap{}
		t, _ := c.Post.tree(c.lib)
		for p, e := range t {
			top, rest, _ := strings.Cut(p, "/")
			m := c.byTop[top]
			if m == nil {
				m = Snap{}
				c.byTop[top] = m
			}
			if rest != "" {
				m[rest] = e
			}
		}
	}
	m, ok := c.byTop[name]
	return m, ok
}

func (c *ctx) bad(prop, kind, format string, a ...any) {
	c.out = append(c.out, Violation{prop, kind, c.idx, fmt.Sprintf(format, a...)})
}

func (c *ctx) flag(k string) bool { v, ok := c.args[k]; return ok && v != "false" }

func (c *ctx) sub() string {
	if len(c.pos) == 0 {
		return ""
	}
	return c.pos[0]
}

func (r *Res) installing() bool {
	for _, a := range r.Step.Args {
		if a == "install" || a == "--install" {
			return true
		}
	}
	return false
}

// errorLogged says whether an error was logged, disregarding the complaint
// about directories in the library that are no packages.
func errorLogged(r *Res) bool {
	for _, l := range r.Log {
		switch l.str("level") {
		case "error", "fatal", "panic":
			if !r.aboutLeftover(l) {
				return true
			}
		}
	}
	return false
}

// aboutLeftover says whether a record complains that a directory that was there
// before has no DESCRIPTION.
func (r *Res) aboutLeftover(l LogLine) bool {
	b, _ := json.Marshal(l)
	if strings.Contains(string(b), "notapackage") {
		return true
	}
	if f, ok := strings.CutPrefix(l.str("msg"), "open "); ok {
		if f, ok = strings.CutSuffix(f, "/DESCRIPTION: no such file or directory"); ok {
			f = path.Clean(f)
			if !path.IsAbs(f) {
				f = path.Join("/sim", r.World.Projects[r.Step.Proj].Dir, f)
			}
			for _, d := range []string{f, path.Join(path.Dir(f), backupPrefix+path.Base(f))} {
				if _, has := r.Pre[d+"/DESCRIPTION"]; r.Pre[d].Dir && !has {
					return true
				}
			}
		}
	}
	return false
}

func newCtx(h *History, r *Res, idx int) *ctx {
	c := &ctx{Res: r, idx: idx, h: h, args: map[string]string{}}
	for i := 0; i < len(r.Step.Args); i++ {
		a := r.Step.Args[i]
		if strings.HasPrefix(a, "--") {
			k, v, _ := strings.Cut(a[2:], "=")
			c.args[k] = v
			continue
		}
		c.pos = append(c.pos, a)
	}
	pr := r.World.Projects[r.Step.Proj]
	c.cfg = pr.Cfg
	if c.flag("no-update") {
		c.cfg.NoUpdate = true
	}
	if c.flag("no-rollback") {
		c.cfg.NoRollback = true
	}
	if c.flag("no-secure") {
		c.cfg.NoSecure = true
	}
	if c.flag("strict") {
		c.cfg.Strict = true
	}
	if c.flag("update") {
		c.cfg.NoUpdate = false
	}
	if v := c.args["threads"]; v != "" {
		fmt.Sscan(v, &c.cfg.Threads)
	}
	if v := r.Step.Env["PKGR_RPATH"]; v != "" {
		c.cfg.RPath = v
	}
	if v := r.Step.Env["PKGR_LIBRARY"]; v != "" {
		c.cfg.Library = v
	}
	if v := c.args["library"]; v != "" {
		c.cfg.Library = v
	}
	if c.sub() == "add" && c.flag("install") {
		c.cfg.Packages = append([]string{}, c.cfg.Packages...)
		for _, n := range c.pos[1:] {
			if !contains(c.cfg.Packages, n) {
				c.cfg.Packages = append(c.cfg.Packages, n)
			}
		}
	}
	pr.Cfg = c.cfg
	r.World.Projects = append([]Project{}, r.World.Projects...)
	r.World.Projects[r.Step.Proj] = pr
	c.lib = pr.lib()
	c.lib0, c.had0 = r.Pre.tree(c.lib)
	c.lib1, c.has1 = r.Post.tree(c.lib)
	c.finished = !r.Killed && r.Stuck == "" && r.Crash == ""
	c.reported = r.Exit != 0 || errorLogged(r)
	c.faulted = len(r.Fired) > 0 || c.noR()
	c.plan = plan(&r.World, r.Step.Proj)
	c.dbRepo = map[string]string{}
	for _, n := range r.Pre.list(dbDir) {
		f := dbDir + "/" + n
		for _, x := range r.World.Repos {
			if m := x.marker(); m != "" && strings.Contains(r.Pre[f].Data, m) {
				c.dbRepo[f] = x.Name
			}
		}
	}
	for _, o := range h.Steps[:idx] {
		for _, e := range o.Ev {
			if e.Kind == "fault" && e.F[0] == "r" && e.F[1] == "partial" && e.F[2] == "install" {
				_, d := c.lib0[e.F[3]]
				_, m := c.lib0[e.F[3]+"/Meta/package.rds"]
				c.damaged = c.damaged || d && !m
			}
		}
	}
	byID := map[string]*rproc{}
	for i, e := range r.Ev {
		switch e.Kind {
		case "R+":
			p := &rproc{id: e.int(0), phase: e.F[1], pkg: e.F[2], exe: e.F[3], dir: e.F[4], start: i, end: -1, t0: e.T, t1: -1}
			json.Unmarshal([]byte(e.F[5]), &p.args)
			json.Unmarshal([]byte(e.F[6]), &p.env)
			for _, a := range p.args {
				if strings.HasPrefix(a, "--library=") {
					p.lib = strings.TrimPrefix(a, "--library=")
				}
			}
			if p.cmd() && len(p.args) > 0 {
				p.path = p.args[len(p.args)-1]
				if !path.IsAbs(p.path) {
					p.path = path.Join(p.dir, p.path)
				}
			}
			byID[e.F[0]] = p
			c.procs = append(c.procs, p)
		case "R-":
			if p := byID[e.F[0]]; p != nil {
				p.end, p.t1, p.status = i, e.T, e.int(3)
			}
		case "Rplaced":
			if p := byID[e.F[0]]; p != nil {
				p.placed = e.F[3]
			}
		}
	}
	return c
}

// mutation of the disk by pkgr itself: event index and path.
func mutating(e Event) bool {
	if e.Kind != "fs" || e.F[5] != "-" {
		return false
	}
	switch e.F[1] {
	case "create", "openw", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "truncate", "ftruncate", "write", "pwrite", "chmod", "fchmod", "chtimes":
		return true
	}
	return false
}

// fsPaths are the simulated paths a file system event touches.
func fsPaths(e Event) []string {
	p := []string{"/sim/" + e.F[2]}
	if len(e.F) > 6 && e.F[6] != "" {
		p = append(p, "/sim/"+e.F[6])
	}
	return p
}

func inside(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// touches lists event indices of pkgr's own changes at or below dir.
func (c *ctx) touches(dir string) []int {
	if c.under == nil {
		c.under = map[string][]int{}
		for i, e := range c.Ev {
			if !mutating(e) {
				continue
			}
			for _, p := range fsPaths(e) {
				for p != "/" && p != "." && p != "" {
					if l := c.under[p]; len(l) == 0 || l[len(l)-1] != i {
						c.under[p] = append(l, i)
					}
					p = path.Dir(p)
				}
			}
		}
	}
	return c.under[dir]
}

// faultUnder says whether a disk fault hit a path at or below one of dirs.
func (r *Res) faultUnder(dirs ...string) bool {
	for _, e := range r.Ev {
		if e.Kind == "fault" && e.F[0] == "fs" && e.F[1] != "pause" && e.F[1] != "stall" {
			for _, d := range dirs {
				if inside("/sim/"+e.F[4], d) {
					return true
				}
			}
		}
	}
	return false
}

func (r *Res) diskFull() bool {
	for _, e := range r.Ev {
		if e.Kind == "fault" && e.F[0] == "fs" && e.F[1] == "full" {
			return true
		}
	}
	return false
}

func (r *Res) fsFault() bool {
	for _, e := range r.Ev {
		if e.Kind == "fault" && e.F[0] == "fs" && e.F[1] != "stall" && e.F[1] != "pause" {
			return true
		}
	}
	return false
}

func (c *ctx) tail(n int) string {
	s := strings.TrimSpace(c.Stderr)
	if s == "" {
		s = strings.TrimSpace(c.Stdout)
	}
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " / ")
}

// errors lists the error messages logged.
func (c *ctx) errors() string {
	var s []string
	for _, l := range c.Log {
		switch l.str("level") {
		case "error", "fatal", "panic":
			m := l.str("msg")
			if e := l.str("error"); e != "" {
				m += " (" + e + ")"
			}
			s = append(s, m)
		}
	}
	if len(s) > 4 {
		s = s[:4]
	}
	return strings.Join(s, " / ")
}

// judge checks every property on a history.
func judge(h *History) []Violation {
	var out []Violation
	var ctxs []*ctx
	state := map[string]fetch{}
	for i, r := range h.Steps {
		for _, m := range r.Step.Mut {
			if m.Kind == "truncate" && strings.HasPrefix(m.Path, dbDir) {
				state = map[string]fetch{} // nothing of the cache can be used
			}
		}
		var pair []*ctx
		for _, x := range []*Res{r, r.With} {
			if x != nil {
				pair = append(pair, newCtx(h, x, i))
			}
		}
		if len(pair) == 2 {
			// either may use what the other fetched
			for _, c := range pair {
				c.paired = true
				if !r.installing() || !r.With.installing() {
					c.faulted = true // what one needs the other may remove
				}
				c.noteFetches(state)
			}
		}
		for _, c := range pair {
			c.resolveIndexes(state)
			ctxs = append(ctxs, c)
		}
		judgeLogs(pair)
		for _, c := range pair {
			x := c.Res
			if x.installing() {
				judgeInstall(c)
				if c.sub() == "add" {
					judgeEdit(c)
				}
			} else {
				judgeOther(c)
			}
			judgeIndex(c)
			judgePlan(c)
			judgeCert(c)
			c.judgeR()
			judgeRole(c)
			out = append(out, c.out...)
			c.out = nil
		}
	}
	out = append(out, judgeHistory(h, ctxs)...)
	return out
}

// ownLib says whether a process works for planned packages of this library.
func (c *ctx) judgeOrder() {
	of := map[string][]*rproc{}
	for _, q := range c.procs {
		of[q.pkg] = append(of[q.pkg], q)
	}
	done := func(d string, before int) bool {
		for _, q := range of[d] {
			if q.pkg == d && q.cmd() && q.placed != "" && path.Clean(q.lib) == c.lib && q.end >= 0 && q.end < before && q.status == 0 {
				return true
			}
		}
		return false
	}
	kept := func(d string) bool {
		if _, tar := c.plan.Tarballs[d]; tar {
			return false
		}
		e, ok := c.lib0[d+"/DESCRIPTION"]
		if !ok {
			return false
		}
		if _, ok := c.lib0[d+"/Meta/package.rds"]; !ok {
			return true // a damaged package counts as installed for pkgr
		}
		return c.cfg.NoUpdate || compareVersions(c.plan.Pkgs[d].Version, parseDCF(e.Data)["Version"]) <= 0
	}
	if hasBackups(c.lib0) {
		kept = func(d string) bool {
			// an interrupted update comes first: decide from the recovered library
			rec := recovered(c.Pre, c.lib)
			if _, tar := c.plan.Tarballs[d]; tar {
				return false
			}
			e, ok := rec[d+"/DESCRIPTION"]
			return ok && (c.cfg.NoUpdate || compareVersions(c.plan.Pkgs[d].Version, parseDCF(e.Data)["Version"]) <= 0)
		}
	}
	clean := c.finished && !c.reported && !c.faulted
	for _, p := range c.procs {
		if !p.cmd() {
			continue
		}
		tar := false
		deps := c.plan.Deps[p.pkg]
		if t, ok := c.plan.Tarballs[p.pkg]; ok && c.isTarballProc(p, t) {
			tar = true
			deps = c.plan.TarDeps[p.pkg]
		} else if _, ok := c.plan.Pkgs[p.pkg]; !ok {
			continue
		}
		prop := "S01"
		if tar {
			prop = "S19"
		}
		for _, d := range sortedKeys(deps) {
			if !kept(d) && !done(d, p.start) {
				c.bad(prop, "early", "R was started to %s %s before its dependency %s was completely installed", p.phase, p.pkg, d)
				continue
			}
			_, dtar := c.plan.Tarballs[d]
			for _, i := range c.touches(c.lib + "/" + d) {
				if i > p.start && (p.end < 0 && !c.Killed || i < p.end || p.end < 0) {
					c.bad(prop, "touched", "pkgr changed %s (%s %s) while R was busy with %s, which needs it", d, c.Ev[i].F[1], c.Ev[i].F[2], p.pkg)
					break
				}
				if i > p.start && clean && !dtar {
					c.bad(prop, "late", "pkgr was not done with %s (%s %s) when it started R for %s, which needs it", d, c.Ev[i].F[1], c.Ev[i].F[2], p.pkg)
					break
				}
			}
		}
		if tar {
			for _, d := range sortedKeys(c.tarNeeds(p.pkg)) {
				if !c.tarCycle(d, p.pkg, map[string]bool{}) && !done(d, p.start) {
					c.bad("S19", "order", "tarball package %s was started although the tarball package %s it needs was not installed", p.pkg, d)
				}
			}
			for _, q := range c.procs {
				_, planned := c.plan.Pkgs[q.pkg]
				t2, istar := c.plan.Tarballs[q.pkg]
				if q.cmd() && planned && !(istar && c.isTarballProc(q, t2)) && q.start > p.start && (c.plan.TarDeps[p.pkg][q.pkg]) {
					c.bad("S19", "order", "tarball package %s was started before the planned package %s it needs", p.pkg, q.pkg)
				}
				if q.cmd() && planned && !(istar && c.isTarballProc(q, t2)) && (q.start > p.start || q.end > p.start) {
					c.bad("S19", "last", "tarball package %s was started although the repository package %s was not done", p.pkg, q.pkg)
				}
			}
		}
	}
}

// packages is a library without what pkgr keeps there for itself, which it may
// clear away at any time.
func packages(lib Snap) Snap {
	out := Snap{}
	for p, e := range lib {
		if top, _, _ := strings.Cut(p, "/"); !bookkeeping(top) {
			out[p] = e
		}
	}
	return out
}

func hasBackups(lib Snap) bool {
	for p := range lib {
		if strings.HasPrefix(p, backupPrefix) {
			return true
		}
	}
	return false
}

// tarNeeds gives the tarball packages a tarball package needs, itself or through
// packages from repositories.
func (c *ctx) tarNeeds(p string) map[string]bool {
	out, seen := map[string]bool{}, map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		if _, ok := c.plan.Tarballs[n]; ok {
			out[n] = true
			return
		}
		for _, d := range c.plan.Direct[n] {
			visit(d)
		}
	}
	for _, d := range c.plan.TarDirect[p] {
		visit(d)
	}
	delete(out, p)
	return out
}

// tarCycle says whether a tarball package it needs in turn needs a tarball
// package, in whatever way.
func (c *ctx) tarCycle(q, p string, seen map[string]bool) bool {
	if q == p {
		return true
	}
	if seen[q] {
		return false
	}
	seen[q] = true
	for d := range c.tarNeeds(q) {
		if c.tarCycle(d, p, seen) {
			return true
		}
	}
	return false
}

// isTarballProc says whether an R process installs the tarball itself rather
// than a package of the same name from a repository.
func (c *ctx) isTarballProc(p *rproc, tarball string) bool {
	pl, ok := c.plan.Pkgs[p.pkg]
	if !ok {
		return true
	}
	if p.path == tarball {
		return true
	}
	// an unpacked directory, never a file of the package cache
	b := path.Base(p.path)
	return b == p.pkg && !strings.HasPrefix(b, pl.Name+"_")
}

func (c *ctx) judgeOnce() {
	n := map[string]int{}
	for _, p := range c.procs {
		if !p.cmd() {
			continue
		}
		kind := "repository"
		if t, ok := c.plan.Tarballs[p.pkg]; ok && c.isTarballProc(p, t) {
			kind = "tarball"
		} else if _, ok := c.plan.Pkgs[p.pkg]; !ok {
			if c.fsFault() && p.status != 0 && !path.IsAbs(p.args[len(p.args)-1]) {
				continue // a path pkgr could not resolve because of a disk fault: R refuses it
			}
			c.bad("S02", "unplanned", "R was started to %s %s, which is not planned", p.phase, p.pkg)
			continue
		}
		k := p.phase + " " + kind + " " + p.pkg
		n[k]++
		if n[k] == 2 {
			c.bad("S02", "twice", "R was started twice to %s %s (%s)", p.phase, p.pkg, kind)
		}
	}
	// dependents of failed packages
	for _, f := range c.procs {
		if !f.cmd() || f.end < 0 || f.status == 0 {
			continue
		}
		ftar := false
		if t, ok := c.plan.Tarballs[f.pkg]; ok && c.isTarballProc(f, t) {
			ftar = true
		}
		for _, p := range c.procs {
			if !p.cmd() || p.start < f.end || p == f {
				continue
			}
			if t, ok := c.plan.Tarballs[p.pkg]; ok && c.isTarballProc(p, t) {
				if !ftar && c.plan.TarDeps[p.pkg][f.pkg] || ftar && c.tarNeeds(p.pkg)[f.pkg] && !c.tarCycle(f.pkg, p.pkg, map[string]bool{}) {
					c.bad("S02", "dependent", "tarball package %s was attempted although %s, which it needs, had failed", p.pkg, f.pkg)
				}
			} else if !ftar && c.plan.Deps[p.pkg][f.pkg] {
				c.bad("S02", "dependent", "%s was attempted although %s, which it needs, had failed", p.pkg, f.pkg)
			}
		}
	}
}

// threads is the number of concurrent R processes an install may use.
func (c *ctx) threads() int {
	n := c.cfg.Threads
	if n < 1 {
		n = c.Step.NCPU
		if n == 0 {
			n = 4
		}
		if n > 8 {
			n = 8
		}
	}
	return n
}

func (c *ctx) judgeThreads() {
	n := c.threads()
	limit, what := n, "build or install processes"
	match := func(p *rproc) bool { return p.cmd() }
	if c.sub() == "load" {
		limit, what = 2*n, "sessions"
		match = func(p *rproc) bool { return p.phase == "load" || p.phase == "info" }
	}
	byStart, byEnd := map[int]bool{}, map[int]bool{}
	for _, p := range c.procs {
		if match(p) {
			byStart[p.start] = true
			if p.end >= 0 {
				byEnd[p.end] = true
			}
		}
	}
	active := 0
	for i := range c.Ev {
		if byStart[i] {
			if active++; active > limit {
				c.bad("S14", "limit", "%d R %s at the same time, with %d threads", active, what, n)
				return
			}
		}
		if byEnd[i] {
			active--
		}
	}
	if !c.installing() || !c.finished || c.reported || c.faulted || n < 2 {
		return
	}
	// work conservation
	type span struct{ first, last int64 }
	busy := map[string]*span{}
	var order []string
	for _, p := range c.procs {
		if !p.cmd() {
			continue
		}
		if _, tar := c.plan.Tarballs[p.pkg]; tar {
			return // tarballs are installed one by one by design
		}
		s := busy[p.pkg]
		if s == nil {
			s = &span{p.t0, p.t1}
			busy[p.pkg] = s
			order = append(order, p.pkg)
		}
		if p.t1 > s.last {
			s.last = p.t1
		}
	}
	if len(order) == 0 || len(order) > 100 {
		return
	}
	begin := busy[order[0]].first
	for _, p := range order {
		ready := begin
		for d := range c.plan.Deps[p] {
			if s := busy[d]; s != nil && s.last > ready {
				ready = s.last
			}
		}
		start := busy[p].first
		for _, q := range c.procs {
			if q.phase != "build" || q.pkg == p || q.t0 <= ready || q.t1 >= start {
				continue
			}
			// the largest number of busy workers during q
			most := 0
			for _, a := range append([]string{q.pkg}, order...) {
				t := busy[a].first
				if t < q.t0 {
					t = q.t0
				}
				if t > q.t1 {
					continue
				}
				k := 0
				for _, b := range order {
					if busy[b].first <= t && t <= busy[b].last {
						k++
					}
				}
				if k > most {
					most = k
				}
			}
			if most < n {
				c.bad("S14", "idle", "%s was ready but not started during the whole build of %s although only %d of %d threads were busy", p, q.pkg, most, n)
				return
			}
		}
	}
}

func (c *ctx) judgeEnv() {
	user := map[string]string{}
	base := map[string]string{"PATH": simPath, "HOME": "/sim/home", "TMPDIR": "/sim/tmp", "USER": "sim", "LANG": "C"}
	for k, v := range base {
		user[k] = v
	}
	for k, v := range c.Step.Env {
		user[k] = v
	}
	cust := map[string]map[string]string{}
	all := map[string]bool{}
	for _, x := range c.cfg.Cust {
		cust[x.Name] = x.Env
		for k := range x.Env {
			all[k] = true
		}
	}
	secret := map[string]bool{"GITHUB_TOKEN": true, "GITHUB_PAT": true, "GHE_TOKEN": true, "GHE_PAT": true, "AWS_ACCESS_KEY_ID": true, "AWS_SECRET_KEY": true}
	libs := map[string]string{}
	for _, p := range c.procs {
		if !p.cmd() {
			continue
		}
		for _, k := range sortedKeys(all) {
			got, has := p.getenv(k)
			if want, mine := cust[p.pkg][k]; mine {
				if !has || got != want {
					c.bad("S15", "custom", "R for %s has %s=%q instead of the customised %q", p.pkg, k, got, want)
				}
				continue
			}
			if want, ok := user[k]; ok {
				if got != want {
					c.bad("S15", "leak", "R for %s has %s=%q instead of the user's %q", p.pkg, k, got, want)
				}
			} else if has {
				c.bad("S15", "leak", "R for %s has %s=%q, which is customised for another package", p.pkg, k, got)
			}
		}
		for _, k := range sortedKeys(user) {
			if all[k] || secret[k] || user[k] == "" || k == "R_LIBS_USER" || k == "R_LIBS_SITE" || k == "R_LIBS" {
				continue
			}
			if got, _ := p.getenv(k); got != user[k] && !(k == "PATH" && strings.HasSuffix(got, user[k])) {
				c.bad("S15", "user", "R for %s has %s=%q instead of the user's %q", p.pkg, k, got, user[k])
			}
		}
		ul, _ := p.getenv("R_LIBS_USER")
		if ul == "" {
			c.bad("S15", "userlib", "R for %s has no user library of its own", p.pkg)
		} else {
			if ul == user["R_LIBS_USER"] {
				c.bad("S15", "userlib", "R for %s inherits the user's library %s", p.pkg, ul)
			}
			if o, dup := libs[ul]; dup {
				c.bad("S15", "shared", "R for %s shares its user library %s with %s", p.pkg, ul, o)
			}
			libs[ul] = p.phase + " " + p.pkg
			if inside(ul, c.lib) || inside(c.lib, ul) {
				c.bad("S15", "userlib", "the user library of R for %s is the target library", p.pkg)
			}
			if c.Pre[ul].Dir {
				c.bad("S15", "userlib", "the user library of R for %s is not a fresh directory", p.pkg)
			}
			made := c.faulted
			early := c.touches(ul)
			for k, i := range early {
				if i >= p.start {
					early = early[:k]
					break
				}
				if c.Ev[i].F[1] == "mkdir" && "/sim/"+c.Ev[i].F[2] == ul {
					made = true
				}
			}
			if !made {
				c.bad("S15", "userlib", "the user library of R for %s was not created", p.pkg)
			}
			for _, i := range early {
				for _, x := range fsPaths(c.Ev[i]) {
					if x != ul && inside(x, ul) {
						c.bad("S15", "userlib", "the user library of R for %s is not empty", p.pkg)
					}
				}
			}
		}
		if s, has := p.getenv("R_LIBS"); has && user["R_LIBS"] != "" {
			c.bad("S15", "rlibs", "R for %s inherits the user's R_LIBS=%s", p.pkg, s)
		}
		if s, has := p.getenv("R_LIBS_SITE"); has && s == user["R_LIBS_SITE"] && s != "" && s != c.lib {
			c.bad("S15", "sitelib", "R for %s inherits the user's R_LIBS_SITE", p.pkg)
		}
		if p.phase == "build" {
			found := path.Clean(p.lib) == c.lib
			for _, k := range []string{"R_LIBS", "R_LIBS_SITE"} {
				v, _ := p.getenv(k)
				for _, x := range strings.Split(v, ":") {
					if x != "" && path.Clean(x) == c.lib {
						found = true
					}
				}
			}
			if !found {
				c.bad("S15", "search", "R building %s does not search the target library", p.pkg)
			}
		}
	}
}

func (c *ctx) wants() map[string]Want {
	if c.want == nil {
		rec := recovered(c.Pre, c.lib)
		c.want = expected(&c.World, c.Step.Proj, rec, c.plan)
	}
	return c.want
}

// unavailable says whether the configuration cannot be satisfied.
func (c *ctx) unavailable() bool { return len(c.plan.Missing) > 0 }

// badRepo says whether some repository cannot be used at all.
func (c *ctx) badRepo() bool {
	for _, r := range c.World.Repos {
		if r.BadCert && !c.cfg.NoSecure {
			u := r.URL
			if r.Redirect != "" {
				u = r.Redirect
			}
			if strings.HasPrefix(u, "https") {
				return true
			}
		}
	}
	for _, k := range c.cfg.Cust {
		listed := k.Repo == ""
		for _, r := range c.World.Repos {
			listed = listed || r.Name == k.Repo
		}
		if !listed {
			return true // also when nothing needs the package
		}
	}
	return false
}

// expectOK says that nothing stands in the way of this install.
func (c *ctx) expectOK() bool {
	return !c.faulted && !c.unavailable() && !c.plan.Lost && !c.badRepo() && !(c.cfg.Strict && !c.had0) && !c.staleIndex()
}

func (c *ctx) judgeInstall1() {
	// S02: it ends
	if c.Stuck != "" {
		c.bad("S02", "stuck", "the install does not end: %s", c.Stuck)
	}
	if c.Crash != "" {
		c.bad("S02", "crash", "the install ends in a runtime failure: %s", c.Crash)
	}
	c.judgeOrder()
	c.judgeOnce()
	c.judgeThreads()
	c.judgeEnv()

	if !c.finished {
		return
	}
	stale := c.staleIndex()
	// S03
	if c.expectOK() && c.reported {
		c.bad("S03", "failed", "an install that nothing disturbs fails (status %d): %s", c.Exit, c.errors())
	}
	if !c.reported && !stale {
		if !c.has1 {
			c.bad("S03", "nolib", "the install reports success but there is no library")
		} else if d := matchLib(c.lib1, c.wants(), true); d != "" {
			c.bad("S03", "library", "after a successful install: %s", d)
		}
	}
	// S06
	if !c.reported && !stale {
		w := c.wants()
		var names []string
		for n := range c.plan.Pkgs {
			names = append(names, n)
		}
		for n := range c.plan.Tarballs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			x := w[n]
			var why string
			sub, _ := c.after(n)
			switch {
			case x.Old != nil:
				if _, ok := sub["DESCRIPTION"]; !ok {
					why = "it is missing"
				}
			case x.New != nil:
				why = matchInstalled(sub, x.New.Pkg, "", "")
			default:
				why = matchInstalled(sub, *x.TarP, "", "")
			}
			if why != "" {
				c.bad("S06", "silent", "no failure is reported although %s is not completely installed: %s", n, why)
				break
			}
		}
	}
	if c.unavailable() && !c.faulted {
		if !c.reported {
			c.bad("S06", "missing", "the requested package %s is offered by no repository, but nothing is reported", c.plan.Missing[0])
		}
		if d := diffTree(packages(c.lib0), packages(c.lib1)); d != "" || c.had0 != c.has1 {
			c.bad("S06", "missingtouch", "a requested package is offered by no repository, yet the library changed: %s", d)
		}
	}
	for _, l := range c.Log {
		name := ""
		switch {
		case strings.HasPrefix(l.str("msg"), "Successfully Installed"):
			name = l.str("package")
			if name == "" {
				name = l.str("pkg")
			}
		default:
			continue
		}
		ok := false
		for _, p := range c.procs {
			if p.pkg == name && p.cmd() && p.placed != "" && path.Clean(p.placed) == c.lib && p.end >= 0 && p.status == 0 {
				ok = true
			}
		}
		if !ok {
			c.bad("S06", "claim", "%s is logged as successfully installed, but R did not install it", name)
		}
	}
	// S04
	if !c.cfg.NoRollback && c.reported && !c.faultUnder(c.lib) && !c.diskFull() && !hasBackups(c.lib0) {
		lib0, lib1 := packages(c.lib0), packages(c.lib1)
		same := c.had0 == c.has1 && sameTree(lib0, lib1)
		if !same {
			full := c.has1 && c.Exit == 0 && !stale && matchLib(c.lib1, c.wants(), true) == ""
			if !full {
				d := diffTree(lib0, lib1)
				switch {
				case c.had0 && !c.has1:
					d = "it is gone"
				case !c.had0 && c.has1:
					d = "it was created and is still there"
				}
				c.bad("S04", "rollback", "after a failed install the library is neither the previous nor the planned one: %s", d)
			}
		}
	}
	if c.cfg.Strict && !c.had0 {
		if c.Exit == 0 && !c.faulted {
			c.bad("S17", "strict", "an install into a missing library ends without an error in strict mode")
		}
		if c.has1 {
			c.bad("S17", "strictcreated", "strict mode created the library")
		}
	}
	// S19
	if !c.reported {
		for _, n := range sortedKeys(c.plan.Tarballs) {
			k := c.World.Tarballs[c.plan.Tarballs[n]]
			sub, _ := c.after(n)
			if d := matchInstalled(sub, k, "", ""); d != "" {
				c.bad("S19", "content", "%s does not have the content of the listed tarball: %s", n, d)
			}
			for _, d := range k.hardDeps() {
				d = depName(d)
				if basePkgs[d] {
					continue
				}
				if t, _ := c.after(d); t["Meta/package.rds"].Data == "" {
					c.bad("S19", "dep", "%s, which the tarball package %s needs, is not installed", d, n)
				}
			}
		}
	}
}

// survives checks S05 for one install: every complete package still exists.
func (c *ctx) judgeSurvival() {
	if c.cfg.NoRollback {
		return
	}
	before := libPkgs(recoveredSnap(c.Pre, c.lib), c.lib)
	for _, n := range sortedKeys(before) {
		old := before[n]
		if _, ok := old["Meta/package.rds"]; !ok || strings.HasPrefix(n, backupPrefix) {
			continue
		}
		at, _ := c.after(n)
		if sameTree(old, at) {
			continue
		}
		if bk, _ := c.after(backupPrefix + n); sameTree(old, bk) {
			continue
		}
		why := "neither the old version nor a complete new one is there"
		if p, ok := c.plan.Pkgs[n]; ok {
			if why = matchPlaced(at, p.Pkg); why == "" {
				continue
			}
		}
		if t, ok := c.plan.Tarballs[n]; ok {
			if why = matchPlaced(at, c.World.Tarballs[t]); why == "" {
				continue
			}
		}
		c.bad("S05", "lost", "%s was in the library and is not complete anywhere any more: %s", n, why)
	}
}

// matchPlaced accepts a package R placed completely, annotated or not.
func matchPlaced(t Snap, p Pkg) string { return matchInstalled(t, p, "", "") }

// recoveredSnap is the disk with interrupted updates of one library taken back.
func recoveredSnap(s Snap, lib string) Snap {
	t, ok := s.tree(lib)
	if !ok || !hasBackups(t) {
		return s
	}
	out := Snap{}
	for p, e := range s {
		if !inside(p, lib) {
			out[p] = e
		}
	}
	out[lib] = s[lib]
	for p, e := range recovered(s, lib) {
		out[lib+"/"+p] = e
	}
	return out
}

func judgeInstall(c *ctx) {
	c.judgeInstall1()
	c.judgeSurvival()
	c.judgeFiles()
}

// judgeFiles: what R is given to build is exactly what was served (S07), and
// what is unpacked from a tarball is exactly its content (S09).
func (c *ctx) judgeFiles() {
	for _, p := range c.procs {
		if !p.cmd() {
			continue
		}
		if t, ok := c.plan.Tarballs[p.pkg]; ok && c.isTarballProc(p, t) {
			k := c.World.Tarballs[t]
			tree, ok := c.Post.tree(p.path)
			if !ok || c.Post[p.path].Dir == false {
				continue
			}
			for _, f := range k.files() {
				if e, ok := tree[f.name]; !ok || e.Data != f.data {
					c.bad("S09", "unpacked", "R was given a copy of tarball package %s in which %s is missing or differs", p.pkg, f.name)
					break
				}
			}
			continue
		}
		pl, ok := c.plan.Pkgs[p.pkg]
		if !ok || p.phase != "build" && pl.BinFor == "" || c.staleIndex() {
			continue
		}
		e, ok := c.Post[p.path]
		if !ok || e.Dir {
			continue
		}
		if e.Data != string(pl.tarball()) {
			c.bad("S07", "content", "R was given a file for %s that is not what the repository serves (%d of %d bytes)", p.pkg, len(e.Data), len(pl.tarball()))
		}
	}
}
