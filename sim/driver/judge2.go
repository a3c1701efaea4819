package main

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"
)

// ---- repository indexes ----

// fetch is one successful retrieval of an index, or of several identical ones.
type fetch struct {
	end  int64
	pkgs []Pkg
	bin  []Pkg
	alt  []string // other content the cache may hold instead
}

// indexes are the index files of a repository that exist.
func (r Repo) indexes(rv string) []string {
	out := []string{"src/contrib/PACKAGES"}
	if r.MPN && !r.NoBin {
		out = append(out, r.binDir(minorOf(rv))+"/PACKAGES")
	}
	return out
}

func indexContent(pkgs, bin []Pkg) string { return fmt.Sprint(pkgs, bin) }

// fetched says whether this run obtained the current index of a repository.
func (c *ctx) fetched(r Repo) (ok, tried bool) {
	all := true
	for _, x := range r.indexes(c.World.R.Version) {
		got, t := c.fetchedFile(r, x)
		tried = tried || t
		all = all && got
	}
	return all, tried
}

func (c *ctx) fetchedFile(r Repo, file string) (ok, tried bool) {
	if r.Local {
		p := path.Join(r.URL, file)
		for _, e := range c.Ev {
			if e.Kind == "fs" && "/sim/"+e.F[2] == p && (e.F[1] == "open" || e.F[1] == "read") {
				tried = true
				if e.F[5] == "-" {
					ok = true
				}
			}
		}
		return
	}
	u := strings.TrimSuffix(r.URL, "/") + "/" + file
	urls := map[string]bool{u: true}
	if r.Redirect != "" {
		_, rest := splitURL(u)
		urls[strings.TrimSuffix(r.Redirect, "/")+"/"+rest] = true
	}
	for _, e := range c.Ev {
		switch e.Kind {
		case "http+":
			if urls[e.F[2]] {
				tried = true
			}
		case "http-":
			if urls[e.F[2]] && e.F[3] == "200" {
				ok = true
			}
		}
	}
	return
}

func (c *ctx) maxAge() int64 {
	if v, ok := c.Step.Env["R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE"]; ok {
		n := int64(0)
		if _, err := fmt.Sscan(v, &n); err == nil && fmt.Sprint(n) == v {
			return n
		}
	}
	return 3600
}

// usesIndex says whether the subcommand plans.
func (c *ctx) usesIndex() bool {
	switch c.sub() {
	case "install", "plan", "inspect":
		return !c.flag("installed-from")
	case "add":
		return c.installing()
	}
	return false
}

// planRan says whether the run got far enough to use the indexes.
func (c *ctx) planRan() bool {
	if c.sub() == "inspect" && c.Exit == 0 {
		return true
	}
	for _, p := range c.procs {
		if p.cmd() {
			return true
		}
	}
	for _, l := range c.Log {
		if _, ok := l["total_packages_required"]; ok {
			return true
		}
	}
	return false
}

// staleIndex replaces, in the world this run is judged against, the content
// of repositories that were not asked by what earlier runs fetched; it says
// whether that is impossible to know.
func (c *ctx) staleIndex() bool {
	return c.stale || c.moved || c.damaged
}

// indexKey identifies what a cached index belongs to.
func indexKey(r Repo, w *World) string {
	return fmt.Sprint(r.Name, "|", r.URL, "|", w.R.Version, "|", r.MPN, "|", r.Suffix)
}

// resolveIndexes determines which index content this run used.
func (c *ctx) resolveIndexes(state map[string]fetch) {
	w := &c.World
	repos := append([]Repo{}, w.Repos...)
	changed := false
	if c.usesIndex() && c.finished && c.planRan() {
		for i, r := range repos {
			ok, tried := c.fetched(r)
			if tried {
				if !ok && !c.fsFault() && !r.Local {
					c.bad("S10", "partial", "pkgr planned although the index of %s could not be obtained", r.Name)
				}
				continue
			}
			f, have := state[indexKey(r, w)]
			age := (c.T0 - f.end) / 1e9
			if !have {
				c.bad("S11", "unknown", "pkgr used an index of %s (%s, R %s) without ever having fetched it", r.Name, r.URL, w.R.Version)
				c.stale = true
				continue
			}
			if age > c.maxAge()+2 {
				c.bad("S11", "old", "pkgr used a cached index of %s that is %d s old (maximum %d s)", r.Name, age, c.maxAge())
			}
			for _, a := range f.alt {
				if a != indexContent(f.pkgs, f.bin) {
					c.stale = true
				}
			}
			if indexContent(f.pkgs, f.bin) != indexContent(r.Pkgs, r.Bin) {
				repos[i].Pkgs, repos[i].Bin = f.pkgs, f.bin
				changed = true
			}
		}
	}
	if changed {
		w.Repos = repos
		c.plan = plan(w, c.Step.Proj)
		c.want = nil
		// package files may have gone with the old index
		c.moved = true
	}
	c.noteFetches(state)
}

func (c *ctx) noteFetches(state map[string]fetch) {
	for _, r := range c.World.Repos {
		if ok, _ := c.fetched(r); ok {
			f := fetch{end: c.T1, pkgs: r.Pkgs, bin: r.Bin}
			if old, have := state[indexKey(r, &c.World)]; have && (c.faulted || !c.finished || c.Killed) {
				// what was fetched may not have reached the cache
				f.alt = append(append([]string{}, old.alt...), indexContent(old.pkgs, old.bin))
			}
			state[indexKey(r, &c.World)] = f
		}
	}
}

const dbDir = "/sim/home/.cache/pkgr/r_packagedb_caches"

func judgeIndex(c *ctx) {
	if !c.usesIndex() || !c.finished {
		return
	}
	// S10: an index that cannot be had stops everything
	failed := ""
	for _, r := range c.World.Repos {
		if ok, tried := c.fetched(r); tried && !ok && !r.Local {
			failed = r.Name
		}
	}
	if failed != "" {
		if c.Exit == 0 {
			c.bad("S10", "ignored", "the index of %s cannot be obtained, but pkgr ends with status 0", failed)
		}
		if c.had0 != c.has1 || !sameTree(c.lib0, c.lib1) {
			c.bad("S10", "changed", "the index of %s cannot be obtained, but the library changed", failed)
		}
		for _, p := range c.procs {
			if p.cmd() {
				c.bad("S10", "went on", "the index of %s cannot be obtained, but pkgr goes on to install %s", failed, p.pkg)
				break
			}
		}
		return
	}
	if c.stale || c.Exit != 0 {
		return
	}
	if c.unavailable() {
		if !c.faulted && len(c.World.Repos) > 0 {
			c.bad("S10", "unavailable", "%s can be had from none of the repositories it may come from, but pkgr %s ends with status 0", c.plan.Missing[0], c.sub())
		}
		return
	}
	// the plan as logged
	got := map[string][2]string{}
	for _, l := range c.Log {
		if l.str("relationship") != "" && l.str("pkg") != "" {
			k := l.str("pkg")
			v := [2]string{l.str("repo"), l.str("version")}
			if o, ok := got[k]; ok && o != v {
				c.bad("S10", "ambiguous", "%s is planned both as %v and %v", k, o, v)
			}
			got[k] = v
		}
	}
	if len(got) > 0 {
		for _, n := range sortedKeys(c.plan.Pkgs) {
			p := c.plan.Pkgs[n]
			g, ok := got[n]
			if !ok {
				c.bad("S10", "unplanned", "%s is not planned", n)
			} else if g[0] != p.Repo || g[1] != p.Version {
				c.bad("S10", "selection", "%s is planned as version %s from %s instead of %s from %s", n, g[1], g[0], p.Version, p.Repo)
			}
		}
		for _, n := range sortedKeys(got) {
			if _, ok := c.plan.Pkgs[n]; !ok {
				c.bad("S10", "extra", "%s is planned but not needed", n)
			}
		}
	}
}

// ---- certificates ----

func judgeCert(c *ctx) {
	if c.cfg.NoSecure || !c.finished {
		return
	}
	for i, r := range c.World.Repos {
		if !r.BadCert || r.Local {
			continue
		}
		u := r.URL
		if r.Redirect != "" {
			u = r.Redirect
		}
		if !strings.HasPrefix(u, "https") {
			continue
		}
		if c.usesIndex() {
			_, tried := c.fetched(r)
			if tried && c.Exit == 0 && !errorLogged(c.Res) {
				c.bad("S20", "accepted", "the certificate of %s does not verify, but the run reports no failure", r.Name)
			}
		}
		for _, e := range c.Ev {
			if e.Kind == "http+" && e.F[3] == "true" {
				c.bad("S20", "insecure", "certificate verification is off in the request for %s", e.F[2])
				break
			}
		}
		// content only that server has
		for _, p := range append(append([]Pkg{}, r.Pkgs...), r.Bin...) {
			other := false
			for j, q := range c.World.Repos {
				if j == i {
					continue
				}
				for _, x := range q.Pkgs {
					if x.Name == p.Name && x.Origin == p.Origin {
						other = true
					}
				}
			}
			if other {
				continue
			}
			data := string(p.tarball())
			for _, f := range sortedKeys(c.Post) {
				if c.Post[f].Data == data && data != "" && c.Pre[f].Data != data && !inside(f, r.URL) {
					c.bad("S20", "kept", "%s of %s, whose certificate does not verify, was stored as %s", p.Name, r.Name, f)
				}
			}
			if t, ok := c.lib1[p.Name+"/R/"+p.Name+".R"]; ok && t.Data != c.lib0[p.Name+"/R/"+p.Name+".R"].Data {
				for _, f := range p.files() {
					if f.name == "R/"+p.Name+".R" && f.data == t.Data {
						c.bad("S20", "installed", "%s of %s, whose certificate does not verify, was installed", p.Name, r.Name)
					}
				}
			}
		}
	}
}

// ---- the other subcommands ----

func judgeOther(c *ctx) {
	// S17
	if c.paired {
		// the other one may change it
	} else if c.had0 != c.has1 {
		c.bad("S17", "library", "%s made the library appear or disappear", c.sub())
	} else if d := diffTree(c.lib0, c.lib1); d != "" {
		c.bad("S17", "library", "%s changed the library: %s", c.sub(), d)
	}
	for _, e := range c.Ev {
		if mutating(e) {
			for _, p := range fsPaths(e) {
				if inside(p, c.lib) {
					c.bad("S17", "touch", "%s changes something in the library: %s %s", c.sub(), e.F[1], e.F[2])
					return
				}
			}
		}
	}
	switch c.sub() {
	case "add", "remove":
		judgeEdit(c)
	case "load":
		judgeLoad(c)
		c.judgeThreads()
	case "clean":
		judgeClean(c)
	}
	if c.Stuck != "" || c.Crash != "" {
		p := map[string]string{"add": "S12", "remove": "S12", "load": "S13", "clean": "S21", "plan": "S18", "inspect": "S18"}[c.sub()]
		if p != "" {
			c.bad(p, "crash", "%s does not end normally: %s%s", c.sub(), c.Stuck, c.Crash)
		}
	}
}

// packageList finds the block list of the Packages section: line numbers of
// its items and their names.
func packageList(lines []string) (items map[int]string, head int) {
	items = map[int]string{}
	head = -1
	in := false
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(l, "Packages:") {
			in, head = true, i
			if v := strings.TrimSpace(strings.TrimPrefix(t, "Packages:")); strings.HasPrefix(v, "[") && strings.HasSuffix(v, "]") {
				for k, n := range strings.Split(strings.Trim(v, "[]"), ",") {
					if n = strings.Trim(strings.TrimSpace(n), `"'`); n != "" {
						items[-1-k] = n
					}
				}
			}
			continue
		}
		if in && l != "" && l[0] != ' ' && l[0] != '#' && l[0] != '-' {
			in = false
		}
		if in && strings.HasPrefix(t, "- ") {
			n := strings.TrimSpace(t[2:])
			if k := strings.Index(n, " #"); k >= 0 {
				n = strings.TrimSpace(n[:k])
			}
			items[i] = strings.Trim(n, `"'`)
		}
	}
	return
}

func contentLines(s string) []string {
	l := strings.Split(s, "\n")
	for len(l) > 0 && strings.TrimSpace(l[len(l)-1]) == "" {
		l = l[:len(l)-1]
	}
	return l
}

// edited says whether after is before with exactly the requested edit.
func edited(before, after string, add bool, names []string) string {
	b, a := contentLines(before), contentLines(after)
	bi, bh := packageList(b)
	ai, _ := packageList(a)
	want := map[string]int{}
	for _, n := range bi {
		want[n]++
	}
	var fresh []string
	for _, n := range names {
		if add && want[n] == 0 {
			want[n] = 1
			fresh = append(fresh, n)
		}
		if !add {
			delete(want, n)
		}
	}
	got := map[string]int{}
	for _, n := range ai {
		got[n]++
	}
	for _, n := range sortedKeys(want) {
		if got[n] != want[n] {
			return fmt.Sprintf("Packages lists %s %d times instead of %d", n, got[n], want[n])
		}
	}
	for _, n := range sortedKeys(got) {
		if want[n] == 0 {
			return "Packages lists " + n
		}
	}
	// every other line stays
	named := map[string]bool{}
	for _, n := range names {
		named[n] = true
	}
	isFresh := map[string]bool{}
	for _, n := range fresh {
		isFresh[n] = true
	}
	var keepB, keepA []string
	for i, l := range b {
		if n, ok := bi[i]; ok && !add && named[n] {
			continue
		}
		keepB = append(keepB, l)
	}
	for i, l := range a {
		if n, ok := ai[i]; ok && add && isFresh[n] {
			continue
		}
		keepA = append(keepA, l)
	}
	if add && bh < 0 && len(fresh) > 0 {
		// the section was created
		var k []string
		for _, l := range keepA {
			if strings.HasPrefix(l, "Packages:") {
				continue
			}
			k = append(k, l)
		}
		keepA = contentLines(strings.Join(k, "\n"))
	}
	for _, k := range [][]string{keepA, keepB} {
		for i, l := range k {
			if strings.HasPrefix(l, "Packages: [") {
				k[i] = "Packages:"
			}
		}
	}
	if strings.Join(keepA, "\n") != strings.Join(keepB, "\n") {
		return "other lines changed"
	}
	return ""
}

func judgeEdit(c *ctx) {
	if len(c.pos) < 2 {
		return
	}
	yml := c.World.Projects[c.Step.Proj].ymlFile()
	b, a := c.Pre[yml], c.Post[yml]
	if x := c.World.Projects[c.Step.Proj].yml(); c.Pre[x].Link && !c.Post[x].Link {
		c.bad("S12", "link", "%s replaced the link that pkgr.yml was by a file", c.sub())
	}
	add := c.sub() == "add"
	names := c.pos[1:]
	if _, ok := c.Post[yml]; !ok {
		c.bad("S12", "gone", "%s left no configuration file", c.sub())
		return
	}
	okNew := edited(b.Data, a.Data, add, names)
	if a.Data == b.Data {
		if edited(b.Data, b.Data, add, names) == "" {
			okNew = "" // nothing to do
		}
	}
	if add && len(contentLines(a.Data)) > 0 && okNew == "" {
		// adding listed packages only changes nothing
		all := true
		items, _ := packageList(contentLines(b.Data))
		has := map[string]bool{}
		for _, n := range items {
			has[n] = true
		}
		for _, n := range names {
			if !has[n] {
				all = false
			}
		}
		if all && strings.TrimRight(a.Data, "\n") != strings.TrimRight(b.Data, "\n") {
			c.bad("S12", "noop", "adding packages that are listed changed the configuration file")
		}
	}
	if !add && okNew == "" {
		items, _ := packageList(contentLines(b.Data))
		hit := false
		for _, n := range items {
			for _, x := range names {
				if n == x {
					hit = true
				}
			}
		}
		if !hit && a.Data != b.Data {
			c.bad("S12", "noop", "removing packages that are not listed changed the configuration file")
		}
	}
	switch {
	case okNew == "":
	case a.Data == b.Data && (c.Killed || c.Exit != 0 || errorLogged(c.Res)):
	case a.Data == b.Data:
		c.bad("S12", "silent", "%s reports no failure but did not change the configuration file", c.sub())
		return
	default:
		c.bad("S12", "edit", "%s %s left a wrong configuration file: %s", c.sub(), strings.Join(names, " "), okNew)
		return
	}
	// refusing to edit a list in brackets is fine
	if !c.faulted && c.finished && c.Exit != 0 && !c.installing() && !strings.Contains(b.Data, "Packages: [") {
		c.bad("S12", "failed", "%s fails although nothing is wrong: %s", c.sub(), c.errors())
	}
	if a.Mode != b.Mode {
		c.bad("S12", "mode", "%s changed the permissions of the configuration file", c.sub())
	}
	// nothing else next to the file, unless pkgr was killed
	if c.finished && !c.installing() {
		dir := path.Dir(yml)
		before := map[string]bool{}
		for _, n := range c.Pre.list(dir) {
			before[n] = true
		}
		for _, n := range c.Post.list(dir) {
			if !before[n] && !c.faulted && !c.isLog(dir+"/"+n) {
				c.bad("S12", "litter", "%s left %s behind", c.sub(), n)
			}
		}
	}
}

type loadResult struct {
	Package, Version, Path string
	Exiterr                string
	Success                bool
}

type loadReport struct {
	LoadResults map[string]loadResult
	Failures    int
}

func judgeLoad(c *ctx) {
	if !c.finished || c.stale || c.unavailable() {
		return
	}
	if c.Exit != 0 {
		x := *c
		x.faulted = c.noR()
		for _, e := range c.Ev {
			if e.Kind == "fault" && (e.F[0] != "r" || e.F[2] != "load" && e.F[2] != "info" || e.F[1] == "spawn") {
				x.faulted = true
			}
		}
		if x.expectOK() {
			c.bad("S13", "failed", "load reports nothing (status %d): %s", c.Exit, c.errors())
		}
		return
	}
	want := map[string]bool{}
	if c.flag("all") {
		for n := range c.plan.Pkgs {
			want[n] = true
		}
		for n := range c.plan.Tarballs {
			want[n] = true
		}
	} else {
		for _, n := range c.cfg.Packages {
			if !basePkgs[n] {
				want[n] = true
			}
		}
		// the packages tarballs and descriptions need are user packages, too
		for n := range c.plan.TarDeps {
			_ = n
		}
	}
	tried := map[string]*rproc{}
	info := map[string]*rproc{}
	for _, p := range c.procs {
		switch p.phase {
		case "load":
			if tried[p.pkg] != nil {
				c.bad("S13", "twice", "%s was loaded twice", p.pkg)
			}
			tried[p.pkg] = p
		case "info":
			info[p.pkg] = p
		}
	}
	optional := map[string]bool{} // requested indirectly
	if !c.flag("all") {
		pr := c.World.Projects[c.Step.Proj]
		for _, t := range c.cfg.Tarballs {
			k := c.World.Tarballs[pr.path(t)]
			for _, d := range k.hardDeps() {
				optional[d] = true
			}
			optional[k.Name] = true
		}
		for _, t := range c.cfg.Descriptions {
			k := c.World.Descs[pr.path(t)]
			for _, d := range append(k.hardDeps(), k.Suggests...) {
				optional[depName(d)] = true
			}
		}
		for n := range basePkgs {
			optional[n] = true
		}
	}
	for _, n := range sortedKeys(want) {
		if tried[n] == nil {
			c.bad("S13", "untried", "%s was requested but not loaded", n)
		}
	}
	for _, n := range sortedKeys(tried) {
		if !want[n] && !optional[n] {
			c.bad("S13", "extra", "%s was loaded but not requested", n)
		}
	}
	fails := 0
	for _, p := range tried {
		if p.status != 0 {
			fails++
		}
	}
	if !c.flag("json") {
		_, all := c.logged("all packages loaded successfully")
		_, some := c.logged("some packages failed to load.")
		if all != (fails == 0) || some != (fails > 0) {
			c.bad("S13", "said", "%d packages failed to load; that all were loaded is said: %v, that some were not: %v", fails, all, some)
		}
		return
	}
	i, j := strings.Index(c.Stdout, "{"), strings.LastIndex(c.Stdout, "}")
	if k := strings.Index(c.Stdout, "{\n"); k >= 0 {
		i = k // a warning may precede the report
	}
	var rep loadReport
	if i < 0 || j < i || json.Unmarshal([]byte(c.Stdout[i:j+1]), &rep) != nil {
		c.bad("S13", "noreport", "load --json prints no report")
		return
	}
	nf := 0
	for _, n := range sortedKeys(tried) {
		p := tried[n]
		r, ok := rep.LoadResults[n]
		if !ok {
			c.bad("S13", "unreported", "%s was loaded but is not in the report", n)
			continue
		}
		if r.Package != n {
			c.bad("S13", "mixed", "the result for %s names %s", n, r.Package)
		}
		if r.Success != (p.status == 0) {
			c.bad("S13", "wrong", "%s is reported with success=%v, but R ended with status %d", n, r.Success, p.status)
		}
		if q := info[n]; q != nil && q.status == 0 && q.end >= 0 && r.Success {
			wp, wv := c.located(n)
			if wp != "" && (r.Path != wp || r.Version != wv) {
				c.bad("S13", "place", "%s is reported as %s %s instead of %s %s", n, r.Path, r.Version, wp, wv)
			}
		}
		if !r.Success {
			nf++
		}
	}
	for _, n := range sortedKeys(rep.LoadResults) {
		if tried[n] == nil {
			c.bad("S13", "invented", "%s is in the report but was not loaded", n)
		}
		if !rep.LoadResults[n].Success && tried[n] == nil {
			nf++
		}
	}
	if rep.Failures != nf || nf != fails {
		c.bad("S13", "count", "the report counts %d failures, %d packages are reported as failed and %d failed", rep.Failures, nf, fails)
	}
}

// located is where R finds a package for load.
func (c *ctx) located(pkg string) (string, string) {
	for _, l := range c.World.R.Extra {
		d, ok := c.Pre[path.Join(l, pkg, "DESCRIPTION")]
		if !ok {
			continue
		}
		if _, ok := c.Pre[path.Join(l, pkg, "Meta/package.rds")]; !ok {
			continue
		}
		m := parseDCF(d.Data)
		if m["Package"] == pkg {
			return path.Join(l, pkg), m["Version"]
		}
	}
	return "", ""
}

// judgeClean compares the disk with exactly what was to be removed.
func judgeClean(c *ctx) {
	if c.Killed || !c.finished || c.paired {
		return
	}
	pr := c.World.Projects[c.Step.Proj]
	cache := pr.cache()
	dbdir := dbDir
	what := ""
	if len(c.pos) > 1 {
		what = c.pos[1]
	}
	doCache := what == "cache" || c.flag("all")
	doDBs := what == "pkgdbs" || c.flag("all")
	sel := c.args["repos"]
	chosen := func(r Repo) bool { return sel == "" || sel == "ALL" }
	if sel != "" && sel != "ALL" {
		m := map[string]bool{}
		for _, x := range strings.Split(sel, ",") {
			m[x] = true
		}
		chosen = func(r Repo) bool { return m[r.Name] || m[r.cacheDir()] }
	}
	both := c.flag("src-only") && c.flag("binaries-only")
	gone := map[string]bool{} // selected files
	may := map[string]bool{}  // empty directories and the like
	if doCache && !both {
		for p, e := range c.Pre {
			if e.Dir || !inside(p, cache) {
				continue
			}
			rel := strings.TrimPrefix(p, cache+"/")
			f := strings.Split(rel, "/")
			if len(f) < 3 {
				continue
			}
			kind := f[1]
			if kind != "src" && kind != "binary" {
				continue
			}
			if kind == "src" && c.flag("binaries-only") || kind == "binary" && c.flag("src-only") {
				continue
			}
			ok := sel == "" || sel == "ALL"
			for _, x := range strings.Split(sel, ",") {
				if x == f[0] {
					ok = true
				}
			}
			if ok {
				gone[p] = true
			}
		}
		for _, t := range c.cfg.Tarballs {
			k := c.World.Tarballs[pr.path(t)]
			set := gone
			if doDBs {
				set = may // planning for the indexes unpacks them again
			}
			// the unpacked copy: a directory of the cache that holds the package
			for _, top := range c.Pre.list(cache) {
				if e, ok := c.Pre[cache+"/"+top+"/"+k.Name+"/DESCRIPTION"]; ok && e.Data == k.description() && c.Pre[cache+"/"+top+"/"+k.Name+"/R/"+k.Name+".R"].Data == k.files()[2].data {
					for p, e := range c.Pre {
						if !e.Dir && inside(p, cache+"/"+top) {
							set[p] = true
						}
					}
				}
			}
		}
	}
	if doDBs {
		for f, n := range c.dbRepo {
			for _, r := range c.World.Repos {
				if r.Name == n && chosen(r) {
					gone[f] = true
				}
			}
		}
	}
	reported := c.Exit != 0 || errorLogged(c.Res)
	for _, p := range sortedKeys(gone) {
		if e, ok := c.Post[p]; ok && !e.Dir && !reported && !c.badRepo() {
			c.bad("S21", "kept", "%s was to be removed, is still there, and nothing is reported", p)
			break
		}
	}
	for _, p := range sortedKeys(c.Pre) {
		e := c.Pre[p]
		x, ok := c.Post[p]
		if gone[p] || may[p] || c.isLog(p) {
			continue
		}
		if e.Dir {
			if ok {
				continue
			}
			// directories may go when they are empty or belong to the selection
			if inside(p, cache) && doCache && !both {
				left := false
				for q, y := range c.Pre {
					if !y.Dir && inside(q, p) && !gone[q] && !may[q] {
						left = true
					}
				}
				if !left {
					continue
				}
			}
			if inside(p, dbdir) && doDBs {
				continue
			}
			c.bad("S21", "removed", "the directory %s was removed", p)
			break
		}
		if doDBs && inside(p, dbdir) {
			// cached indexes of the selected repositories may also be refreshed
			if !ok && !c.selectedDB(p, chosen) {
				c.bad("S21", "removed", "the cached index %s was removed", p)
				break
			}
			continue
		}
		if !ok {
			c.bad("S21", "removed", "%s was removed", p)
			break
		}
		if x.Data != e.Data {
			c.bad("S21", "changed", "%s was changed", p)
			break
		}
	}
	if !c.faulted && reported && !c.badRepo() && !both && !c.unavailable() && !(c.cfg.Strict && !c.had0) {
		c.bad("S21", "failed", "clean fails although nothing is wrong: %s", c.errors())
	}
}

// selectedDB says whether a cached index may be the one of a selected
// repository (unknown files may be: pkgr planned before).
func (c *ctx) selectedDB(p string, chosen func(Repo) bool) bool {
	n, ok := c.dbRepo[p]
	if !ok {
		return true
	}
	for _, r := range c.World.Repos {
		if r.Name == n {
			return chosen(r)
		}
	}
	return false
}

// ---- convergence: what the scenario says about its steps ----

func judgeRole(c *ctx) {
	prop := c.h.Case.Property
	switch c.Step.Role {
	case "recover":
		// an undisturbed install after whatever happened before
		if c.faulted {
			return
		}
		if !c.finished {
			c.bad(prop, "recover", "an undisturbed install afterwards does not end normally: %s%s", c.Stuck, c.Crash)
			return
		}
		if c.stale || !c.expectOK() {
			return
		}
		if c.reported {
			c.bad(prop, "recover", "an undisturbed install afterwards fails (status %d): %s", c.Exit, c.errors())
			return
		}
		if d := matchLib(c.lib1, c.wants(), true); d != "" {
			c.bad(prop, "recover", "after an undisturbed install: %s", d)
		}
		if hasBackups(c.lib1) {
			c.bad(prop, "backup", "a backup directory is left after an undisturbed install")
		}
	case "same":
		// the library must be the one an undisturbed run would have made
		if c.faulted || c.staleIndex() {
			return
		}
		if !c.finished || c.reported {
			c.bad(prop, "recover", "running install again fails (status %d): %s%s%s", c.Exit, c.Stuck, c.Crash, c.errors())
			return
		}
		first := newCtx(c.h, c.h.Steps[c.firstInstall()], 0)
		if d := matchLib(c.lib1, first.wants(), false); d != "" {
			c.bad(prop, "converge", "running install again after the interruption does not give the planned library: %s", d)
		}
	case "repeat":
		if c.faulted || c.stale {
			return
		}
		if c.idx == 0 {
			return
		}
		prev := c.h.Steps[c.idx-1]
		if prev.Exit != 0 || errorLogged(prev) || prev.Killed || len(prev.Fired) > 0 {
			return
		}
		if !c.finished || c.reported {
			c.bad("S16", "repeat", "running install again fails (status %d): %s%s%s", c.Exit, c.Stuck, c.Crash, c.errors())
			return
		}
		for _, p := range c.procs {
			if _, tar := c.plan.Tarballs[p.pkg]; p.cmd() && !tar {
				c.bad("S16", "rebuild", "running install again builds %s again", p.pkg)
			}
		}
		for _, e := range c.Ev {
			if e.Kind == "http+" && strings.HasSuffix(e.F[2], ".tar.gz") {
				c.bad("S16", "download", "running install again downloads %s", e.F[2])
			}
		}
		if d := diffTree(packages(c.lib0), packages(c.lib1)); d != "" && len(c.plan.Tarballs) == 0 {
			c.bad("S16", "changed", "running install again changes the library: %s", d)
		}
		yml := c.World.Projects[c.Step.Proj].yml()
		if c.Pre[yml].Data != c.Post[yml].Data {
			c.bad("S16", "config", "running install again changes the configuration")
		}
	}
}

// firstInstall is the interrupted install this history is about.
func (c *ctx) firstInstall() int {
	for i, r := range c.h.Steps {
		if r.Step.Role == "base" {
			return i
		}
	}
	return 0
}

// judgeHistory checks what concerns several invocations.
func judgeHistory(h *History, ctxs []*ctx) []Violation {
	var out []Violation
	out = append(out, survivors(ctxs)...)
	for _, c := range ctxs {
		// S22: two concurrent runs
		if r := h.Steps[c.idx]; r.With != nil && r.installing() && r.With.installing() && !c.faultedOtherThanPause() && !c.unavailable() {
			if !c.finished || c.reported {
				out = append(out, Violation{"S22", "failed", c.idx, fmt.Sprintf("the install of project %d fails because another one runs at the same time (status %d): %s%s%s", c.Step.Proj, c.Exit, c.Stuck, c.Crash, c.errors())})
			} else if !c.stale {
				if d := matchLib(c.lib1, c.wants(), true); d != "" {
					out = append(out, Violation{"S22", "library", c.idx, fmt.Sprintf("the library of project %d is wrong because another install runs at the same time: %s", c.Step.Proj, d)})
				}
			}
		}
	}
	return out
}

// survivors checks S05 over several invocations: a package that was complete
// before any of them still exists complete after each of them.
func survivors(ctxs []*ctx) []Violation {
	type known struct {
		last  int
		trees map[string][]Snap
	}
	libs := map[string]*known{}
	for _, c := range ctxs {
		if c.cfg.NoRollback || c.paired || c.damaged {
			return nil
		}
		k := libs[c.lib]
		if k == nil || len(c.Step.Mut) > 0 {
			k = &known{trees: map[string][]Snap{}}
			libs[c.lib] = k
		}
		for n, t := range libPkgs(recoveredSnap(c.Pre, c.lib), c.lib) {
			if _, ok := t["Meta/package.rds"]; ok && !strings.HasPrefix(n, backupPrefix) {
				k.trees[n] = append(k.trees[n], t)
			}
		}
		if !c.installing() {
			continue
		}
	next:
		for _, n := range sortedKeys(k.trees) {
			at, _ := c.after(n)
			bk, _ := c.after(backupPrefix + n)
			for _, old := range k.trees[n] {
				if sameTree(old, at) || sameTree(old, bk) {
					continue next
				}
			}
			if p, ok := c.plan.Pkgs[n]; ok && matchPlaced(at, p.Pkg) == "" {
				k.trees[n] = append(k.trees[n], at)
				continue
			}
			if t, ok := c.plan.Tarballs[n]; ok && matchPlaced(at, c.World.Tarballs[t]) == "" {
				k.trees[n] = append(k.trees[n], at)
				continue
			}
			return []Violation{{"S05", "survive", c.idx, fmt.Sprintf("%s was complete in the library before these invocations and is not complete anywhere any more", n)}}
		}
	}
	return nil
}

func (c *ctx) faultedOtherThanPause() bool {
	for _, e := range c.Ev {
		if e.Kind == "fault" && e.F[1] != "pause" {
			return true
		}
	}
	return false
}
