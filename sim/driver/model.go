package main

import (
	"path"
	"sort"
	"strconv"
	"strings"
)

// Entry is one thing on the simulated disk.
type Entry struct {
	Dir  bool
	Link bool
	Data string
	Mode uint32
}

// Snap is the simulated disk at one moment.
type Snap map[string]Entry

// tree is everything below dir, with paths relative to it; ok says it exists.
func (s Snap) tree(dir string) (Snap, bool) {
	e, ok := s[dir]
	if !ok || !e.Dir {
		return Snap{}, ok
	}
	out := Snap{}
	for p, x := range s {
		if strings.HasPrefix(p, dir+"/") {
			out[p[len(dir)+1:]] = x
		}
	}
	return out, true
}

// list names the entries directly below dir.
func (s Snap) list(dir string) []string {
	var out []string
	for p := range s {
		if strings.HasPrefix(p, dir+"/") && !strings.Contains(p[len(dir)+1:], "/") {
			out = append(out, p[len(dir)+1:])
		}
	}
	sort.Strings(out)
	return out
}

func sameTree(a, b Snap) bool { return diffTree(a, b) == "" }

// diffTree describes the first difference between two trees.
func diffTree(a, b Snap) string {
	for _, p := range sortedKeys(a) {
		x := a[p]
		y, ok := b[p]
		switch {
		case !ok:
			return p + " is missing"
		case x.Dir != y.Dir || x.Link != y.Link:
			return p + " changed its type"
		case x.Data != y.Data:
			return p + " changed its content"
		case x.Mode != y.Mode:
			return p + " changed its mode"
		}
	}
	for _, p := range sortedKeys(b) {
		if _, ok := a[p]; !ok {
			return p + " appeared"
		}
	}
	return ""
}

func parseDCF(text string) map[string]string {
	m := map[string]string{}
	last := ""
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		if l[0] == ' ' || l[0] == '\t' {
			m[last] += " " + strings.TrimSpace(l)
			continue
		}
		if i := strings.IndexByte(l, ':'); i > 0 {
			last = l[:i]
			m[last] = strings.TrimSpace(l[i+1:])
		}
	}
	return m
}

const backupPrefix = "__OLD__"

// bookkeeping says that a directory of a library cannot be an R package, whose
// names begin with a letter: pkgr's own, other than a backup.
func bookkeeping(n string) bool {
	return strings.HasPrefix(n, "__") && !strings.HasPrefix(n, backupPrefix)
}

// libPkgs maps package directories of a library to their trees.
func libPkgs(s Snap, lib string) map[string]Snap {
	out := map[string]Snap{}
	for _, n := range s.list(lib) {
		if bookkeeping(n) {
			continue
		}
		t, _ := s.tree(lib + "/" + n)
		if d, ok := t["DESCRIPTION"]; ok && parseDCF(d.Data)["Package"] != "" {
			out[n] = t
		}
	}
	return out
}

// compareVersions orders version strings the way R does.
func compareVersions(a, b string) int {
	f := func(s string) []int {
		var v []int
		for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == '.' || r == '-' }) {
			n, _ := strconv.Atoi(x)
			v = append(v, n)
		}
		return v
	}
	x, y := f(a), f(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(x) < len(y):
		return -1
	case len(x) > len(y):
		return 1
	}
	return 0
}

// rOK says whether an R version meets constraints such as ">= 4.0, < 5.0".
func rOK(rv, need string) bool {
	if need == "" || need == "any" {
		return true
	}
	if a, b, two := strings.Cut(need, ", "); two {
		return rOK(rv, a) && rOK(rv, b)
	}
	f := strings.Fields(need)
	c := compareVersions(rv, f[1])
	switch f[0] {
	case ">=":
		return c >= 0
	case ">":
		return c > 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case "!=":
		return c != 0
	}
	return c == 0
}

// binaries says whether packages come from the repository as binaries unless
// customized otherwise.
func (r Repo) binaries() bool {
	if r.Type != "" {
		return strings.EqualFold(r.Type, "binary")
	}
	return r.MPN
}

// Planned is one package of the reference plan.
type Planned struct {
	Pkg
	Repo  string
	URL   string
	Local bool
}

// Plan is what pkgr is documented to do, computed independently of its code.
type Plan struct {
	Pkgs     map[string]Planned
	Deps     map[string]map[string]bool // planned hard dependencies, transitively
	Direct   map[string][]string
	Missing  []string          // requested packages nobody offers
	Lost     bool              // a package needs one nobody offers
	Tarballs map[string]string // package -> tarball path
	TarDeps  map[string]map[string]bool
	// what each tarball package itself asks for
	TarDirect map[string][]string
	Starting  map[string]bool // planned packages without planned dependencies
}

// plan is the reference planner.
func plan(w *World, proj int) *Plan {
	cfg := w.Projects[proj].Cfg
	pr := w.Projects[proj]
	ignored := map[string]bool{}
	for _, p := range cfg.Ignore {
		ignored[p] = true
	}
	pin := map[string]string{}
	typ := map[string]string{}
	sugg := map[string]bool{}
	if cfg.Suggests {
		for _, p := range cfg.Packages {
			sugg[p] = true
		}
	}
	for _, c := range cfg.Cust {
		if c.Repo != "" {
			pin[c.Name] = c.Repo
		}
		if c.Type != "" {
			typ[c.Name] = strings.ToLower(c.Type)
		}
		if c.Suggests != nil {
			sugg[c.Name] = *c.Suggests
		}
	}
	offered := func(name string) (Planned, bool) {
		if ignored[name] {
			return Planned{}, false
		}
		for _, r := range w.Repos {
			if pin[name] != "" && pin[name] != r.Name {
				continue
			}
			pkgs := r.Pkgs
			if t := typ[name]; t == "binary" || t == "" && r.binaries() {
				pkgs = r.Bin
				if !r.MPN || r.NoBin {
					pkgs = nil
				}
			}
			for i := len(pkgs) - 1; i >= 0; i-- {
				p := pkgs[i]
				if p.Name == name && p.Path == "" && rOK(w.R.Version, p.RNeed) {
					return Planned{p, r.Name, r.URL, r.Local}, true
				}
			}
		}
		return Planned{}, false
	}
	excluded := func(name string) bool {
		return basePkgs[name] || cfg.NoRecommended && recommendedPkgs[name]
	}
	pl := &Plan{Pkgs: map[string]Planned{}, Deps: map[string]map[string]bool{}, Direct: map[string][]string{}, Tarballs: map[string]string{}, TarDeps: map[string]map[string]bool{}, TarDirect: map[string][]string{}, Starting: map[string]bool{}}
	user := append([]string{}, cfg.Packages...)
	for _, t := range cfg.Tarballs {
		k := w.Tarballs[pr.path(t)]
		pl.Tarballs[k.Name] = pr.path(t)
		for _, d := range k.hardDeps() {
			user = append(user, d)
		}
	}
	for _, t := range cfg.Descriptions {
		k := w.Descs[pr.path(t)]
		for _, d := range append(k.hardDeps(), k.Suggests...) {
			user = append(user, depName(d))
		}
	}
	var visit func(name string)
	visit = func(name string) {
		if _, ok := pl.Pkgs[name]; ok {
			return
		}
		p, ok := offered(name)
		if !ok {
			return
		}
		pl.Pkgs[name] = p
		for _, d := range p.hardDeps() {
			if _, ok := offered(d); !ok && !excluded(d) {
				pl.Lost = true
			} else if ok && !excluded(d) {
				pl.Direct[name] = append(pl.Direct[name], d)
				visit(d)
			}
		}
		if sugg[name] {
			for _, d := range p.Suggests {
				if depName(d) != "R" {
					visit(depName(d))
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, n := range user {
		if basePkgs[n] || seen[n] {
			continue
		}
		seen[n] = true
		if _, ok := offered(n); !ok {
			pl.Missing = append(pl.Missing, n)
			continue
		}
		visit(n)
	}
	var closure func(n string, out map[string]bool)
	closure = func(n string, out map[string]bool) {
		for _, d := range pl.Direct[n] {
			if !out[d] {
				out[d] = true
				closure(d, out)
			}
		}
	}
	for n := range pl.Pkgs {
		pl.Deps[n] = map[string]bool{}
		closure(n, pl.Deps[n])
		if len(pl.Direct[n]) == 0 {
			pl.Starting[n] = true
		}
	}
	for _, t := range cfg.Tarballs {
		k := w.Tarballs[pr.path(t)]
		m := map[string]bool{}
		for _, d := range k.hardDeps() {
			if _, ok := pl.Pkgs[d]; ok {
				m[d] = true
				closure(d, m)
			}
		}
		pl.TarDeps[k.Name] = m
		pl.TarDirect[k.Name] = k.hardDeps()
	}
	return pl
}

// recovered is the library after interrupted updates have been taken back:
// a backup that is present always is the complete previous package.
func recovered(s Snap, lib string) Snap {
	t, _ := s.tree(lib)
	out := Snap{}
	back := map[string]bool{}
	for _, n := range s.list(lib) {
		if strings.HasPrefix(n, backupPrefix) {
			back[strings.TrimPrefix(n, backupPrefix)] = true
		}
	}
	for p, e := range t {
		top, rest, _ := strings.Cut(p, "/")
		if back[top] {
			continue
		}
		if strings.HasPrefix(top, backupPrefix) {
			p = strings.TrimSuffix(strings.TrimPrefix(top, backupPrefix)+"/"+rest, "/")
		}
		out[p] = e
	}
	return out
}

// Want is what one package directory of the library has to look like.
type Want struct {
	Old  Snap // keep exactly this (nil: anything below)
	New  *Planned
	Tar  string // tarball path
	TarP *Pkg
}

// expected is the library a completed install must leave, given the library
// tree (relative) it started from.
func expected(w *World, proj int, lib Snap, pl *Plan) map[string]Want {
	cfg := w.Projects[proj].Cfg
	out := map[string]Want{}
	tops := map[string]bool{}
	for p := range lib {
		top, _, _ := strings.Cut(p, "/")
		tops[top] = true
	}
	for t := range tops {
		if bookkeeping(t) {
			continue
		}
		sub := Snap{".": lib[t]}
		for p, e := range lib {
			if strings.HasPrefix(p, t+"/") {
				sub[p[len(t)+1:]] = e
			}
		}
		out[t] = Want{Old: sub}
	}
	for n, p := range pl.Pkgs {
		if o, ok := out[n]; ok {
			e, ok := o.Old["DESCRIPTION"]
			v := parseDCF(e.Data)["Version"]
			if ok && (cfg.NoUpdate || compareVersions(p.Version, v) <= 0) {
				continue
			}
		}
		q := p
		out[n] = Want{New: &q}
	}
	for n, t := range pl.Tarballs {
		k := w.Tarballs[t]
		out[n] = Want{Tar: t, TarP: &k}
	}
	return out
}

// matchInstalled compares an installed package with what R made of p plus
// pkgr's annotations.  An empty url accepts any annotations, also none.
func matchInstalled(t Snap, p Pkg, url, repo string) string {
	want := p.installed()
	for _, n := range sortedKeys(want) {
		e, ok := t[n]
		if !ok || e.Dir {
			return n + " is missing"
		}
		if n == "DESCRIPTION" {
			if why := matchDescription(e.Data, want[n], url, repo, p.BinFor != ""); why != "" {
				return why
			}
			continue
		}
		if e.Data != want[n] {
			return n + " has other content"
		}
	}
	for _, n := range sortedKeys(t) {
		if _, ok := want[n]; !ok && !t[n].Dir {
			return n + " does not belong to the package"
		}
	}
	return ""
}

func matchDescription(got, orig, url, repo string, bin bool) string {
	strip := func(s string) (keep []string, m map[string]string) {
		m = map[string]string{}
		for _, l := range strings.Split(s, "\n") {
			if l == "" {
				continue
			}
			k, v, ok := strings.Cut(l, ":")
			if ok && (k == "PkgrVersion" || k == "PkgrInstallType" || k == "PkgrRepositoryURL" || k == "OriginalRepository" || k == "Repository") {
				if _, dup := m[k]; dup {
					keep = append(keep, "duplicate "+l)
				}
				m[k] = strings.TrimSpace(v)
				continue
			}
			keep = append(keep, l)
		}
		return
	}
	g, gm := strip(got)
	o, om := strip(orig)
	if strings.Join(g, "\n") != strings.Join(o, "\n") {
		return "DESCRIPTION has other lines than the package's"
	}
	if url == "" {
		return ""
	}
	if gm["PkgrRepositoryURL"] != url {
		return "DESCRIPTION names repository URL " + strconv.Quote(gm["PkgrRepositoryURL"]) + " instead of " + url
	}
	if gm["PkgrVersion"] == "" {
		return "DESCRIPTION lacks the pkgr version"
	}
	if t := gm["PkgrInstallType"]; t != "source" && t != "binary" || bin && t != "binary" {
		return "DESCRIPTION has install type " + strconv.Quote(t)
	}
	if r, ok := om["Repository"]; ok {
		if gm["Repository"] != repo {
			return "DESCRIPTION has Repository " + gm["Repository"]
		}
		if r != repo && gm["OriginalRepository"] != r {
			return "DESCRIPTION lost the original repository"
		}
	} else if _, ok := gm["Repository"]; ok {
		return "DESCRIPTION got a Repository field"
	}
	return ""
}

// matchLib compares a library tree with what is expected; tarURL checks the
// annotation of tarball packages loosely.  strict=false accepts packages
// without pkgr's annotations (they were placed by an R process that outlived
// a killed pkgr).
func matchLib(lib Snap, want map[string]Want, strict bool) string {
	tops := map[string]Snap{}
	for p, e := range lib {
		top, rest, _ := strings.Cut(p, "/")
		if rest == "" {
			rest = "."
		}
		if tops[top] == nil {
			tops[top] = Snap{}
		}
		tops[top][rest] = e
	}
	for _, n := range sortedKeys(want) {
		x := want[n]
		sub := tops[n]
		if sub == nil {
			return n + " is not in the library"
		}
		switch {
		case x.Old != nil:
			if d := diffTree(x.Old, sub); d != "" {
				return path.Join(n, "…") + ": " + d
			}
		case x.New != nil:
			delete(sub, ".")
			url := x.New.URL
			if !strict {
				url = ""
			}
			if d := matchInstalled(sub, x.New.Pkg, url, x.New.Repo); d != "" {
				return n + " " + x.New.Version + " from " + x.New.Repo + ": " + d
			}
		default:
			delete(sub, ".")
			if d := matchInstalled(sub, *x.TarP, "", ""); d != "" {
				return n + " from its tarball: " + d
			}
			if strict && parseDCF(sub["DESCRIPTION"].Data)["PkgrVersion"] == "" {
				return n + " from its tarball: not annotated"
			}
		}
	}
	for _, t := range sortedKeys(tops) {
		if _, ok := want[t]; !ok {
			return t + " does not belong in the library"
		}
	}
	return ""
}
