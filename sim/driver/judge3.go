package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
)

// ---- S18: what plan and inspect say ----

// installedVersions are the packages of the library planning starts from.
func (c *ctx) installedVersions() (map[string]string, map[string]bool) {
	v, pkgr := map[string]string{}, map[string]bool{}
	for n, t := range libPkgs(recoveredSnap(c.Pre, c.lib), c.lib) {
		if strings.HasPrefix(n, backupPrefix) {
			continue
		}
		d := parseDCF(t["DESCRIPTION"].Data)
		v[d["Package"]] = d["Version"]
		pkgr[d["Package"]] = d["PkgrVersion"] != ""
	}
	return v, pkgr
}

func (c *ctx) logged(msg string) (LogLine, bool) {
	for _, l := range c.Log {
		if strings.TrimSpace(l.str("msg")) == msg {
			return l, true
		}
	}
	return nil, false
}

// judgeInstalledFrom checks the list of who installed what.
func (c *ctx) judgeInstalledFrom() {
	var m map[string][]string
	if err := json.Unmarshal([]byte(c.output()), &m); err != nil {
		c.bad("S18", "json", "the output of inspect is not JSON: %v", err)
		return
	}
	_, pkgr := c.installedVersions()
	seen := map[string]bool{}
	for _, k := range sortedKeys(m) {
		for _, n := range m[k] {
			by, ok := pkgr[n]
			if !ok || seen[n] || by != (k == "pkgr") {
				c.bad("S18", "from", "inspect lists %s as installed by %s", n, k)
			}
			seen[n] = true
		}
	}
	for _, n := range sortedKeys(pkgr) {
		if !seen[n] {
			c.bad("S18", "from", "inspect does not list %s, which is in the library", n)
		}
	}
}

func judgePlan(c *ctx) {
	if c.sub() == "inspect" && c.flag("installed-from") && c.finished && c.Exit == 0 && !c.faulted && !hasBackups(c.lib0) && !c.paired {
		c.judgeInstalledFrom()
	}
	if !c.usesIndex() || !c.finished || c.stale || c.unavailable() || c.Exit != 0 && !c.installing() {
		return
	}
	if hasBackups(c.lib0) && !c.installing() {
		return // an interrupted install is pending
	}
	if !c.planRan() {
		return
	}
	_, tells := c.logged("package installation plan")
	if c.sub() == "inspect" && c.flag("deps") {
		if c.flag("tree") {
			c.judgeTree()
		} else {
			c.judgeDeps()
		}
	}
	if c.sub() == "plan" && c.flag("show-deps") {
		c.judgeShowDeps()
	}
	if !tells {
		return
	}
	have, byPkgr := c.installedVersions()
	update := map[string][2]string{}
	todo := map[string]bool{}
	fresh := map[string]bool{}
	repos := map[string]int{}
	for n, p := range c.plan.Pkgs {
		repos[p.Repo]++
		v, ok := have[n]
		switch {
		case !ok:
			todo[n] = true
			if c.plan.Tarballs[n] == "" {
				fresh[n] = true
			}
		case compareVersions(p.Version, v) > 0:
			update[n] = [2]string{v, p.Version}
			if !c.cfg.NoUpdate {
				todo[n] = true
			}
		}
	}
	for n := range c.plan.Tarballs {
		todo[n] = true
	}
	foreign := 0
	for n := range have {
		if !byPkgr[n] {
			foreign++
		}
	}

	said := "package will be updated"
	if c.cfg.NoUpdate {
		said = "outdated package found"
	}
	got := map[string][2]string{}
	for _, l := range c.Log {
		switch m := l.str("msg"); m {
		case "package will be updated", "outdated package found":
			n := l.str("pkg")
			if m != said {
				c.bad("S18", "update", "%s: %q, although updates are %s", n, m, map[bool]string{true: "disabled", false: "enabled"}[c.cfg.NoUpdate])
			}
			if _, dup := got[n]; dup {
				c.bad("S18", "update", "%s is named twice among the packages to update", n)
			}
			got[n] = [2]string{l.str("installed_version"), l.str("update_version")}
		}
	}
	for _, n := range sortedKeys(update) {
		if g, ok := got[n]; !ok {
			c.bad("S18", "update", "%s is outdated (%s, available %s) but that is not said", n, update[n][0], update[n][1])
		} else if g != update[n] {
			c.bad("S18", "update", "%s is said to be outdated with versions %v instead of %v", n, g, update[n])
		}
	}
	for _, n := range sortedKeys(got) {
		if _, ok := update[n]; !ok {
			c.bad("S18", "update", "%s is said to be outdated or updated (%v), but install does not update it", n, got[n])
		}
	}
	count := func(msg, key string, want int) {
		l, ok := c.logged(msg)
		if !ok {
			return
		}
		if g := l.str(key); g != strconv.Itoa(want) && !(g == "" && want == 0) {
			c.bad("S18", "count", "%s: %s is %s instead of %d", msg, key, g, want)
		}
	}
	nup := len(update)
	if c.cfg.NoUpdate {
		nup = 0
	}
	count("package installation plan", "to_install", len(todo))
	count("package installation plan", "to_update", nup)
	count("package installation status", "outdated", len(update))
	count("package installation status", "installed", len(have))
	count("package installation status", "not_from_pkgr", foreign)
	for _, r := range c.World.Repos {
		count("package installation sources", r.Name, repos[r.Name])
	}
	count("package installation sources", "tarballs", len(c.plan.Tarballs))
	for _, l := range c.Log {
		if m := l.str("msg"); strings.HasPrefix(m, "Library path to install packages: ") {
			if p := strings.TrimSpace(strings.TrimPrefix(m, "Library path to install packages: ")); c.World.Projects[c.Step.Proj].path(p) != path.Clean(c.lib) {
				c.bad("S18", "library", "the library is said to be %s instead of %s", p, c.lib)
			}
		}
		if m := l.str("msg"); strings.HasPrefix(m, "Installation would launch ") {
			if f := strings.Fields(m); len(f) > 3 && f[3] != strconv.Itoa(c.threads()) {
				c.bad("S18", "threads", "plan announces %s workers instead of %d", f[3], c.threads())
			}
		}
	}
	// the packages to install are only listed when there are others too
	list := map[string]string{}
	for _, l := range c.Log {
		if l.str("msg") == "to install" && l.str("package") != "" && c.plan.Tarballs[l.str("package")] == "" {
			list[l.str("package")] = l.str("version") + " from " + l.str("repo")
		}
	}
	total := len(c.plan.Pkgs) + len(c.plan.Tarballs)
	if len(todo) > 0 && len(todo) != total && len(c.plan.Tarballs) == 0 {
		for _, n := range sortedKeys(fresh) {
			p := c.plan.Pkgs[n]
			if list[n] != p.Version+" from "+p.Repo {
				c.bad("S18", "list", "%s %s from %s is to be installed, but listed is %q", n, p.Version, p.Repo, list[n])
			}
		}
	}
	for _, n := range sortedKeys(list) {
		if !fresh[n] {
			c.bad("S18", "list", "%s is listed as to be installed, but it is not", n)
		}
	}
}

// output is the standard output without log lines.
func (c *ctx) output() string {
	var out []string
	for _, l := range strings.Split(c.Stdout, "\n") {
		var m LogLine
		if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &m) == nil && m["level"] != nil {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// depLists are the dependencies (or dependents) of all planned packages.
func (c *ctx) depLists(reverse bool) map[string][]string {
	m := map[string][]string{}
	for p := range c.plan.Pkgs {
		for d := range c.plan.Deps[p] {
			if reverse {
				m[d] = append(m[d], p)
			} else {
				m[p] = append(m[p], d)
			}
		}
	}
	for k := range m {
		sort.Strings(m[k])
	}
	return m
}

func (c *ctx) judgeDeps() {
	var m map[string][]string
	if err := json.Unmarshal([]byte(c.output()), &m); err != nil {
		c.bad("S18", "json", "the output of inspect is not JSON: %v", err)
		return
	}
	want := c.depLists(c.flag("reverse"))
	if len(c.pos) > 1 {
		all := want
		want = map[string][]string{}
		for _, n := range c.pos[1:] {
			want[n] = all[n]
		}
		for _, n := range sortedKeys(want) {
			if _, ok := m[n]; !ok {
				c.bad("S18", "deps", "inspect has no record for %s", n)
			}
		}
	}
	for _, k := range sortedKeys(want) {
		if !sort.StringsAreSorted(m[k]) {
			c.bad("S18", "deps", "inspect lists %v for %s in this order", m[k], k)
		}
		if fmt.Sprint(want[k]) != fmt.Sprint(m[k]) {
			c.bad("S18", "deps", "inspect lists %v for %s instead of %v", m[k], k, want[k])
		}
	}
	for _, k := range sortedKeys(m) {
		if _, ok := want[k]; !ok {
			c.bad("S18", "deps", "inspect has a record for %s (%v), which should not be there", k, m[k])
		}
	}
}

// judgeTree: below every package its planned dependencies, sorted.
func (c *ctx) judgeTree() {
	type node struct {
		name string
		kids []*node
	}
	root := &node{}
	stack := []*node{root}
	for _, l := range strings.Split(c.output(), "\n") {
		i := strings.Index(l, "── ")
		if i < 0 {
			continue
		}
		depth := len([]rune(l[:i]))/4 + 1
		n := &node{name: strings.TrimSpace(l[i+len("── "):])}
		if depth > len(stack) {
			c.bad("S18", "tree", "the tree of inspect is not a tree at %q", l)
			return
		}
		stack = append(stack[:depth], n)
		stack[depth-1].kids = append(stack[depth-1].kids, n)
	}
	deps := c.depLists(false)
	roots := c.depLists(c.flag("reverse"))
	if len(c.pos) > 1 {
		roots = map[string][]string{}
		for _, n := range c.pos[1:] {
			roots[n] = nil
		}
	}
	names := func(n *node) (s []string) {
		for _, k := range n.kids {
			s = append(s, k.name)
		}
		return
	}
	top := names(root)
	sort.Strings(top)
	if fmt.Sprint(top) != fmt.Sprint(sortedKeys(roots)) {
		c.bad("S18", "tree", "the tree of inspect has the roots %v instead of %v", top, sortedKeys(roots))
	}
	var visit func(n *node)
	visit = func(n *node) {
		if fmt.Sprint(names(n)) != fmt.Sprint(deps[n.name]) {
			c.bad("S18", "tree", "the tree of inspect has %v below %s instead of %v", names(n), n.name, deps[n.name])
			return
		}
		for _, k := range n.kids {
			visit(k)
		}
	}
	for _, k := range root.kids {
		visit(k)
	}
}

func (c *ctx) judgeShowDeps() {
	want := c.depLists(false)
	got := map[string][]string{}
	cur := ""
	for _, l := range strings.Split(c.output(), "\n") {
		switch {
		case strings.HasPrefix(l, "-----------  "):
			cur = strings.Fields(l)[1]
		case cur != "" && strings.HasPrefix(l, "["):
			got[cur] = strings.Fields(strings.Trim(l, "[]"))
			sort.Strings(got[cur])
			cur = ""
		}
	}
	for _, k := range sortedKeys(want) {
		if fmt.Sprint(want[k]) != fmt.Sprint(got[k]) {
			c.bad("S18", "deps", "plan shows the dependencies %v of %s instead of %v", got[k], k, want[k])
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			c.bad("S18", "deps", "plan shows dependencies of %s, which has none", k)
		}
	}
}
