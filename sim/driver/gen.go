package main

import (
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"

	spec "verifsim/spec"
)

// opts shapes a generated world.
type opts struct {
	pkgs     [2]int // number of packages in the repositories
	repos    [2]int
	tarballs int  // up to
	descs    bool // Descriptions
	lib      int  // chance in % that the library holds packages
	nolib    bool // the library may be missing
	local    bool // local repositories allowed
	missing  bool // a requested package may be offered by nobody
	suggests bool
	cust     bool
	norb     bool // NoRollback allowed
	noupd    bool
	big      bool // packages with a larger payload
	places   bool // R, library or log files in unusual places
	logs     bool // with log files
	simple   bool // no unusual index entries
}

var nameStock = []string{"rlang", "R6", "data.table", "dplyr", "dplyr2", "xml2", "Rcpp", "cli", "glue", "vctrs", "mrg.solve", "zoo", "tibble", "pillar", "fansi", "utf8", "rlang2", "bit", "bit64", "hms"}

// editNames also has names that are hard to tell apart.
var editNames = append([]string{"CLI", "Bit", "r6", "glue.x", "zo"}, nameStock...)

var versionStock = []string{"0.1.0", "0.9-7", "1.0.0", "1.0.1", "1.2", "1.2.3", "1.10.0", "2.0-1", "2.3.10", "2.3.10.1.4", "2.3.10.1.12", "2.3.10.2-1", "3.0.0", "3.0.0.9000"}

func sortedVersions() []string {
	v := append([]string{}, versionStock...)
	sort.Slice(v, func(i, j int) bool { return compareVersions(v[i], v[j]) < 0 })
	return v
}

func withConstraint(r *Rng, d string) string {
	if r.P(1, 4) {
		return d + " (>= 0.1)"
	}
	return d
}

// genWorld makes a world with one project, in which an undisturbed install
// succeeds (unless o.missing strikes).
func genWorld(r *Rng, o opts) World {
	w := World{Tarballs: map[string]Pkg{}, Descs: map[string]Pkg{}, Files: map[string]string{}}
	w.R = spec.R{Version: "4.3.3", Platform: "x86_64-pc-linux-gnu", Home: "/sim/rhome", DurMin: 200e6, DurMax: 3000e6, Survive: r.P(1, 2)}
	if r.P(1, 2) {
		w.Mounts = []string{"/sim/tmp"}
		if r.P(1, 4) {
			w.Mounts = append(w.Mounts, "/sim/home")
		}
	}
	w.HTTPMin, w.HTTPMax, w.Chunk = 1e6, 400e6, pick(r, []int{0, 64, 256, 512})
	n := r.In(o.pkgs[0], o.pkgs[1])
	nrepo := r.In(o.repos[0], o.repos[1])
	names := append([]string{}, nameStock...)
	shuffle(r, names)
	names = names[:n]
	if r.P(1, 3) && n > 2 {
		names[r.N(n)] = pick(r, []string{"MASS", "Matrix", "lattice"})
	}
	repoNames := []string{"CRAN", "MPN", "r_validated", "local-1", "CRAN-old", "MPN2", "cran"}
	shuffle(r, repoNames)
	for i := 0; i < nrepo; i++ {
		host := fmt.Sprintf("repo%d.sim", i)
		rp := Repo{Name: repoNames[i]}
		switch {
		case o.local && r.P(1, 4):
			rp.Local = true
			rp.URL = fmt.Sprintf("/sim/mirror%d", i)
		default:
			scheme := pick(r, []string{"http", "https"})
			rp.URL = scheme + "://" + host + pick(r, []string{"", "/cran", "/snapshots/2024-02-01", "/cran/"})
			rp.NoLength = r.P(1, 4)
			if r.P(1, 5) {
				rp.Slow = int64(r.In(1, 3000)) * 1e6
			}
		}
		rp.CRLF = r.P(1, 8)
		w.Repos = append(w.Repos, rp)
	}
	vs := sortedVersions()
	shape := r.N(4) // 0 random, 1 chain, 2 fan-out, 3 wide
	for i, nm := range names {
		homes := subset(r, seq(nrepo), 1, 2)
		if len(homes) == 0 {
			homes = []int{r.N(nrepo)}
		}
		for _, h := range homes {
			p := Pkg{Name: nm, Version: pick(r, vs), Origin: w.Repos[h].Name}
			if o.big {
				p.Size = r.In(0, 6000)
			} else {
				p.Size = r.In(0, 300)
			}
			for j := 0; j < i; j++ {
				use := false
				switch shape {
				case 0:
					use = r.P(1, 3)
				case 1:
					use = j == i-1 || r.P(1, 10)
				case 2:
					use = j == 0
				case 3:
					use = r.P(1, 8)
				}
				if !use {
					continue
				}
				d := withConstraint(r, names[j])
				switch r.N(5) {
				case 0:
					p.Depends = append(p.Depends, d)
				case 1:
					p.LinkingTo = append(p.LinkingTo, d)
				default:
					p.Imports = append(p.Imports, d)
				}
				if r.P(1, 12) && !contains(p.LinkingTo, d) {
					p.LinkingTo = append(p.LinkingTo, names[j])
				}
			}
			if r.P(1, 3) {
				p.Imports = append(p.Imports, pick(r, []string{"methods", "stats", "utils"}))
			}
			if r.P(1, 4) {
				p.RNeed = pick(r, []string{">= 3.5.0", ">= 3.5", "> 3.6.0", "< 5.0.0", "<= 4.99.0", ">= 4", "!= 4.0.0", "any", ">= 3.5, < 5.0", "< 5.0, >= 3.5"})
			}
			p.Odd = genOdd(r)
			if r.P(1, 3) {
				p.RepoField = pick(r, []string{"CRAN", w.Repos[h].Name, "RSPM", "https://lab.r-universe.dev"})
			}
			if o.suggests && r.P(1, 2) && n > 1 {
				for _, s := range subset(r, names, 1, 4) {
					if s != nm && !recommendedPkgs[s] {
						p.Suggests = append(p.Suggests, s)
					}
				}
			}
			rp := &w.Repos[h]
			rp.Pkgs = append(rp.Pkgs, p)
			if !o.simple && r.P(1, 6) {
				// entries pkgr must not choose
				q := p
				q.Origin += "-bad"
				if r.P(1, 2) {
					q.RNeed, q.Version = pick(r, []string{">= 9.0", "> 5.0.0", "< 3.5", "<= 3.6.3", "== 3.5.1", "== 9.0.1", ">= 5", ">= 3.0, < 3.6", ">= 9.0, < 10.0", "> 5, != 4.3.3"}), "9.0"
				} else {
					q.Path, q.Version = "4.4.0/Other", "9.1"
				}
				if q.Version != p.Version {
					rp.Pkgs = append(rp.Pkgs, q)
				}
			}
		}
	}
	for i := range w.Repos {
		rp := &w.Repos[i]
		rp.Pkgs = append(rp.Pkgs, Pkg{Name: fmt.Sprintf("zzmark%d", i), Version: "1.0", Origin: "m"})
		shuffle(r, rp.Pkgs)
	}
	pr := Project{Dir: "p"}
	c := &pr.Cfg
	if r.P(1, 6) {
		genBinaries(r, &w, c)
	}
	c.Library = pick(r, []string{"lib", "lib/r", "/sim/p/lib"})
	if o.places || o.logs || r.P(1, 10) {
		genPlaces(r, &w, c)
		for o.logs && c.LogAll == "" && c.LogInstall == "" {
			genPlaces(r, &w, c)
		}
	}
	if o.nolib && r.P(1, 3) {
		pr.NoLib = true
	}
	c.Cache = pick(r, []string{"", "cache", "/sim/shared/cache"})
	if c.RPath != "" && r.P(1, 3) {
		c.Cache = "~/pkgr-cache"
	}
	c.Threads = r.In(1, 5)
	if r.P(1, 8) {
		c.Threads = 0
	}
	c.Packages = subset(r, names, 2, 3)
	if len(c.Packages) == 0 {
		c.Packages = []string{names[n-1]}
	}
	shuffle(r, c.Packages)
	if r.P(1, 8) {
		c.Packages = append(c.Packages, "stats")
	}
	c.NoUpdate = o.noupd && r.P(1, 4)
	c.NoRollback = o.norb && r.P(1, 5)
	if o.suggests && r.P(1, 3) {
		c.Suggests = true
	}
	hasRec := false
	for _, x := range names {
		if recommendedPkgs[x] {
			hasRec = true
		}
	}
	if !hasRec && r.P(1, 8) {
		c.NoRecommended = true
	}
	// a pinned package, to a repository that offers it
	if nrepo > 1 && r.P(1, 3) {
		x := pick(r, names)
		for _, i := range shuffled(r, seq(nrepo)) {
			if offersAs(w.Repos[i], x, w.R.Version, addCust(c, x).Type) {
				addCust(c, x).Repo = w.Repos[i].Name
				break
			}
		}
	}
	if o.suggests && r.P(1, 3) {
		b := r.P(1, 2)
		x := pick(r, names)
		addCust(c, x).Suggests = &b
	}
	if o.cust {
		for _, x := range subset(r, names, 1, 3) {
			cu := addCust(c, x)
			cu.Env = map[string]string{}
			for _, k := range subset(r, []string{"R_MAKEVARS_USER", "CFLAGS", "PKG_TOKEN", "MAKE"}, 1, 2) {
				cu.Env[k] = pick(r, []string{"for-" + x, "for-" + x, "-I/" + x + " -D=1", ""})
			}
			if len(cu.Env) == 0 {
				cu.Env = nil
			}
		}
	}
	c.tidy()
	// an ignored package nothing needs
	if r.P(1, 8) {
		x := fmt.Sprintf("zzmark%d", r.N(nrepo))
		c.Ignore = append(c.Ignore, x)
	}
	if o.tarballs > 0 {
		k := r.In(1, o.tarballs)
		for i := 0; i < k; i++ {
			nm := fmt.Sprintf("tarpkg%d", i)
			if r.P(1, 3) {
				nm = pick(r, names)
				if pinned(c, nm) {
					nm = fmt.Sprintf("tarpkg%d", i)
				}
			}
			dup := false
			for _, x := range w.Tarballs {
				if x.Name == nm {
					dup = true
				}
			}
			if dup {
				continue
			}
			p := Pkg{Name: nm, Version: pick(r, vs), Origin: "tarball", Size: r.In(0, 400), Stored: r.P(1, 2)}
			deps := subset(r, names, 1, 4)
			for _, f := range sortedKeys(w.Tarballs) {
				if x := w.Tarballs[f].Name; slices.Contains(names, x) && !slices.Contains(deps, x) && r.P(1, 2) {
					deps = append(deps, x)
				}
			}
			for _, d := range deps {
				if d != nm && !dependsOn(&w, d, nm, map[string]bool{}) {
					d = withConstraint(r, d)
					switch r.N(4) {
					case 0:
						p.Depends = append(p.Depends, d)
					case 1:
						p.LinkingTo = append(p.LinkingTo, d)
					default:
						p.Imports = append(p.Imports, d)
					}
				}
			}
			p.Odd = genOdd(r)
			if r.P(1, 4) {
				p.Imports = append(p.Imports, "methods")
			}
			if r.P(1, 3) {
				p.Suggests = subset(r, names, 1, 4)
			}
			if r.P(1, 4) {
				p.Form = r.In(1, 2)
			}
			if r.P(1, 5) {
				p.Top = pick(r, []string{"._" + nm, "AAA.txt", "pax_global_header", "zz.txt"})
			}
			rel := fmt.Sprintf("tarballs/%s", p.file())
			w.Tarballs[path.Join("/sim/p", rel)] = p
			if r.P(1, 2) {
				rel = path.Join("/sim/p", rel)
			}
			c.Tarballs = append(c.Tarballs, rel)
		}
	}
	if o.descs && r.P(1, 3) {
		p := Pkg{Name: "devpkg", Version: "0.0.1", Origin: "dev", Imports: subset(r, names, 1, 3), Suggests: subset(r, names, 1, 4)}
		for i, d := range p.Imports {
			switch r.N(4) {
			case 0:
				p.Depends = append(p.Depends, d)
			case 1:
				p.LinkingTo = append(p.LinkingTo, d)
			default:
				continue
			}
			p.Imports = append(p.Imports[:i:i], p.Imports[i+1:]...)
			break
		}
		w.Descs["/sim/p/devpkg/DESCRIPTION"] = p
		c.Descriptions = []string{"devpkg/DESCRIPTION"}
	}
	if o.missing && r.P(1, 2) {
		x := pick(r, c.Packages)
		switch r.N(4) {
		case 0, 1:
			c.Packages = append(c.Packages, "nosuchpkg")
		case 2: // only other repositories than the one it is pinned to have it
			addCust(c, x).Repo = ""
			for _, i := range shuffled(r, seq(nrepo)) {
				if !offersAs(w.Repos[i], x, w.R.Version, addCust(c, x).Type) {
					addCust(c, x).Repo = w.Repos[i].Name
					break
				}
			}
		case 3: // a repository that is not listed
			addCust(c, x).Repo = "NOSUCH"
		}
		c.tidy()
	}
	w.Projects = []Project{pr}
	if !pr.NoLib && r.N(100) < o.lib {
		fillLibrary(r, &w, 0, vs, names)
	}
	return w
}

// genPlaces makes a configuration that says in less usual ways where things
// are.
func genPlaces(r *Rng, w *World, c *Config) {
	w.R.Renv = pick(r, []string{"renv/library/R-4.3/x86_64-pc-linux-gnu", "/sim/home/.local/share/R/renv/library/p-1f2e"})
	c.Lock, c.LockToo = "", ""
	switch r.N(5) {
	case 0:
		c.Lock = "packrat"
	case 1, 2:
		c.Lock = "renv"
	case 3:
		c.Library = "~/lib"
		c.LockToo = pick(r, []string{"", "renv", "packrat"})
	}
	c.place(w.R)
	if r.P(1, 2) {
		c.RPath = pick(r, []string{"/sim/opt/R/4.3.3/bin/R", "~/R/bin/R", "/sim/opt/R/bin/R/", "/sim/opt/R/bin/R-4.3", "~/bin/R-devel"})
	}
	if r.P(1, 2) {
		c.LogAll = pick(r, []string{"pkgr.log", "~/pkgr-all.log"})
	}
	if r.P(1, 2) {
		c.LogInstall = pick(r, []string{"install.log", "/sim/p/install.log"})
	}
	c.LogOver = r.P(1, 3)
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if depName(y) == depName(x) {
			return true
		}
	}
	return false
}

func shuffled(r *Rng, s []int) []int { shuffle(r, s); return s }

func seq(n int) []int {
	var s []int
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	return s
}

func offers(r Repo, pkg, rv string) bool { return offersAs(r, pkg, rv, "") }

// offersAs says whether a repository has a package as source or binary.
func offersAs(r Repo, pkg, rv, typ string) bool {
	pkgs := r.Pkgs
	if typ == "" && r.binaries() || strings.EqualFold(typ, "binary") {
		pkgs = r.Bin
	}
	for _, p := range pkgs {
		if p.Name == pkg && p.Path == "" && rOK(rv, p.RNeed) {
			return true
		}
	}
	return false
}

// genBinaries makes some repositories offer binary packages.
func genBinaries(r *Rng, w *World, c *Config) {
	distro := pick(r, sortedKeys(osReleases))
	os := osReleases[distro]
	if strings.Contains(os, `ID="rhel"`) {
		w.R.Platform = "x86_64-redhat-linux-gnu"
	}
	w.Files["/sim/etc/os-release"] = os
	for _, i := range subset(r, seq(len(w.Repos)), 2, 3) {
		rp := &w.Repos[i]
		rp.MPN, rp.Distro = true, distro
		if r.P(1, 3) {
			rp.Suffix = pick(r, []string{"openssl3", "x86", "v1"})
		}
		if r.P(1, 3) {
			rp.Type = pick(r, []string{"source", "Source", "binary"})
		}
		if !rp.binaries() && r.P(1, 4) {
			rp.NoBin = true
			continue
		}
		count := map[string]int{}
		for _, p := range rp.Pkgs {
			count[p.Name]++
		}
		for _, p := range rp.Pkgs {
			p.BinFor = w.R.Platform
			mark := strings.HasPrefix(p.Name, "zzmark")
			if count[p.Name] == 1 && !mark {
				if r.P(1, 4) {
					p.Version = older(r, p.Version, sortedVersions())
				}
				if r.P(1, 6) && rp.binaries() && addCust(c, p.Name).Type != "binary" {
					addCust(c, p.Name).Type = "source" // there is no binary
					continue
				}
				if r.P(1, 6) && addCust(c, p.Name).Type != "source" {
					addCust(c, p.Name).Type = "binary"
				}
			}
			rp.Bin = append(rp.Bin, p)
		}
		shuffle(r, rp.Bin)
		rebuild(r, rp, false)
		// the source of some is gone
		var src []Pkg
		for _, p := range rp.Pkgs {
			if !strings.HasPrefix(p.Name, "zzmark") && r.P(1, 8) && count[p.Name] == 1 && rp.binaries() && addCust(c, p.Name).Type != "source" {
				addCust(c, p.Name).Type = "binary"
				continue
			}
			src = append(src, p)
		}
		rp.Pkgs = src
	}
}

// tidy drops customizations that say nothing.
func (c *Config) tidy() {
	var keep []Cust
	for _, x := range c.Cust {
		if x.Env != nil || x.Repo != "" || x.Suggests != nil || x.Type != "" {
			keep = append(keep, x)
		}
	}
	c.Cust = keep
}

func addCust(c *Config, name string) *Cust {
	for i := range c.Cust {
		if c.Cust[i].Name == name {
			return &c.Cust[i]
		}
	}
	c.Cust = append(c.Cust, Cust{Name: name})
	return &c.Cust[len(c.Cust)-1]
}

func pinned(c *Config, name string) bool {
	for _, x := range c.Cust {
		if x.Name == name && (x.Repo != "" || x.Type != "") {
			return true
		}
	}
	return false
}

// dependsOn says whether any version of a needs b, directly or not.
func dependsOn(w *World, a, b string, seen map[string]bool) bool {
	if seen[a] {
		return false
	}
	seen[a] = true
	for _, r := range w.Repos {
		for _, p := range r.Pkgs {
			if p.Name != a {
				continue
			}
			for _, d := range p.hardDeps() {
				if d == b || dependsOn(w, d, b, seen) {
					return true
				}
			}
		}
	}
	return false
}

// fillLibrary puts earlier versions, current ones and unrelated packages into
// a project's library.
func fillLibrary(r *Rng, w *World, proj int, vs, names []string) {
	pl := plan(w, proj)
	pr := &w.Projects[proj]
	left := r.P(1, 10)
	for _, n := range sortedKeys(pl.Pkgs) {
		if !r.P(2, 3) {
			continue
		}
		p := pl.Pkgs[n].Pkg
		p.Origin = "installed"
		p.Path, p.RNeed, p.BinFor = "", "", ""
		p.Size = r.In(0, 200)
		switch r.N(4) {
		case 0, 1: // older
			p.Version = older(r, p.Version, vs)
		case 2: // newer
			p.Version = "7.7.7"
		}
		in := Inst{Pkg: p, Foreign: r.P(1, 4)}
		if left && r.P(1, 3) {
			in.Left = r.In(1, 3)
		}
		pr.Lib = append(pr.Lib, in)
	}
	for _, t := range sortedKeys(pl.Tarballs) {
		if _, ok := pl.Pkgs[t]; !ok && r.P(1, 2) {
			pr.Lib = append(pr.Lib, Inst{Pkg: Pkg{Name: t, Version: pick(r, vs), Origin: "installed"}})
		}
	}
	if r.P(1, 2) {
		pr.Lib = append(pr.Lib, Inst{Pkg: Pkg{Name: "unrelated", Version: "0.0.9", Origin: "installed"}, Foreign: r.P(1, 2)})
	}
	// something outdated that is not part of the plan
	for _, n := range names {
		if _, ok := pl.Pkgs[n]; !ok && r.P(1, 2) {
			if _, tar := pl.Tarballs[n]; !tar {
				pr.Lib = append(pr.Lib, Inst{Pkg: Pkg{Name: n, Version: "0.0.1", Origin: "installed"}})
			}
		}
	}
	pr.Stray = r.P(1, 6)
}

func older(r *Rng, v string, vs []string) string {
	var c []string
	for _, x := range vs {
		if compareVersions(x, v) < 0 {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return "0.0.1"
	}
	return pick(r, c)
}

// genStep makes an invocation with a random schedule.
func genStep(r *Rng, args ...string) Step {
	st := Step{Args: append(append([]string{}, args...), "--logjson", "--loglevel=debug"), Seed: r.U64(), SchedSeed: r.U64(), NCPU: pick(r, []int{1, 2, 4, 8, 16})}
	switch r.N(4) {
	case 0:
		st.Mode = 0
	case 1, 2:
		st.Mode = 1
		st.YieldP = pick(r, []uint32{0, 30, 120, 300})
	case 3:
		st.Mode = 2
		st.EpochP = pick(r, []uint32{10, 60, 200})
		st.YieldP = pick(r, []uint32{0, 60, 200})
	}
	if r.P(1, 3) {
		st.MapP = pick(r, []uint32{64, 512})
	}
	if r.P(1, 3) {
		st.FSLatP = pick(r, []uint32{50, 400})
	}
	return st
}

// vary keeps the step but chooses another schedule.
func vary(r *Rng, st Step) Step {
	n := genStep(r, "x")
	st.Seed, st.SchedSeed, st.Mode, st.YieldP, st.EpochP, st.MapP, st.FSLatP = n.Seed, n.SchedSeed, n.Mode, n.YieldP, n.EpochP, n.MapP, n.FSLatP
	return st
}

func (w *World) proj() *Project { return &w.Projects[0] }

func repoHost(u string) string { h, _ := splitURL(u); return h }

func hasPrefixAny(s string, p ...string) bool {
	for _, x := range p {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

func genOdd(r *Rng) (o int) {
	for _, x := range []struct{ bit, of int }{{oddFields, 10}, {oddWrapped, 8}, {oddLong, 60}, {oddConfigure, 8}, {oddLatin, 12}, {oddComma, 12}} {
		if r.P(1, x.of) {
			o |= x.bit
		}
	}
	return
}
