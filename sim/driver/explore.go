package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	spec "verifsim/spec"
)

// stats is what a check covered.
type stats struct {
	Cases, Runs int
	Sim         int64
	Fired       map[string]int
	Schedules   map[uint64]bool
	Places      map[string]int // where disk faults and crashes struck
	Families    map[string]int
	Nontrivial  int
	Exits       map[string]int
}

func newStats() *stats {
	return &stats{Fired: map[string]int{}, Schedules: map[uint64]bool{}, Places: map[string]int{}, Families: map[string]int{}, Exits: map[string]int{}}
}

func (s *stats) add(o *stats) {
	s.Cases += o.Cases
	s.Runs += o.Runs
	s.Sim += o.Sim
	s.Nontrivial += o.Nontrivial
	for k, v := range o.Fired {
		s.Fired[k] += v
	}
	for k := range o.Schedules {
		s.Schedules[k] = true
	}
	for k, v := range o.Places {
		s.Places[k] += v
	}
	for k, v := range o.Families {
		s.Families[k] += v
	}
	for k, v := range o.Exits {
		s.Exits[k] += v
	}
}

// worker explores cases on its own disk.
type worker struct {
	run      *Runner
	prop     string // property being decided ("" = all)
	st       *stats
	deadline time.Time
	found    func(c *Case, h *History, vs []Violation) // called for violations
	family   string
	big      bool // this time a history of extreme size is due
	halt     *atomic.Bool
	each     func(c *Case, h *History) // called for every history
}

func (w *worker) over() bool {
	return w.halt != nil && w.halt.Load() || time.Now().After(w.deadline)
}

// try runs a case and judges it.
func (w *worker) try(c *Case) *History {
	for _, rp := range c.World.Repos {
		if !rp.MPN {
			continue
		}
		// that one of its two indexes does not exist would be no fault, and
		// without the system's name there are none of its binaries
		for i := range c.Steps {
			var keep []spec.Fault
			for _, f := range c.Steps[i].Faults {
				if f.Act == "status" && (f.Code == 404 || f.Code == 403) && isIndex(f.URL) {
					f.Code = 502
				}
				if f.Path != "/sim/etc/os-release" {
					keep = append(keep, f)
				}
			}
			c.Steps[i].Faults = keep
		}
	}
	h := w.run.Run(c)
	w.st.Cases++
	w.st.Families[w.family]++
	w.st.Sim += h.Sim
	fresh := !w.st.Schedules[h.Trace]
	w.st.Schedules[h.Trace] = true
	fired := false
	for _, r := range h.Steps {
		for _, x := range []*Res{r, r.With} {
			if x == nil {
				continue
			}
			w.st.Runs++
			for k, n := range x.Fired {
				w.st.Fired[k] += n
				fired = true
			}
			for _, e := range x.Ev {
				if e.Kind == "fault" && e.F[0] == "fs" {
					w.st.Places[e.F[3]+" "+place(&x.World, "/sim/"+e.F[4])]++
				}
			}
			switch {
			case x.Killed:
				w.st.Exits["killed"]++
			case x.Stuck != "":
				w.st.Exits["stuck"]++
			case x.Crash != "":
				w.st.Exits["runtime failure"]++
			case x.Exit != 0:
				w.st.Exits["failed"]++
			default:
				w.st.Exits["succeeded"]++
			}
		}
	}
	if fresh && (fired || len(h.Steps) > 1 || len(h.Steps[0].Ev) > 100) {
		w.st.Nontrivial++
	}
	if w.each != nil {
		w.each(c, h)
	}
	vs := judge(h)
	if w.prop != "" {
		var mine []Violation
		for _, v := range vs {
			if v.Prop == w.prop {
				mine = append(mine, v)
			}
		}
		vs = mine
	}
	if len(vs) > 0 {
		w.found(c, h, vs)
	}
	return h
}

// with returns the case with the faults put into its i-th step and further
// steps appended.
func with(c *Case, i int, faults []spec.Fault, more ...Step) *Case {
	n := *c
	n.Steps = append([]Step{}, c.Steps[:i+1]...)
	n.Steps[i].Faults = append(append([]spec.Fault{}, n.Steps[i].Faults...), faults...)
	n.Steps = append(n.Steps, more...)
	return &n
}

func (w *worker) newCase(world World, steps ...Step) *Case {
	return &Case{Property: w.prop, World: world, Steps: steps}
}

// recovery is an undisturbed install.
func recovery(r *Rng, proj int, muts ...Mut) Step {
	s := genStep(r, "install")
	s.Proj, s.Role, s.Mut = proj, "recover", muts
	return s
}

func rmBinaries(w *World) []Mut {
	var m []Mut
	for _, p := range w.Projects {
		m = append(m, Mut{Kind: "rm", Path: p.cache() + "/*/binary"})
	}
	return m
}

// emptyLib forces every package to be installed again.
func emptyLib(w *World, proj int) []Mut {
	l := w.Projects[proj].lib()
	return []Mut{{Kind: "rm", Path: l + "/*"}, {Kind: "mkdir", Path: l}}
}

type family struct {
	name  string
	props []string
	gen   func(w *worker, r *Rng)
}

var families []family

func init() {
	families = []family{
		{"clean", []string{"S01", "S02", "S03", "S06", "S10", "S14", "S15", "S16", "S17", "S19"}, famClean},
		{"big", []string{"S01", "S02", "S14", "S15"}, famBig},
		{"wide", []string{"S02"}, famWide},
		{"rfail", []string{"S01", "S02", "S04", "S06", "S14", "S19"}, famRFail},
		{"download", []string{"S02", "S03", "S04", "S06", "S07"}, famDownload},
		{"index", []string{"S10", "S11", "S17"}, famIndex},
		{"crash", []string{"S05", "S07", "S08", "S09", "S11", "S16"}, famCrash},
		{"libfault", []string{"S03", "S05", "S06"}, famLibFault},
		{"anyfault", []string{"S02", "S04", "S06"}, famAnyFault},
		{"tarball", []string{"S04", "S06", "S09", "S19"}, famTarball},
		{"edit", []string{"S12", "S17"}, famEdit},
		{"load", []string{"S13", "S14", "S17"}, famLoad},
		{"readonly", []string{"S17"}, famReadonly},
		{"clean-cache", []string{"S21", "S17"}, famCleanCache},
		{"cert", []string{"S20"}, famCert},
		{"pair", []string{"S22", "S06"}, famPair},
		{"bincache", []string{"S08"}, famBinCache},
		{"plan", []string{"S18", "S10", "S17"}, famPlan},
		{"evolve", []string{"S03", "S08", "S10", "S11", "S15", "S19"}, famEvolve},
		{"places", []string{"S23"}, famPlaces},
		{"logs", []string{"S24"}, famLogs},
	}
}

func randomFlags(r *Rng, args []string) []string {
	if r.P(1, 8) {
		args = append(args, "--no-update")
	}
	if r.P(1, 8) {
		args = append(args, fmt.Sprintf("--threads=%d", r.In(1, 9)))
	}
	if r.P(1, 12) {
		args = append(args, "--update")
	}
	return args
}

func fullOpts() opts {
	return opts{pkgs: [2]int{1, 9}, repos: [2]int{1, 3}, tarballs: 0, descs: true, lib: 60, nolib: true, local: true, missing: false, suggests: true, cust: true, noupd: true}
}

// famClean: undisturbed installs under many schedules, repeated.
func famClean(w *worker, r *Rng) {
	o := fullOpts()
	o.missing = r.P(1, 4)
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	if !o.missing && r.P(1, 30) {
		world.proj().Cfg.Packages = pick(r, [][]string{nil, {"stats"}}) // nothing, or tarballs only
	}
	args := randomFlags(r, []string{"install"})
	st := genStep(r, args...)
	if r.P(1, 8) {
		rp := pick(r, world.Repos)
		if nm := pick(r, rp.Pkgs).Name; offers(rp, nm, world.R.Version) && !pinned(&world.proj().Cfg, nm) && !contains(world.proj().Cfg.Ignore, nm) {
			st = genStep(r, "add", nm, "--install")
		}
	}
	st.Env = userEnv(r)
	rep := vary(r, st)
	rep.Args, rep.Role, rep.Env, rep.NCPU = st.Args, "repeat", st.Env, st.NCPU
	if r.P(1, 3) {
		rep.Advance = int64(r.In(1, 8000)) * 1e9
	}
	w.try(w.newCase(world, st, rep))
	for i := 0; i < 2 && !w.over(); i++ {
		v := vary(r, st)
		v.NCPU = pick(r, []int{1, 2, 4, 8, 16})
		w.try(w.newCase(world, v))
	}
	if r.P(1, 4) {
		st := genStep(r, "plan", "--show-deps")
		in := genStep(r, pick(r, [][]string{{"inspect", "--deps"}, {"inspect", "--deps", "--reverse"}})...)
		w.try(w.newCase(world, st, in))
	}
}

// otherR are the R executables that the user's PKGR_RPATH may name.
var otherR = []string{"/sim/opt/R/4.0/bin/R", "~/R/other/R", "/sim/bin/R", "/sim/opt/R/4.0/bin/R-4.0"}

func userEnv(r *Rng) map[string]string {
	m := map[string]string{}
	if r.P(1, 3) {
		m["R_LIBS_USER"] = "/sim/home/R/lib"
	}
	if r.P(1, 4) {
		m["R_LIBS_SITE"] = "/sim/site"
	}
	if r.P(1, 6) {
		m["R_LIBS"] = "/sim/rhome"
	}
	if r.P(1, 3) {
		m[pick(r, []string{"R_MAKEVARS_USER", "CFLAGS", "MAKE"})] = "user-value"
	}
	if r.P(1, 3) {
		m["MY_VAR"] = "a=b c"
	}
	return m
}

// famBig: wide graphs, many threads.
func famBig(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{8, 18}, repos: [2]int{1, 2}, lib: 30, cust: true, simple: true, suggests: true}
	world := genWorld(r, o)
	world.proj().Cfg.Packages = nil
	for _, rp := range world.Repos {
		for _, p := range rp.Pkgs {
			if !strings.HasPrefix(p.Name, "zzmark") && !contains(world.proj().Cfg.Packages, p.Name) && r.P(3, 4) {
				world.proj().Cfg.Packages = append(world.proj().Cfg.Packages, p.Name)
			}
		}
	}
	if len(world.proj().Cfg.Packages) == 0 {
		return
	}
	world.proj().Cfg.Threads = r.In(0, 12)
	if r.P(1, 3) {
		// a few long builds
		world.R.Dur = map[string]int64{}
		for _, n := range subset(r, world.proj().Cfg.Packages, 1, 4) {
			world.R.Dur[n] = int64(r.In(10, 100)) * 1e9
		}
	}
	for i := 0; i < 3 && !w.over(); i++ {
		st := genStep(r, "install")
		st.NCPU = pick(r, []int{1, 2, 4, 8, 16})
		c := w.newCase(world, st)
		h := w.try(c)
		if i == 0 && r.P(1, 2) && !w.over() {
			if ps := cmdProcs(h.Steps[0]); len(ps) > 0 {
				w.try(with(c, 0, []spec.Fault{rFault(r, pick(r, ps))}))
			}
		}
	}
}

// wideWorld has one package that n others need.
func wideWorld(r *Rng, n int) World {
	w := World{Tarballs: map[string]Pkg{}, Descs: map[string]Pkg{}, Files: map[string]string{}}
	w.R = spec.R{Version: "4.3.3", Platform: "x86_64-pc-linux-gnu", Home: "/sim/rhome", DurMin: 100e6, DurMax: 300e6}
	w.HTTPMin, w.HTTPMax = 1e6, 5e6
	rp := Repo{Name: "CRAN", URL: "http://repo0.sim"}
	rp.Pkgs = append(rp.Pkgs, Pkg{Name: "base0", Version: "1.0", Origin: "CRAN"}, Pkg{Name: "zzmark0", Version: "1.0", Origin: "m"})
	pr := Project{Dir: "p"}
	for i := 0; i < n; i++ {
		p := Pkg{Name: fmt.Sprintf("leaf%d", i), Version: "1.0", Origin: "CRAN", Imports: []string{"base0"}}
		rp.Pkgs = append(rp.Pkgs, p)
		pr.Cfg.Packages = append(pr.Cfg.Packages, p.Name)
	}
	w.Repos = []Repo{rp}
	pr.Cfg.Library = "lib"
	pr.Cfg.Threads = r.In(1, 9)
	w.Projects = []Project{pr}
	return w
}

// famWide: one package makes very many others ready.
func famWide(w *worker, r *Rng) {
	n := r.In(10, 150)
	if w.big {
		n = r.In(2600, 3600)
	}
	world := wideWorld(r, n)
	st := genStep(r, "install")
	if w.big {
		world.proj().Cfg.Threads = r.In(4, 9)
		st.YieldP, st.MapP, st.FSLatP, st.EpochP = 0, 0, 0, 0
	}
	w.try(w.newCase(world, st))
}

// famRFail: package builds fail.
func famRFail(w *worker, r *Rng) {
	o := fullOpts()
	o.descs, o.norb = false, true
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	c := w.newCase(world, genStep(r, randomFlags(r, []string{"install"})...))
	h := w.try(c)
	ps := cmdProcs(h.Steps[0])
	if len(ps) == 0 {
		return
	}
	for i := 0; i < 5 && !w.over(); i++ {
		v := *c
		v.Steps = []Step{c.Steps[0]}
		if i > 2 {
			v.Steps[0] = vary(r, c.Steps[0])
		}
		var fs []spec.Fault
		for k := 0; k < pick(r, []int{1, 1, 1, 2, 3}); k++ {
			fs = append(fs, rFault(r, pick(r, ps)))
		}
		w.try(with(&v, 0, fs))
	}
}

// famDownload: package downloads fail.
func famDownload(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 6}, repos: [2]int{1, 3}, lib: 40, nolib: true, local: true, big: true, norb: true, simple: r.P(1, 2)}
	world := genWorld(r, o)
	c := w.newCase(world, genStep(r, "install"))
	h := w.try(c)
	var urls []string
	for _, u := range requests(h.Steps[0]) {
		if !isIndex(u) {
			urls = append(urls, u)
		}
	}
	ev := fsEvents(&world, h.Steps[0])
	onSrc := func(e fsEvent) bool {
		return (e.place == "src" || e.place == "cachetop" || e.place == "mirror" && strings.HasSuffix(e.path, ".gz")) && faultable(e)
	}
	for i := 0; i < 5 && !w.over(); i++ {
		var fs []spec.Fault
		for k := 0; k < pick(r, []int{1, 1, 2}); k++ {
			if len(urls) > 0 && r.P(3, 5) {
				fs = append(fs, httpFault(r, pick(r, urls)))
			} else if e := sample(r, ev, onSrc); e != nil {
				if writing(*e) && r.P(1, 3) {
					fs = append(fs, crashFault(r, e))
				} else {
					fs = append(fs, errFault(r, e))
				}
			}
		}
		if len(fs) == 0 {
			return
		}
		rec := recovery(r, 0)
		switch r.N(3) {
		case 0:
			rec.Mut = append(emptyLib(&world, 0), rmBinaries(&world)...)
		case 1:
			rec.Mut = rmBinaries(&world)
		}
		w.try(with(c, 0, fs, rec))
	}
}

// mutateRepo publishes other versions.
func mutateRepo(r *Rng, rp Repo) Repo {
	vs := sortedVersions()
	n := rp
	n.Pkgs = append([]Pkg{}, rp.Pkgs...)
	for i := range n.Pkgs {
		p := &n.Pkgs[i]
		if strings.HasPrefix(p.Name, "zzmark") || p.Path != "" || strings.HasSuffix(p.Origin, "-bad") {
			continue
		}
		if r.P(1, 2) {
			for k := 0; k < 5; k++ {
				v := pick(r, vs)
				used := false // one file name has one content
				for j := range n.Pkgs {
					for _, q := range []Pkg{n.Pkgs[j], rp.Pkgs[j]} {
						used = used || q.Name == p.Name && q.Version == v
					}
				}
				if !used {
					p.Version = v
					break
				}
			}
		}
	}
	rebuild(r, &n, true)
	return n
}

// rebuild makes binaries of a repository's changed packages.
func rebuild(r *Rng, n *Repo, versions bool) {
	n.Bin = append([]Pkg{}, n.Bin...)
	for i := range n.Bin {
		b := &n.Bin[i]
		var src []Pkg
		used := 0
		for _, p := range n.Pkgs {
			if p.Name == b.Name {
				src = append(src, p)
			}
		}
		for _, p := range n.Bin {
			if p.Name == b.Name {
				used++
			}
		}
		if len(src) != 1 || used != 1 || strings.HasPrefix(b.Name, "zzmark") {
			continue
		}
		b.Origin = src[0].Origin
		if n.Suffix != "" {
			b.Origin += "^" + n.Suffix
		}
		if versions && r.P(1, 2) {
			b.Version = src[0].Version
		}
	}
}

// famIndex: histories of index retrievals.
func famIndex(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 5}, repos: [2]int{1, 4}, lib: 30, local: r.P(1, 3), suggests: true}
	world := genWorld(r, o)
	for i := range world.Repos {
		for j := range world.Repos[i].Pkgs {
			p := &world.Repos[i].Pkgs[j]
			needed := false
			for _, q := range world.Repos {
				for _, x := range q.Pkgs {
					needed = needed || contains(x.hardDeps(), p.Name) || contains(x.Suggests, p.Name)
				}
			}
			if !needed && r.P(1, 2) {
				// listed for some of the R versions only
				p.RNeed = pick(r, []string{">= 4.3.2", ">= 4.2.0", ">= 4.3.3", ">= 4.3.10", "< 4.3.2", "> 4.3.1", "<= 4.3.3", "== 4.3.3", "< 4.3", "> 4.3.3", "!= 4.3.3", "!= 4.3.2", ">= 4.2.0, < 4.3.3", "< 4.10, >= 4.3.1"})
			}
		}
		// one version for older R, another for newer R
		for _, j := range subset(r, seq(len(world.Repos[i].Pkgs)), 1, 4) {
			p := &world.Repos[i].Pkgs[j]
			if p.RNeed != "" || p.Path != "" {
				continue
			}
			v := pick(r, []string{"4.3.2", "4.3.3", "4.2.0", "4.10.0"})
			q := *p
			q.Origin += "-old"
			p.RNeed, q.RNeed = ">= "+v, "< "+v
			if q.Version == "1.0.0" {
				q.Version = "0.9"
			} else {
				q.Version = "1.0.0"
			}
			world.Repos[i].Pkgs = append(world.Repos[i].Pkgs, q)
			if r.P(1, 2) {
				world.Repos[i].Pkgs[j], world.Repos[i].Pkgs[len(world.Repos[i].Pkgs)-1] = q, *p
			}
		}
	}
	wl := world.clone()
	var steps []Step
	env := map[string]string{}
	if r.P(1, 2) {
		env["R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE"] = pick(r, []string{"0", "60", "3600", "7200", "-1", "junk"})
	}
	n := r.In(2, 5)
	for i := 0; i < n; i++ {
		st := genStep(r, pick(r, [][]string{{"plan"}, {"plan"}, {"install"}, {"inspect", "--deps"}})...)
		st.Env = env
		if i > 0 {
			st.Advance = pick(r, []int64{0, 10, 55, 70, 3500, 3590, 3605, 3700, 7300, 90000}) * 1e9
			for k := range wl.Repos {
				switch r.N(8) {
				case 0, 1:
					v := mutateRepo(r, wl.Repos[k])
					wl.Repos[k] = v
					st.Mut = append(st.Mut, Mut{Kind: "repo", Repo: k, RepoVal: &v})
				case 2:
					if wl.Repos[k].Local {
						break
					}
					v := mutateRepo(r, wl.Repos[k])
					// the repository moves to another snapshot of the same host
					v.URL = strings.TrimSuffix(v.URL, "/") + pick(r, []string{"/2024", "/latest", "/x"})
					v.Mirrors = append([]string{}, v.Mirrors...)
					wl.Repos[k] = v
					st.Mut = append(st.Mut, Mut{Kind: "repo", Repo: k, RepoVal: &v})
				}
			}
			if r.P(1, 6) {
				v := pick(r, []string{"4.2.1", "4.3.3", "4.1.0", "4.3.2", "4.3.1", "4.3.10", "4.13.1"})
				wl.R.Version = v
				st.Mut = append(st.Mut, Mut{Kind: "rversion", Data: v})
			}
			if r.P(1, 8) {
				// what the disk kept of the cached indexes is damaged
				st.Mut = append(st.Mut, Mut{Kind: "truncate", Path: dbDir + "/*", Keep: r.N(1000)})
			}
		}
		steps = append(steps, st)
	}
	c := w.newCase(world, steps...)
	h := w.try(c)
	for i := 0; i < 4 && !w.over(); i++ {
		k := r.N(len(steps))
		x := h.Steps[k]
		var fs []spec.Fault
		var urls []string
		for _, u := range requests(x) {
			if isIndex(u) {
				urls = append(urls, u)
			}
		}
		ev := fsEvents(&world, x)
		onDB := func(e fsEvent) bool {
			return (e.place == "db" || e.place == "mirror" || e.place == "other" && strings.Contains(e.path, ".cache")) && faultable(e)
		}
		for j := 0; j < pick(r, []int{1, 1, 2}); j++ {
			if len(urls) > 0 && r.P(1, 2) {
				fs = append(fs, httpFault(r, pick(r, urls)))
			} else if e := sample(r, ev, onDB); e != nil {
				if writing(*e) && r.P(1, 2) {
					fs = append(fs, crashFault(r, e))
				} else {
					fs = append(fs, errFault(r, e))
				}
			}
		}
		if len(fs) == 0 {
			continue
		}
		v := *c
		v.Steps = append([]Step{}, c.Steps...)
		v.Steps[k].Faults = fs
		rec := recovery(r, 0)
		rec.Env = env
		v.Steps = append(v.Steps, rec)
		w.try(&v)
	}
	// other arrival orders
	if !w.over() {
		v := *c
		v.Steps = append([]Step{}, c.Steps...)
		for i := range v.Steps {
			v.Steps[i] = vary(r, v.Steps[i])
		}
		w.try(&v)
	}
}

// moved is the repository at another location, with other builds.
func movedRepo(r *Rng, rp Repo) Repo {
	v := rp
	_, p := splitURL(rp.URL)
	host := repoHost(rp.URL)
	scheme := rp.URL[:strings.Index(rp.URL, "://")+3]
	switch {
	case p != "" && r.P(1, 2):
		// another letter
		i := r.N(len(p))
		c := p[i]
		switch {
		case c >= 'a' && c <= 'z':
			c -= 32
		case c >= 'A' && c <= 'Z':
			c += 32
		case c >= '0' && c <= '8':
			c++
		default:
			c = 'x'
		}
		p = p[:i] + string(c) + p[i+1:]
	case r.P(1, 3):
		host = "alt-" + host
	default:
		p = strings.Trim(p+pick(r, []string{"/Snap", "/2024-02-02", "/__linux__/jammy", "/latest"}), "/")
	}
	v.URL = scheme + host + "/" + p
	v.Pkgs = append([]Pkg{}, rp.Pkgs...)
	for i := range v.Pkgs {
		if !strings.HasPrefix(v.Pkgs[i].Name, "zzmark") && r.P(2, 3) {
			v.Pkgs[i].Origin += "'"
		}
	}
	rebuild(r, &v, false)
	return v
}

// famEvolve: projects whose repositories and configuration change over time.
func famEvolve(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 6}, repos: [2]int{1, 3}, lib: 50, nolib: true, suggests: true, cust: true, noupd: true, simple: r.P(1, 2)}
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	if r.P(1, 3) {
		world.proj().Cfg.Tarballs = append([]string{}, world.proj().Cfg.Tarballs...)
		second(r, &world)
	}
	wl := world.clone()
	past := make([][]Repo, len(wl.Repos))
	steps := []Step{genStep(r, "install")}
	n := r.In(1, 4)
	for i := 0; i < n; i++ {
		st := genStep(r, randomFlags(r, []string{"install"})...)
		st.Advance = pick(r, []int64{0, 30, 600, 3700}) * 1e9
		for k := range wl.Repos {
			if !r.P(1, 2) || wl.Repos[k].Local {
				continue
			}
			var v Repo
			if len(past[k]) > 0 && r.P(1, 3) {
				v = pick(r, past[k]) // back to where it was
			} else {
				v = movedRepo(r, wl.Repos[k])
				if v.MPN && r.P(1, 2) {
					// other binaries of the same repository
					v = wl.Repos[k]
					v.Suffix = pick(r, []string{"", "openssl1.1", "v2"})
					rebuild(r, &v, false)
				}
			}
			for _, x := range append(past[k], wl.Repos[k]) {
				if x.URL == v.URL && x.Suffix == v.Suffix {
					v = x
				}
			}
			past[k] = append(past[k], wl.Repos[k])
			wl.Repos[k] = v
			st.Mut = append(st.Mut, Mut{Kind: "repo", Repo: k, RepoVal: &v})
		}
		if r.P(1, 2) {
			c := wl.Projects[0].Cfg
			c.Cust = append([]Cust{}, c.Cust...)
			switch r.N(6) {
			case 0:
				if len(c.Packages) > 1 {
					c.Packages = append([]string{}, c.Packages[:len(c.Packages)-1]...)
				}
			case 1:
				rp := pick(r, wl.Repos)
				if nm := pick(r, rp.Pkgs).Name; offers(rp, nm, wl.R.Version) && !pinned(&c, nm) && !contains(c.Ignore, nm) && !contains(c.Packages, nm) {
					c.Packages = append(append([]string{}, c.Packages...), nm)
				}
			case 2:
				c.Threads = r.In(1, 6)
			case 3:
				c.NoUpdate = !c.NoUpdate
			case 4:
				if !world.proj().NoLib {
					c.Library = "lib2"
				}
			case 5:
				if len(c.Cust) > 0 && c.Cust[0].Type == "" {
					c.Cust = c.Cust[1:]
				}
			}
			wl.Projects[0].Cfg = c
			st.Mut = append(st.Mut, Mut{Kind: "config", Proj: 0, Cfg: &c})
		}
		if r.P(1, 2) {
			st.Mut = append(st.Mut, emptyLib(&wl, 0)...)
		}
		if r.P(1, 3) {
			st.Mut = append(st.Mut, rmBinaries(&wl)...)
		}
		if len(wl.Projects) > 1 && r.P(1, 2) {
			st.Proj = 1
		}
		steps = append(steps, st)
	}
	c := w.newCase(world, steps...)
	w.try(c)
	if !w.over() {
		v := *c
		v.Steps = append([]Step{}, c.Steps...)
		for i := range v.Steps {
			v.Steps[i] = vary(r, v.Steps[i])
		}
		w.try(&v)
	}
}

// crashWorld is a world for crash families.
func crashWorld(r *Rng, prop string) World {
	o := opts{pkgs: [2]int{1, 5}, repos: [2]int{1, 2}, lib: 85, simple: true, local: r.P(1, 5)}
	if prop == "S09" || r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	if r.P(1, 2) {
		world.proj().Cfg.Threads = r.In(1, 3)
	}
	return world
}

// placesFor narrows where a property's crashes happen.
func placesFor(prop string, r *Rng) func(fsEvent) bool {
	var m map[string]bool
	switch prop {
	case "S05":
		m = map[string]bool{"libtop": true, "libpkg": true, "libfile": true, "libdesc": true, "backuppkg": true, "backupfile": true, "backupdesc": true, "libtmppkg": true, "libtmpfile": true, "libtmpdesc": true}
	case "S07":
		m = map[string]bool{"src": true}
	case "S08":
		m = map[string]bool{"bin": true}
	case "S09":
		m = map[string]bool{"unpack": true}
	case "S11":
		m = map[string]bool{"db": true}
	}
	if m == nil || r.P(1, 5) {
		return writing
	}
	return func(e fsEvent) bool { return writing(e) && m[e.place] }
}

// famCrash: pkgr is killed, perhaps again during recovery, then runs undisturbed.
func famCrash(w *worker, r *Rng) {
	world := crashWorld(r, w.prop)
	st := genStep(r, "install")
	st.Role = "base"
	c := w.newCase(world, st)
	h := w.try(c)
	ev := fsEvents(&world, h.Steps[0])
	keep := placesFor(w.prop, r)
	for i := 0; i < 5 && !w.over(); i++ {
		e := sample(r, ev, keep)
		if e == nil {
			return
		}
		fs := []spec.Fault{crashFault(r, e)}
		if r.P(1, 5) {
			// something failed before that
			if ps := cmdProcs(h.Steps[0]); len(ps) > 0 {
				fs = append(fs, rFault(r, pick(r, ps)))
			}
		}
		if ps := cmdProcs(h.Steps[0]); len(ps) > 0 && (w.prop == "S05" || w.prop == "S16" || w.prop == "") && r.P(1, 4) {
			// killed while it takes back an install that failed
			f := rFault(r, pick(r, ps))
			hf := w.try(with(c, 0, []spec.Fault{f}))
			if w.over() {
				return
			}
			back := fsEvents(&world, hf.Steps[0])
			back = back[len(back)/2:]
			if e := sample(r, back, func(e fsEvent) bool {
				return writing(e) && (strings.HasPrefix(e.place, "lib") || strings.HasPrefix(e.place, "backup"))
			}); e != nil {
				fs = []spec.Fault{f, crashFault(r, e)}
			}
		}
		if r.P(1, 3) {
			// killed while it copes with a disk error
			if e1, f1 := libError(r, ev); e1 != nil {
				hf := w.try(with(c, 0, []spec.Fault{f1}))
				if w.over() {
					return
				}
				if e := later(r, ev, fsEvents(&world, hf.Steps[0]), e1.idx); e != nil {
					fs = []spec.Fault{f1, crashFault(r, e)}
				}
			}
		}
		cur := with(c, 0, fs)
		for k := r.N(3); k > 0; k-- {
			// killed again: look at the undisturbed continuation first
			nx := genStep(r, "install")
			probe := with(cur, len(cur.Steps)-1, nil, nx)
			hp := w.try(probe)
			if w.over() {
				return
			}
			x := hp.Steps[len(hp.Steps)-1]
			if ps := cmdProcs(x); len(ps) > 0 && r.P(1, 3) {
				// or an install fails
				cur = with(probe, len(probe.Steps)-1, []spec.Fault{rFault(r, pick(r, ps))})
				continue
			}
			e := sample(r, fsEvents(&world, x), writing)
			if e == nil {
				break
			}
			cur = with(probe, len(probe.Steps)-1, []spec.Fault{crashFault(r, e)})
		}
		rec := recovery(r, 0)
		if w.prop == "S16" || w.prop == "" && r.P(1, 2) {
			rec.Role = "same"
		} else if r.P(1, 4) && w.prop != "S05" {
			rec.Mut = append(emptyLib(&world, 0), rmBinaries(&world)...)
		}
		rep := genStep(r, "install")
		rep.Role = "repeat"
		w.try(with(cur, len(cur.Steps)-1, nil, rec, rep))
	}
}

// libError is a disk error in the library, often one that a file system
// that cannot rename gives.
func libError(r *Rng, ev []fsEvent) (*fsEvent, spec.Fault) {
	in := func(e fsEvent) bool {
		return faultable(e) && writing(e) && (strings.HasPrefix(e.place, "lib") || strings.HasPrefix(e.place, "backup"))
	}
	if r.P(1, 2) {
		if e := sample(r, ev, func(e fsEvent) bool { return in(e) && e.op == "rename" }); e != nil {
			f := errFault(r, e)
			if r.P(2, 3) {
				f.Errno = "EXDEV"
			}
			return e, f
		}
	}
	e := sample(r, ev, in)
	if e == nil {
		return nil, spec.Fault{}
	}
	return e, errFault(r, e)
}

// later picks a writing event in the library after a fault, with preference
// for those that the run without the fault does not have.
func later(r *Rng, base, ev []fsEvent, after int) *fsEvent {
	old := map[string]bool{}
	for _, e := range base {
		old[e.op+" "+e.path] = true
	}
	in := func(e fsEvent) bool {
		return e.idx > after && writing(e) && (strings.HasPrefix(e.place, "lib") || strings.HasPrefix(e.place, "backup"))
	}
	if r.P(2, 3) {
		if e := sample(r, ev, func(e fsEvent) bool { return in(e) && !old[e.op+" "+e.path] }); e != nil {
			return e
		}
	}
	return sample(r, ev, in)
}

// famLibFault: disk errors in the library, with and without failing builds.
func famLibFault(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 5}, repos: [2]int{1, 2}, lib: 90, simple: true, nolib: r.P(1, 3)}
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	c := w.newCase(world, genStep(r, "install"))
	h := w.try(c)
	if ps := cmdProcs(h.Steps[0]); len(ps) > 0 && r.P(2, 3) {
		c = with(c, 0, []spec.Fault{rFault(r, pick(r, ps))})
		h = w.try(c)
	}
	inLib := func(e fsEvent) bool {
		return (strings.HasPrefix(e.place, "lib") || strings.HasPrefix(e.place, "backup")) && faultable(e)
	}
	for i := 0; i < 5 && !w.over(); i++ {
		cur, hc := c, h
		for k := 0; k < pick(r, []int{1, 1, 2, 3}); k++ {
			e := sample(r, fsEvents(&world, hc.Steps[0]), inLib)
			if e == nil {
				return
			}
			cur = with(cur, 0, []spec.Fault{errFault(r, e)})
			hc = w.try(cur)
			if w.over() {
				return
			}
		}
		if w.prop == "S05" || w.prop == "" {
			w.try(with(cur, 0, nil, recovery(r, 0)))
		}
	}
}

// famAnyFault: disk, network and process faults anywhere, combined.
func famAnyFault(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 6}, repos: [2]int{1, 3}, lib: 60, nolib: true, local: true, cust: true, norb: true}
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	c := w.newCase(world, genStep(r, "install"))
	h := w.try(c)
	for i := 0; i < 5 && !w.over(); i++ {
		cur, hc := c, h
		for k := 0; k < pick(r, []int{1, 1, 2, 3}); k++ {
			var f spec.Fault
			x := hc.Steps[0]
			switch r.N(6) {
			case 0:
				u := requests(x)
				if len(u) == 0 {
					continue
				}
				f = httpFault(r, pick(r, u))
			case 1:
				ps := cmdProcs(x)
				if len(ps) == 0 {
					continue
				}
				f = rFault(r, pick(r, ps))
			default:
				e := sample(r, fsEvents(&world, x), faultable)
				if e == nil {
					continue
				}
				f = errFault(r, e)
			}
			cur = with(cur, 0, []spec.Fault{f})
			hc = w.try(cur)
			if w.over() {
				return
			}
		}
	}
}

// famTarball: tarball packages, faults while unpacking.
func famTarball(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 5}, repos: [2]int{1, 2}, lib: 60, nolib: true, simple: true, tarballs: 3, big: r.P(1, 3)}
	world := genWorld(r, o)
	c := w.newCase(world, genStep(r, "install"))
	h := w.try(c)
	onTar := func(e fsEvent) bool {
		return (e.place == "unpack" || e.place == "tarball" || e.place == "cachetop") && faultable(e)
	}
	wt := world.clone()
	var change *Mut
	if ts := sortedKeys(wt.Tarballs); len(ts) > 0 && r.P(1, 3) {
		// the tarball is rebuilt with other content
		t := pick(r, ts)
		k := wt.Tarballs[t]
		if r.P(1, 2) {
			k.Origin = "tarbulk" // as long as "tarball"
		} else {
			// only the end of the file differs
			k.Size = pick(r, []int{2000, 10000, 70000, 300000, 1200000})
			k.Late = "one"
			world.Tarballs[t] = k
			c = w.newCase(world, genStep(r, "install"))
			h = w.try(c)
			k.Late = "two"
		}
		change = &Mut{Kind: "tarball", Path: t, Pkg: &k}
	}
	for i := 0; i < 4 && !w.over(); i++ {
		var fs []spec.Fault
		for k := 0; k < pick(r, []int{1, 1, 2}); k++ {
			if w.prop != "S09" && r.P(1, 3) {
				if ps := cmdProcs(h.Steps[0]); len(ps) > 0 {
					fs = append(fs, rFault(r, pick(r, ps)))
				}
				continue
			}
			e := sample(r, fsEvents(&world, h.Steps[0]), onTar)
			if e == nil {
				continue
			}
			if writing(*e) && r.P(1, 2) {
				fs = append(fs, crashFault(r, e))
			} else {
				fs = append(fs, errFault(r, e))
			}
		}
		if len(fs) == 0 {
			continue
		}
		if w.prop != "" && w.prop != "S09" {
			w.try(with(c, 0, fs))
			continue
		}
		rec := recovery(r, 0)
		if change != nil && r.P(1, 2) {
			rec.Mut = []Mut{*change}
		}
		w.try(with(c, 0, fs, rec))
	}
	if change != nil && (w.prop == "" || w.prop == "S09") && !w.over() {
		rec := recovery(r, 0)
		rec.Mut = []Mut{*change}
		w.try(with(c, 0, nil, rec))
	}
}

// editWorld has a configuration file as people write them.
func editWorld(r *Rng) World {
	world := genWorld(r, opts{pkgs: [2]int{1, 4}, repos: [2]int{1, 1}, lib: 50, simple: true, cust: true, nolib: true})
	cfg := &world.proj().Cfg
	text := *cfg
	text.Packages, text.Ignore, text.Threads = nil, nil, 2
	lines := strings.Split(strings.TrimRight(text.yaml(world.Repos), "\n"), "\n")
	ind := pick(r, []string{"  ", "  ", "", "    "})
	var sec []string
	sec = append(sec, "Packages:")
	if r.P(1, 5) {
		sec[0] = "Packages: # what we use"
	}
	n := r.In(1, 6)
	names := append([]string{}, editNames...)
	shuffle(r, names)
	for i := 0; i < n; i++ {
		if r.P(1, 6) {
			sec = append(sec, ind+"# a comment - "+pick(r, names))
		}
		l := ind + "- " + names[i]
		if r.P(1, 8) {
			l += " # why"
		}
		sec = append(sec, l)
	}
	cfg.Packages = names[:n]
	switch r.N(12) {
	case 0: // nothing listed yet
		sec, cfg.Packages = sec[:1], nil
	case 1:
		sec, cfg.Packages = nil, nil
	case 2:
		sec = []string{"Packages: [" + strings.Join(names[:n], ", ") + "]"}
	case 3:
		for i, l := range sec {
			if k := strings.Index(l, "- "); k >= 0 && !strings.Contains(l, "#") {
				sec[i] = l[:k+2] + `"` + l[k+2:] + `"`
			}
		}
	}
	at := len(lines)
	switch r.N(4) {
	case 0:
		at = 1
	case 1:
		at = r.In(1, 2)
		if !strings.HasPrefix(lines[at], "Repos") {
			at = 1
		}
	}
	var out []string
	out = append(out, lines[:at]...)
	if r.P(1, 2) {
		out = append(out, "", "# packages")
	}
	out = append(out, sec...)
	if r.P(1, 2) {
		out = append(out, "")
	}
	out = append(out, lines[at:]...)
	if r.P(1, 2) {
		out = append(out, "IgnorePackages:", ind+"- "+names[n], ind+"- "+names[0]+"2")
		if r.P(1, 2) {
			out = append(out, ind+"- "+names[0])
		}
	}
	if r.P(1, 3) {
		out = append(out, "Suggests: false", "# end - "+names[0])
	}
	cfg.Text = strings.Join(out, "\n") + "\n"
	if r.P(1, 12) {
		out = append(out[:1:1], append([]string{"# " + strings.Repeat("long ", 14000)}, out[1:]...)...)
		cfg.Text = strings.Join(out, "\n") + "\n"
	}
	if r.P(1, 8) {
		cfg.Text = strings.ReplaceAll(cfg.Text, "\n", "\r\n")
	}
	if r.P(1, 8) {
		cfg.Text = strings.TrimRight(cfg.Text, "\r\n")
	}
	if r.P(1, 3) {
		world.proj().Mode = pick(r, []uint32{0o600, 0o664, 0o640, 0o755, 0o444})
	}
	world.proj().Link = r.P(1, 6)
	return world
}

// famEdit: add and remove.
func famEdit(w *worker, r *Rng) {
	world := editWorld(r)
	var steps []Step
	one := func() Step {
		k := r.In(1, 3)
		var ns []string
		for i := 0; i < k; i++ {
			x := pick(r, editNames)
			if l := world.proj().Cfg.Packages; len(l) > 0 && r.P(1, 2) {
				x = pick(r, l)
			}
			if !contains(ns, x) || r.P(1, 3) {
				ns = append(ns, x)
			}
		}
		if r.P(1, 10) {
			ns = append(ns, ns[0])
		}
		return genStep(r, append([]string{pick(r, []string{"add", "remove"})}, ns...)...)
	}
	steps = append(steps, one())
	c := w.newCase(world, steps...)
	h := w.try(c)
	onYml := func(e fsEvent) bool { return e.place == "yml" && faultable(e) }
	for i := 0; i < 5 && !w.over(); i++ {
		e := sample(r, fsEvents(&world, h.Steps[0]), onYml)
		if e == nil || r.P(1, 8) {
			e = sample(r, fsEvents(&world, h.Steps[0]), faultable)
		}
		if e == nil {
			return
		}
		var f spec.Fault
		if writing(*e) && r.P(1, 2) {
			f = crashFault(r, e)
		} else {
			f = errFault(r, e)
		}
		w.try(with(c, 0, []spec.Fault{f}, one()))
	}
}

// famLoad: load with failing, dying and slow sessions.
func famLoad(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 8}, repos: [2]int{1, 2}, lib: 0, simple: true, suggests: true, descs: true}
	if r.P(1, 4) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	// what pkgr would have installed
	pl := plan(&world, 0)
	pr := world.proj()
	for _, n := range sortedKeys(pl.Pkgs) {
		if r.P(9, 10) {
			p := pl.Pkgs[n].Pkg
			if r.P(1, 6) {
				p.Version = "0.0.1"
			}
			pr.Lib = append(pr.Lib, Inst{Pkg: p})
		}
	}
	for _, n := range sortedKeys(pl.Tarballs) {
		if _, ok := pl.Pkgs[n]; !ok {
			pr.Lib = append(pr.Lib, Inst{Pkg: world.Tarballs[pl.Tarballs[n]]})
		}
	}
	if r.P(4, 5) {
		world.R.Extra = []string{pr.lib()}
	}
	world.R.LoadFail = map[string]bool{}
	for _, n := range subset(r, sortedKeys(pl.Pkgs), 1, 5) {
		world.R.LoadFail[n] = true
	}
	if r.P(1, 4) && len(pr.Cfg.Packages) > 0 {
		pr.Cfg.Packages = append(pr.Cfg.Packages, pr.Cfg.Packages[0])
	}
	args := []string{"load"}
	if r.P(4, 5) {
		args = append(args, "--json")
	}
	if r.P(1, 2) {
		args = append(args, "--all")
	}
	if r.P(1, 4) {
		args = append(args, fmt.Sprintf("--threads=%d", pick(r, []int{1, 2, 3, 8})))
	}
	st := genStep(r, args...)
	c := w.newCase(world, st)
	h := w.try(c)
	var ps []*rproc
	for _, e := range h.Steps[0].Ev {
		if e.Kind == "R+" && (e.F[1] == "load" || e.F[1] == "info") {
			ps = append(ps, &rproc{phase: e.F[1], pkg: e.F[2]})
		}
	}
	for i := 0; i < 3 && !w.over(); i++ {
		v := *c
		v.Steps = []Step{vary(r, c.Steps[0])}
		if len(ps) > 0 && r.P(2, 3) {
			var fs []spec.Fault
			for k := 0; k < r.In(1, 2); k++ {
				p := pick(r, ps)
				act := pick(r, []string{"kill", "exit", "spawn"})
				fs = append(fs, spec.Fault{Kind: "r", Phase: p.phase, Pkg: p.pkg, Act: act, Code: r.In(1, 3)})
			}
			w.try(with(&v, 0, fs))
			continue
		}
		w.try(&v)
	}
}

// famReadonly: everything but install leaves the library alone.
func famReadonly(w *worker, r *Rng) {
	o := fullOpts()
	o.missing = r.P(1, 3)
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	pr := world.proj()
	if r.P(1, 5) {
		pr.NoLib, pr.Lib = true, nil
		pr.Cfg.Strict = true
	}
	pick1 := pick(r, nameStock)
	lists := [][]string{{"plan"}, {"plan", "--show-deps"}, {"inspect", "--deps"}, {"inspect", "--deps", "--tree"}, {"inspect", "--installed-from"}, {"load", "--json"}, {"load", "--all"},
		{"add", pick1}, {"remove", pick1}, {"clean", "cache"}, {"clean", "pkgdbs"}, {"clean", "--all"}, {"install", "--strict"}, {"plan", "--no-update"}, {"plan", "--update"}}
	args := pick(r, lists)
	if pr.NoLib && r.P(1, 2) {
		args = []string{"install", "--strict"}
	}
	st := genStep(r, args...)
	var pre []Step
	if r.P(1, 3) && args[0] != "install" {
		pre = append(pre, genStep(r, "plan"))
	}
	c := w.newCase(world, append(pre, st)...)
	h := w.try(c)
	k := len(pre)
	for i := 0; i < 3 && !w.over(); i++ {
		var fs []spec.Fault
		for j := 0; j < r.In(1, 2); j++ {
			if u := requests(h.Steps[k]); len(u) > 0 && r.P(1, 4) {
				fs = append(fs, httpFault(r, pick(r, u)))
				continue
			}
			if e := sample(r, fsEvents(&world, h.Steps[k]), faultable); e != nil {
				if writing(*e) && r.P(1, 3) {
					fs = append(fs, crashFault(r, e))
				} else {
					fs = append(fs, errFault(r, e))
				}
			}
		}
		w.try(with(c, k, fs))
	}
}

// planArgs is an invocation that only plans.
func planArgs(r *Rng, w *World) []string {
	args := pick(r, [][]string{{"plan"}, {"plan"}, {"plan", "--show-deps"}, {"plan", "--no-update"}, {"plan", "--update"}, {"inspect", "--deps"}, {"inspect", "--deps"}, {"inspect", "--installed-from"},
		{"inspect", "--deps", "--reverse"}, {"inspect", "--deps", "--tree"}, {"inspect", "--deps", "--tree", "--reverse"}})
	if args[0] == "inspect" && r.P(1, 3) {
		args = append([]string{}, args...)
		for _, p := range pick(r, w.Repos).Pkgs {
			if len(args) < 5 && !strings.HasPrefix(p.Name, "zzmark") && r.P(1, 2) {
				args = append(args, p.Name)
			}
		}
	}
	return args
}

// famPlan: what is announced before, between and after installs.
func famPlan(w *worker, r *Rng) {
	o := fullOpts()
	o.lib = 80
	o.missing = r.P(1, 5)
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	wl := world.clone()
	var steps []Step
	n := r.In(2, 5)
	for i := 0; i < n; i++ {
		var st Step
		if r.P(1, 3) {
			st = genStep(r, randomFlags(r, []string{"install"})...)
		} else {
			st = genStep(r, planArgs(r, &wl)...)
			if st.Args[0] == "inspect" && r.P(1, 3) {
				st.Args = append(st.Args[:len(st.Args)-1], "--loglevel=fatal")
			}
		}
		if i > 0 && r.P(1, 2) {
			st.Advance = pick(r, []int64{10, 3700}) * 1e9
			for k := range wl.Repos {
				if r.P(1, 2) {
					v := mutateRepo(r, wl.Repos[k])
					wl.Repos[k] = v
					st.Mut = append(st.Mut, Mut{Kind: "repo", Repo: k, RepoVal: &v})
				}
			}
		}
		if i > 0 && r.P(1, 4) {
			cfg := wl.Projects[0].Cfg
			cfg.Packages = shuffledStrings(r, cfg.Packages)
			if len(cfg.Packages) > 1 && r.P(1, 2) {
				cfg.Packages = cfg.Packages[1:]
			}
			if r.P(1, 6) {
				cfg.Packages = nil // perhaps tarballs only
			}
			cfg.NoUpdate = r.P(1, 3)
			wl.Projects[0].Cfg = cfg
			st.Mut = append(st.Mut, Mut{Kind: "config", Proj: 0, Cfg: &cfg})
		}
		steps = append(steps, st)
	}
	c := w.newCase(world, steps...)
	h := w.try(c)
	for i := 0; i < 3 && !w.over(); i++ {
		k := r.N(len(steps))
		var fs []spec.Fault
		for j := 0; j < r.In(1, 2); j++ {
			if u := requests(h.Steps[k]); len(u) > 0 && r.P(1, 3) {
				fs = append(fs, httpFault(r, pick(r, u)))
			} else if e := sample(r, fsEvents(&world, h.Steps[k]), faultable); e != nil {
				if writing(*e) && r.P(1, 3) {
					fs = append(fs, crashFault(r, e))
				} else {
					fs = append(fs, errFault(r, e))
				}
			}
		}
		v := *c
		v.Steps = append([]Step{}, c.Steps...)
		v.Steps[k].Faults = fs
		v.Steps = append(v.Steps, genStep(r, planArgs(r, &wl)...))
		w.try(&v)
	}
	if !w.over() {
		v := *c
		v.Steps = append([]Step{}, c.Steps...)
		for i := range v.Steps {
			v.Steps[i] = vary(r, v.Steps[i])
		}
		w.try(&v)
	}
}

func shuffledStrings(r *Rng, s []string) []string {
	s = append([]string{}, s...)
	shuffle(r, s)
	return s
}

// famCleanCache: fill the caches, clean, install again.
func famCleanCache(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 5}, repos: [2]int{1, 3}, lib: 30, simple: true}
	if r.P(1, 3) {
		o.tarballs = 2
	}
	world := genWorld(r, o)
	world.Files["/sim/home/.cache/other/keep.txt"] = "keep"
	world.Files[world.proj().cache()+"/README"] = "mine"
	if r.P(1, 2) {
		world.Files[world.proj().cache()+"/other-0123456789ab/src/x_1.0.tar.gz"] = "of another project"
	}
	if r.P(1, 3) {
		world.Files[dbDir+"/0123456789abcdef"] = "of another project"
	}
	var args []string
	sel := func() []string {
		if r.P(1, 2) {
			return nil
		}
		s := repoSel(r, &world, true)
		if r.P(1, 4) {
			// not the name of a cache
			x := pick(r, world.Repos)
			d := x.cacheDir()
			s = append(s, pick(r, []string{x.Name, d[:len(d)-1], d[len(x.Name):], strings.ToUpper(d), "src", "..", "."}))
			if r.P(1, 2) {
				s = s[len(s)-1:]
			}
		}
		return []string{"--repos=" + strings.Join(s, ",")}
	}
	switch r.N(5) {
	case 0, 1:
		args = append([]string{"clean", "cache"}, sel()...)
	case 2:
		args = append([]string{"clean", "cache", pick(r, []string{"--src-only", "--binaries-only"})}, sel()...)
	case 3:
		args = []string{"clean", "pkgdbs"}
		if r.P(1, 2) {
			s := repoSel(r, &world, false)
			if r.P(1, 4) {
				x := pick(r, world.Repos).Name
				s = append(s, pick(r, []string{x + "x", x[:len(x)-1], strings.ToLower(x), x + "-1"}))
			}
			args = append(args, "--repos="+strings.Join(s, ","))
		}
	case 4:
		args = []string{"clean", "--all"}
	}
	inst := genStep(r, "install")
	cl := genStep(r, args...)
	var steps []Step
	if r.P(7, 8) {
		steps = append(steps, inst)
	}
	steps = append(steps, cl)
	k := len(steps) - 1
	c := w.newCase(world, steps...)
	rec := recovery(r, 0)
	if r.P(1, 2) {
		rec.Mut = emptyLib(&world, 0)
	}
	h := w.try(with(c, k, nil, rec))
	for i := 0; i < 3 && !w.over(); i++ {
		e := sample(r, fsEvents(&world, h.Steps[k]), func(e fsEvent) bool {
			return faultable(e) && (e.place == "src" || e.place == "bin" || e.place == "db" || e.place == "unpack" || e.place == "cachetop")
		})
		if e == nil {
			return
		}
		f := errFault(r, e)
		if writing(*e) && r.P(1, 4) {
			f = crashFault(r, e)
		}
		w.try(with(c, k, []spec.Fault{f}, rec))
	}
}

func repoSel(r *Rng, w *World, hashed bool) []string {
	var out []string
	for _, x := range w.Repos {
		if r.P(1, 2) {
			if hashed {
				out = append(out, x.cacheDir())
			} else {
				out = append(out, x.Name)
			}
		}
	}
	if len(out) == 0 {
		x := w.Repos[0]
		if hashed {
			return []string{x.cacheDir()}
		}
		return []string{x.Name}
	}
	return out
}

// famCert: servers whose certificates do not verify.
func famCert(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 5}, repos: [2]int{1, 3}, lib: 40, simple: true, nolib: true}
	world := genWorld(r, o)
	k := r.N(len(world.Repos))
	rp := &world.Repos[k]
	_, p := splitURL(rp.URL)
	h := repoHost(rp.URL)
	rp.BadCert, rp.Why = true, r.N(5)
	switch r.N(3) {
	case 0, 1:
		rp.URL = "https://" + h + "/" + p
	case 2:
		rp.URL = pick(r, []string{"http://", "https://"}) + h + "/" + p
		rp.Redirect = "https://mirror.sim"
	}
	args := []string{pick(r, []string{"install", "install", "plan"})}
	mode := r.N(4)
	if mode == 0 {
		args = append(args, "--no-secure")
	}
	if mode == 1 {
		world.proj().Cfg.NoSecure = true
	}
	st := genStep(r, args...)
	c := w.newCase(world, st)
	if mode > 1 {
		// perhaps the certificate went bad after the index was cached
		if r.P(1, 3) {
			good := world.clone()
			good.Repos[k].BadCert = false
			pre := genStep(r, "plan")
			bad := world.Repos[k]
			st.Mut = []Mut{{Kind: "repo", Repo: k, RepoVal: &bad}}
			c = w.newCase(good, pre, st)
		}
	}
	hist := w.try(c)
	n := len(c.Steps) - 1
	if u := requests(hist.Steps[n]); len(u) > 0 && !w.over() {
		w.try(with(c, n, []spec.Fault{httpFault(r, pick(r, u))}, func() Step { s := genStep(r, args...); return s }()))
	}
	if !w.over() {
		v := *c
		v.Steps = append([]Step{}, c.Steps...)
		v.Steps[n] = vary(r, c.Steps[n])
		w.try(&v)
	}
}

// second adds a project that shares repositories and cache.
func second(r *Rng, world *World) {
	a := world.proj()
	if a.Cfg.Cache == "cache" {
		a.Cfg.Cache = "/sim/shared/cache"
	}
	a.Lib, a.NoLib = nil, false
	b := Project{Dir: "q", Cfg: a.Cfg}
	b.Cfg.Library, b.Cfg.Lock = "lib", ""
	b.Cfg.Threads = r.In(1, 4)
	var names []string
	for _, rp := range world.Repos {
		for _, list := range [][]Pkg{rp.Pkgs, rp.Bin} {
			for _, p := range list {
				if !strings.HasPrefix(p.Name, "zzmark") && !contains(names, p.Name) {
					names = append(names, p.Name)
				}
			}
		}
	}
	sort.Strings(names)
	if len(names) > 0 && r.P(1, 2) {
		b.Cfg.Packages = subset(r, names, 2, 3)
		if len(b.Cfg.Packages) == 0 {
			b.Cfg.Packages = names[:1]
		}
		shuffle(r, b.Cfg.Packages)
	}
	for i, t := range b.Cfg.Tarballs {
		// the same file, by its absolute path
		b.Cfg.Tarballs[i] = a.path(t)
	}
	world.Projects = append(world.Projects, b)
}

// famPair: two installs at once.
func famPair(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 5}, repos: [2]int{1, 3}, lib: 0, simple: true, big: r.P(1, 2)}
	if r.P(1, 4) {
		o.tarballs = 1
	}
	world := genWorld(r, o)
	world.proj().Cfg.Tarballs = append([]string{}, world.proj().Cfg.Tarballs...)
	second(r, &world)
	if world.proj().Cfg.Tarballs != nil {
		t := append([]string{}, world.Projects[0].Cfg.Tarballs...)
		for i := range t {
			t[i] = world.Projects[0].path(t[i])
		}
		world.Projects[0].Cfg.Tarballs, world.Projects[1].Cfg.Tarballs = t, t
	}
	a, b := genStep(r, "install"), genStep(r, "install")
	b.Proj = 1
	c := w.newCase(world, a, b)
	h := w.try(c)
	shared := func(e fsEvent) bool {
		switch e.place {
		case "db", "src", "bin", "unpack", "cachetop":
			return true
		}
		return false
	}
	anywhere := func(e fsEvent) bool { return r.P(1, 4) || shared(e) }
	base := fsEvents(&world, h.Steps[0])
	// the second alone from scratch
	c2 := w.newCase(world, b)
	other := fsEvents(&world, w.try(c2).Steps[0])
	// with an index that is too old
	late := a
	late.Advance = 4000 * 1e9
	again := fsEvents(&world, w.try(w.newCase(world, genStep(r, "plan"), late)).Steps[1])
	for i := 0; i < 6 && !w.over(); i++ {
		x, y := a, b
		x.Faults, y.Faults = nil, nil
		for k := 0; k < r.In(1, 4); k++ {
			if e := sample(r, base, anywhere); e != nil {
				x.Faults = append(x.Faults, spec.Fault{Kind: "fs", Act: "pause", At: e.idx, Op: e.op, Path: e.path})
			}
		}
		for k := 0; k < r.N(4); k++ {
			if e := sample(r, other, anywhere); e != nil {
				y.Faults = append(y.Faults, spec.Fault{Kind: "fs", Act: "pause", At: e.idx, Op: e.op, Path: e.path})
			}
		}
		x.With = &y
		if w.prop == "S06" || r.P(1, 6) {
			// the cache is emptied while packages are installed
			y = genStep(r, pick(r, [][]string{{"clean", "cache"}, {"clean", "cache", "--src-only"}, {"clean", "cache", "--binaries-only"}, {"clean", "--all"}, {"clean", "pkgdbs"}})...)
			y.Proj = r.N(2)
			for k := 0; k < r.N(4); k++ {
				if e := sample(r, base, anywhere); e != nil {
					x.Faults = append(x.Faults, spec.Fault{Kind: "fs", Act: "pause", At: e.idx, Op: e.op, Path: e.path})
				}
			}
			w.try(w.newCase(world, x, recovery(r, 0)))
			continue
		}
		var steps []Step
		if r.P(1, 3) {
			// caches are old
			steps = append(steps, genStep(r, "plan"))
			x.Advance = pick(r, []int64{10, 4000, 4000}) * 1e9
			for _, f := range []*[]spec.Fault{&x.Faults, &y.Faults} {
				for k := 0; k < 2 && x.Advance > 1e12; k++ {
					if e := sample(r, again, func(e fsEvent) bool { return e.place == "db" }); e != nil {
						*f = append(*f, spec.Fault{Kind: "fs", Act: "pause", At: e.idx, Op: e.op, Path: e.path})
					}
				}
			}
		}
		w.try(w.newCase(world, append(steps, x)...))
	}
}

// famBinCache: storing binaries is disturbed; another project uses the cache.
func famBinCache(w *worker, r *Rng) {
	o := opts{pkgs: [2]int{1, 4}, repos: [2]int{1, 2}, lib: 0, simple: true, big: true}
	world := genWorld(r, o)
	second(r, &world)
	c := w.newCase(world, genStep(r, "install"))
	h := w.try(c)
	onBin := func(e fsEvent) bool {
		return (e.place == "bin" || e.place == "tmp" && strings.HasSuffix(e.path, ".gz")) && faultable(e)
	}
	for i := 0; i < 5 && !w.over(); i++ {
		cur, hc := c, h
		for k := 0; k < pick(r, []int{1, 1, 2}); k++ {
			e := sample(r, fsEvents(&world, hc.Steps[0]), onBin)
			if e == nil {
				return
			}
			f := errFault(r, e)
			if writing(*e) && r.P(1, 3) {
				f = crashFault(r, e)
			}
			cur = with(cur, 0, []spec.Fault{f})
			if k == 0 {
				hc = w.try(cur)
			}
		}
		w.try(with(cur, 0, nil, recovery(r, 1), recovery(r, 0, emptyLib(&world, 0)...)))
	}
}

// famPlaces: where R and the library are found.
func famPlaces(w *worker, r *Rng) {
	o := fullOpts()
	o.pkgs = [2]int{1, 4}
	o.places = true
	world := genWorld(r, o)
	pr := world.proj()
	names := w.names(&world)
	var steps []Step
	for i, n := 0, r.In(1, 3); i < n; i++ {
		args := pick(r, [][]string{{"install"}, {"install"}, {"install"}, {"plan"}, {"load", "--json", "--all"}, {"run"}, {"run"}, {"inspect", "--deps"}, {"clean", "cache"}, {"add", "anewpkg"}, {"remove", names[0]}})
		args = append([]string{}, args...)
		if args[0] == "run" && r.P(2, 3) {
			x := pick(r, names)
			if len(pr.Cfg.Cust) > 0 && r.P(3, 4) {
				x = pick(r, pr.Cfg.Cust).Name
			}
			args = append(args, "--pkg="+x)
		}
		if r.P(1, 8) && args[0] != "clean" {
			args = append(args, "--library=/sim/p/other")
		}
		st := genStep(r, args...)
		st.Env = userEnv(r)
		if r.P(1, 8) {
			st.Env["PKGR_LIBRARY"] = pick(r, []string{"/sim/p/third", "~/third", "third"})
		}
		if r.P(1, 8) {
			st.Env["PKGR_RPATH"] = pick(r, otherR)
		} else if r.P(1, 16) {
			st.Env["PKGR_RPATH"] = pick(r, []string{"/sim/opt/none/bin/R", "~/none/R", "/sim/bin/R-9.9"})
		}
		if r.P(1, 4) {
			rdir := path.Dir(pr.r())
			st.Env["PATH"] = pick(r, []string{"/sim/bin:/sim/opt/other/bin", "/sim/none:/sim/bin:/sim/opt/other/bin", rdir + ":/sim/bin", rdir + "/:/sim/bin", rdir + "-old:/sim/bin", "/sim/bin:" + rdir})
		}
		if r.P(1, 3) {
			st.Cwd = pick(r, []string{"/sim/home", "/sim", "/sim/tmp"})
			st.Args = append(st.Args, "--config="+pick(r, []string{"/sim/p/pkgr.yml", "../sim/p/pkgr.yml"}))
			if st.Cwd == "/sim" {
				st.Args[len(st.Args)-1] = "--config=p/pkgr.yml"
			} else if strings.HasSuffix(st.Args[len(st.Args)-1], "../sim/p/pkgr.yml") {
				st.Args[len(st.Args)-1] = "--config=../p/pkgr.yml"
			}
		}
		steps = append(steps, st)
		if args[0] == "add" || args[0] == "remove" {
			break // the model's configuration stays as it is
		}
	}
	c := w.newCase(world, steps...)
	h := w.try(c)
	for i := 0; i < 3 && !w.over(); i++ {
		k := r.N(len(steps))
		var ps []*rproc
		for _, e := range h.Steps[k].Ev {
			if e.Kind == "R+" && e.F[1] != "build" && e.F[1] != "install" && e.F[1] != "load" {
				ps = append(ps, &rproc{phase: e.F[1], pkg: e.F[2]})
			}
		}
		if len(ps) == 0 {
			break
		}
		p := pick(r, ps)
		if ps[0].phase == "renv" || r.P(1, 2) {
			p = ps[0]
		}
		f := spec.Fault{Kind: "r", Phase: p.phase, Pkg: p.pkg, Act: pick(r, []string{"kill", "exit", "spawn", "slow"}), Code: r.In(1, 3)}
		if f.Phase == "renv" && r.P(1, 2) {
			f.Act, f.N = "short", r.N(100)
		}
		w.try(with(c, k, []spec.Fault{f}))
	}
}

// names are the packages on offer.
func (w *worker) names(world *World) []string {
	var out []string
	for _, rp := range world.Repos {
		for _, list := range [][]Pkg{rp.Pkgs, rp.Bin} {
			for _, p := range list {
				if !strings.HasPrefix(p.Name, "zzmark") && !contains(out, p.Name) {
					out = append(out, p.Name)
				}
			}
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		out = []string{"none"}
	}
	return out
}

// famLogs: what log files hold after a history of commands.
func famLogs(w *worker, r *Rng) {
	o := fullOpts()
	o.pkgs = [2]int{1, 6}
	o.logs = true
	if r.P(1, 4) {
		o.tarballs = 1
	}
	two := r.P(1, 4)
	o.descs = !two
	world := genWorld(r, o)
	pr := world.proj()
	if r.P(1, 3) {
		world.Files[pr.path(pick(r, []string{"install.log", "~/pkgr-all.log", "pkgr.log"}))] = "{\"level\":\"info\",\"msg\":\"earlier\"}\n"
	}
	names := w.names(&world)
	if two {
		second(r, &world)
		if l := world.Projects[1].Cfg.LogAll; l != "" {
			world.Projects[1].Cfg.LogAll = world.Projects[0].path(l)
		}
		if l := world.Projects[1].Cfg.LogInstall; l != "" {
			world.Projects[1].Cfg.LogInstall = world.Projects[0].path(l)
		}
		pr = world.proj()
	}
	var steps []Step
	for i, n := 0, r.In(1, 3); i < n; i++ {
		args := pick(r, [][]string{{"install"}, {"install"}, {"install"}, {"plan"}, {"load"}, {"load", "--all"}, {"run"}, {"inspect", "--deps"}, {"clean", "cache"}, {"clean", "pkgdbs"}, {"clean", "--all"},
			{"add", names[0]}, {"add", names[0], "--install"}, {"remove", names[0]}, {"remove", "zz"}})
		steps = append(steps, genStep(r, args...))
		if args[0] == "add" || args[0] == "remove" {
			break
		}
	}
	k := r.N(len(steps))
	c := w.newCase(world, steps...)
	h := w.try(c)
	for i := 0; i < 3 && !w.over(); i++ {
		var fs []spec.Fault
		evs := fsEvents(&world, h.Steps[k])
		onLog := func(e fsEvent) bool { return strings.HasSuffix(e.path, ".log") && faultable(e) }
		if r.P(2, 3) {
			if e := sample(r, evs, onLog); e != nil {
				if two && r.P(1, 2) {
					v := *c
					v.Steps = append([]Step{}, c.Steps...)
					x := v.Steps[k]
					x.Faults = []spec.Fault{{Kind: "fs", Act: "pause", At: e.idx, Op: e.op, Path: e.path}}
					y := genStep(r, "install")
					y.Proj = 1
					x.With = &y
					v.Steps[k] = x
					w.try(&v)
					continue
				}
				if writing(*e) && r.P(1, 3) {
					fs = append(fs, crashFault(r, e))
				} else {
					fs = append(fs, errFault(r, e))
				}
			}
		} else if e := sample(r, evs, faultable); e != nil {
			fs = append(fs, errFault(r, e))
		} else if ps := cmdProcs(h.Steps[k]); len(ps) > 0 {
			fs = append(fs, rFault(r, pick(r, ps)))
		}
		w.try(with(c, k, fs))
	}
}
