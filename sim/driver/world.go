package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	spec "verifsim/spec"
)

// Pkg is one R package as some repository, tarball or library has it.
type Pkg struct {
	Name      string
	Version   string
	Depends   []string `json:",omitempty"`
	Imports   []string `json:",omitempty"`
	LinkingTo []string `json:",omitempty"`
	Suggests  []string `json:",omitempty"`
	Origin    string   // distinguishes equal versions with different content
	Size      int      `json:",omitempty"` // bytes of payload
	RepoField string   `json:",omitempty"` // Repository field of DESCRIPTION
	Odd       int      `json:",omitempty"` // peculiarities, see the odd constants
	Path      string   `json:",omitempty"` // Path field of the index entry
	RNeed     string   `json:",omitempty"` // constraints on R, e.g. ">= 3.5, < 9.0", or "any"
	Late      string   `json:",omitempty"` // content of the last file
	BinFor    string   `json:",omitempty"` // platform of a binary package
	Top       string   `json:",omitempty"` // another file at the top of the tarball
	Form      int      `json:",omitempty"` // of the tarball: 1 without entries for directories, 2 names begin with "./"
	Stored    bool     `json:",omitempty"` // the tarball is not compressed, so its size depends on the sizes of its files only
}

// Repo is one CRAN-like repository.
type Repo struct {
	Name     string
	URL      string
	Pkgs     []Pkg
	Local    bool   `json:",omitempty"` // URL is a directory of the disk
	BadCert  bool   `json:",omitempty"`
	Why      int    `json:",omitempty"`
	NoLength bool   `json:",omitempty"`
	Redirect string `json:",omitempty"`
	Slow     int64  `json:",omitempty"`
	CRLF     bool   `json:",omitempty"`
	// a repository with binary packages
	MPN    bool   `json:",omitempty"` // customized with RepoType: MPN
	Type   string `json:",omitempty"` // customized Type
	Suffix string `json:",omitempty"` // customized RepoSuffix
	Distro string `json:",omitempty"` // directory of the binaries of this system
	Bin    []Pkg  `json:",omitempty"`
	NoBin  bool   `json:",omitempty"` // there is no index of binaries
	// Mirrors are further URL prefixes that serve the same files.
	Mirrors []string `json:",omitempty"`
}

// Cust is one package customization.
type Cust struct {
	Name     string
	Env      map[string]string `json:",omitempty"`
	Repo     string            `json:",omitempty"`
	Suggests *bool             `json:",omitempty"`
	Type     string            `json:",omitempty"`
}

// Config is a pkgr.yml.
type Config struct {
	Packages      []string `json:",omitempty"`
	Ignore        []string `json:",omitempty"`
	Library       string
	Cache         string
	Threads       int      `json:",omitempty"`
	NoUpdate      bool     `json:",omitempty"`
	NoRollback    bool     `json:",omitempty"`
	NoSecure      bool     `json:",omitempty"`
	Strict        bool     `json:",omitempty"`
	NoRecommended bool     `json:",omitempty"`
	Suggests      bool     `json:",omitempty"`
	Tarballs      []string `json:",omitempty"`
	Descriptions  []string `json:",omitempty"`
	Cust          []Cust   `json:",omitempty"`
	Lock          string   `json:",omitempty"` // Lockfile type that defines Library, which is not in pkgr.yml then
	LockToo       string   `json:",omitempty"` // Lockfile type that Library overrides
	RPath         string   `json:",omitempty"`
	LogAll        string   `json:",omitempty"`
	LogInstall    string   `json:",omitempty"`
	LogOver       bool     `json:",omitempty"`
	Text          string   `json:",omitempty"` // literal pkgr.yml instead
	Extra         string   `json:",omitempty"` // appended lines
}

// Inst is a package that is in a library before the first step.
type Inst struct {
	Pkg
	Foreign bool `json:",omitempty"` // not installed by pkgr
	// what an earlier R left when it died: 1 an empty directory, 2 the code
	// only, 3 everything but the DESCRIPTION
	Left int `json:",omitempty"`
}

// Project is a directory with a pkgr.yml and a library.
type Project struct {
	Dir   string
	Cfg   Config
	Lib   []Inst `json:",omitempty"`
	NoLib bool   `json:",omitempty"` // the library does not exist yet
	Stray bool   `json:",omitempty"` // the library also holds things that are not packages
	Mode  uint32 `json:",omitempty"` // of pkgr.yml
	Link  bool   `json:",omitempty"` // pkgr.yml is a link to a file elsewhere
}

// World is everything outside pkgr.
type World struct {
	Repos    []Repo
	Projects []Project
	Tarballs map[string]Pkg    `json:",omitempty"` // disk path -> package
	Descs    map[string]Pkg    `json:",omitempty"`
	Files    map[string]string `json:",omitempty"`
	R        spec.R
	Mounts   []string `json:",omitempty"` // file systems of their own
	HTTPMin  int64
	HTTPMax  int64
	Chunk    int
}

// Mut changes the world between steps.
type Mut struct {
	Kind    string  // repo, url, config, rm, tarball, write, rversion, host
	Repo    int     `json:",omitempty"`
	RepoVal *Repo   `json:",omitempty"`
	Proj    int     `json:",omitempty"`
	Cfg     *Config `json:",omitempty"`
	Path    string  `json:",omitempty"`
	Pkg     *Pkg    `json:",omitempty"`
	Data    string  `json:",omitempty"`
	Keep    int     `json:",omitempty"` // of 1000 bytes
}

// Step is one invocation of pkgr.
type Step struct {
	Proj      int `json:",omitempty"`
	Args      []string
	Env       map[string]string `json:",omitempty"`
	Cwd       string            `json:",omitempty"` // instead of the project's directory
	NCPU      int
	Seed      uint64
	SchedSeed uint64
	Mode      uint32
	Limit     uint64       `json:",omitempty"`
	YieldP    uint32       `json:",omitempty"`
	EpochP    uint32       `json:",omitempty"`
	MapP      uint32       `json:",omitempty"`
	FSLatP    uint32       `json:",omitempty"`
	Advance   int64        `json:",omitempty"`
	Faults    []spec.Fault `json:",omitempty"`
	Mut       []Mut        `json:",omitempty"`
	With      *Step        `json:",omitempty"` // a second process, run while this one pauses
	Role      string       `json:",omitempty"` // what the property's oracle uses the step for
}

// Case is one simulated history: a pure function of itself and the code.
type Case struct {
	Property string
	World    World
	Steps    []Step
	Note     string `json:",omitempty"`
}

const epoch = int64(1730000000) * 1e9 // simulated clock at the start

var basePkgs = map[string]bool{"R": true, "base": true, "compiler": true, "datasets": true, "grDevices": true, "graphics": true,
	"grid": true, "methods": true, "parallel": true, "splines": true, "stats": true, "stats4": true, "tcltk": true, "tools": true, "utils": true}

var recommendedPkgs = map[string]bool{"MASS": true, "lattice": true, "Matrix": true, "nlme": true, "survival": true, "boot": true,
	"cluster": true, "codetools": true, "foreign": true, "KernSmooth": true, "class": true, "nnet": true, "rpart": true, "spatial": true, "mgcv": true}

// peculiarities of packages, all of them legal
const (
	oddFields    = 1 << iota // fields and text that look like the ones pkgr edits
	oddWrapped               // dependencies go over several lines
	oddLong                  // a line of 70 kB
	oddConfigure             // an executable configure script
	oddLatin                 // not only ASCII
	oddComma                 // lists of dependencies end in a comma, and have no blanks
)

func (p Pkg) file() string {
	if p.BinFor != "" {
		return p.Name + "_" + p.Version + "_R_" + p.BinFor + ".tar.gz"
	}
	return p.Name + "_" + p.Version + ".tar.gz"
}

func (p Pkg) depends() []string {
	d := append([]string{}, p.Depends...)
	if p.RNeed == "any" {
		return append([]string{"R"}, d...)
	}
	if p.RNeed != "" {
		for i, x := range strings.Split(p.RNeed, ", ") {
			d = append(d, "R ("+x+")")
			if i == 0 && len(d) > 1 && len(p.Name)%2 == 0 {
				d[0], d[len(d)-1] = d[len(d)-1], d[0]
			}
		}
	}
	return d
}

func (p Pkg) depField(b *strings.Builder, k string, v []string) {
	if len(v) > 0 && p.Odd&oddComma != 0 {
		fmt.Fprintf(b, "%s: %s,\n", k, strings.ReplaceAll(strings.Join(v, ","), " (", "("))
	} else if len(v) > 0 && p.Odd&oddWrapped != 0 {
		fmt.Fprintf(b, "%s:\n    %s\n", k, strings.Join(v, ",\n    "))
	} else if len(v) > 0 {
		fmt.Fprintf(b, "%s: %s\n", k, strings.Join(v, ", "))
	}
}

// description is the DESCRIPTION file in the source package.
func (p Pkg) description() string {
	var b strings.Builder
	fmt.Fprintf(&b, "Package: %s\nVersion: %s\nTitle: Package %s from %s\nDescription: Line one of %s,\n    continued here.\n", p.Name, p.Version, p.Name, p.Origin, p.Name)
	p.depField(&b, "Depends", p.depends())
	p.depField(&b, "Imports", p.Imports)
	p.depField(&b, "LinkingTo", p.LinkingTo)
	p.depField(&b, "Suggests", p.Suggests)
	b.WriteString("License: MIT\n")
	if p.Odd&oddFields != 0 {
		b.WriteString("RemoteRepository: https://elsewhere.sim/x\nNote: see Repository: and PkgrVersion: in\n    PkgrRepositoryURL: is pkgr's, Repository: is CRAN's\n")
	}
	if p.Odd&oddLong != 0 {
		b.WriteString("Collate: " + strings.Repeat("'x.R' ", 70000/6) + "\n")
	}
	if p.Odd&oddLatin != 0 {
		b.WriteString("Author: Jörg Müller ‘jm’\nEncoding: UTF-8\n")
	}
	if p.RepoField != "" {
		fmt.Fprintf(&b, "Repository: %s\n", p.RepoField)
	}
	b.WriteString("NeedsCompilation: no\n")
	return b.String()
}

// stanza is the package's entry in PACKAGES.
func (p Pkg) stanza() string {
	var b strings.Builder
	fmt.Fprintf(&b, "Package: %s\nVersion: %s\n", p.Name, p.Version)
	p.depField(&b, "Depends", p.depends())
	p.depField(&b, "Imports", p.Imports)
	p.depField(&b, "LinkingTo", p.LinkingTo)
	p.depField(&b, "Suggests", p.Suggests)
	b.WriteString("License: MIT\nNeedsCompilation: no\n")
	if p.Path != "" {
		fmt.Fprintf(&b, "Path: %s\n", p.Path)
	}
	return b.String()
}

type file struct{ name, data string }

// files are the contents of the source package.
func (p Pkg) files() []file {
	h := newRng(uint64(len(p.Name))*1e9 + hashString(p.Name+"|"+p.Version+"|"+p.Origin))
	pay := make([]byte, p.Size)
	for i := range pay {
		pay[i] = byte(h.U64())
	}
	fs := []file{
		{"DESCRIPTION", p.description()},
		{"NAMESPACE", "exportPattern(\"^[a-z]\")\n"},
		{"R/" + p.Name + ".R", fmt.Sprintf("id <- function() %q\n", p.Name+" "+p.Version+" "+p.Origin)},
		{"inst/data.bin", string(pay)},
	}
	if p.Odd&oddConfigure != 0 {
		fs = append(fs, file{"configure", "#!/bin/sh\n"})
	}
	if p.Late != "" {
		fs = append(fs, file{"inst/late.txt", p.Late + "\n"})
	}
	return fs
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// tarball is the package as a source tarball.
func (p Pkg) tarball() []byte {
	if p.BinFor != "" {
		return p.binary()
	}
	var buf bytes.Buffer
	level := gzip.DefaultCompression
	if p.Stored {
		level = gzip.NoCompression
	}
	zw, err := gzip.NewWriterLevel(&buf, level)
	must(err)
	tw := tar.NewWriter(zw)
	dot := ""
	if p.Form == 2 {
		dot = "./"
	}
	if p.Top != "" {
		tw.WriteHeader(&tar.Header{Name: dot + p.Top, Mode: 0o644, Size: 4, Typeflag: tar.TypeReg})
		tw.Write([]byte("top\n"))
	}
	if p.Form != 1 {
		tw.WriteHeader(&tar.Header{Name: dot + p.Name + "/", Mode: 0o755, Typeflag: tar.TypeDir})
		tw.WriteHeader(&tar.Header{Name: dot + p.Name + "/R/", Mode: 0o755, Typeflag: tar.TypeDir})
	}
	for _, f := range p.files() {
		mode := int64(0o644)
		if f.name == "configure" {
			mode = 0o755
		}
		tw.WriteHeader(&tar.Header{Name: dot + p.Name + "/" + f.name, Mode: mode, Size: int64(len(f.data)), Typeflag: tar.TypeReg})
		tw.Write([]byte(f.data))
	}
	tw.Close()
	zw.Close()
	return buf.Bytes()
}

const builtLine = "Built: R 4.3.3; ; 2024-03-01 00:00:00 UTC; unix\n"

// binary is the package as R CMD INSTALL --build makes it from the source.
func (p Pkg) binary() []byte {
	var buf bytes.Buffer
	zw := gzip.NewWriter(&buf)
	tw := tar.NewWriter(zw)
	m := p.installed()
	add := func(n string) {
		tw.WriteHeader(&tar.Header{Name: p.Name + "/" + n, Mode: 0o644, Size: int64(len(m[n])), Typeflag: tar.TypeReg})
		tw.Write([]byte(m[n]))
		delete(m, n)
	}
	for _, n := range sortedKeys(m) {
		if n == "configured.txt" || n == "Meta/package.rds" {
			continue
		}
		add(n)
		if _, ok := m["configured.txt"]; ok && n == "configure" {
			add("configured.txt")
		}
	}
	add("Meta/package.rds")
	tw.Close()
	zw.Close()
	return buf.Bytes()
}

// installed is what R leaves in a library, before pkgr's annotations.
func (p Pkg) installed() map[string]string {
	m := map[string]string{"Meta/package.rds": "complete\n"}
	for _, f := range p.files() {
		m[f.name] = f.data
	}
	m["DESCRIPTION"] += builtLine
	if p.Odd&oddConfigure != 0 {
		m["configured.txt"] = "yes\n"
	}
	return m
}

func (p Pkg) hardDeps() []string {
	var out []string
	for _, l := range [][]string{p.Depends, p.Imports, p.LinkingTo} {
		for _, d := range l {
			out = append(out, depName(d))
		}
	}
	return out
}

func depName(s string) string {
	if i := strings.IndexAny(s, " ("); i > 0 {
		return s[:i]
	}
	return s
}

func yamlList(b *strings.Builder, key string, v []string) {
	if len(v) == 0 {
		return
	}
	fmt.Fprintf(b, "%s:\n", key)
	for _, x := range v {
		fmt.Fprintf(b, "  - %s\n", x)
	}
}

func (c Config) yaml(repos []Repo) string {
	if c.Text != "" {
		return c.Text
	}
	var b strings.Builder
	b.WriteString("Version: 1\n")
	yamlList(&b, "Packages", c.Packages)
	b.WriteString("Repos:\n")
	for _, r := range repos {
		fmt.Fprintf(&b, "  - %s: %q\n", r.Name, r.URL)
	}
	if t := c.Lock + c.LockToo; t != "" {
		fmt.Fprintf(&b, "Lockfile:\n  Type: %s\n", t)
	}
	if c.Lock == "" {
		fmt.Fprintf(&b, "Library: %q\n", c.Library)
	}
	if c.RPath != "" {
		fmt.Fprintf(&b, "RPath: %q\n", c.RPath)
	}
	if c.LogAll != "" || c.LogInstall != "" {
		b.WriteString("Logging:\n")
		if c.LogAll != "" {
			fmt.Fprintf(&b, "  all: %q\n", c.LogAll)
		}
		if c.LogInstall != "" {
			fmt.Fprintf(&b, "  install: %q\n", c.LogInstall)
		}
		if c.LogOver {
			b.WriteString("  overwrite: true\n")
		}
	}
	if c.Cache != "" {
		fmt.Fprintf(&b, "Cache: %q\n", c.Cache)
	}
	if c.Threads != 0 {
		fmt.Fprintf(&b, "Threads: %d\n", c.Threads)
	}
	for _, f := range []struct {
		k string
		v bool
	}{{"NoUpdate", c.NoUpdate}, {"NoRollback", c.NoRollback}, {"NoSecure", c.NoSecure}, {"Strict", c.Strict}, {"NoRecommended", c.NoRecommended}, {"Suggests", c.Suggests}} {
		if f.v {
			fmt.Fprintf(&b, "%s: true\n", f.k)
		}
	}
	yamlList(&b, "IgnorePackages", c.Ignore)
	yamlList(&b, "Tarballs", c.Tarballs)
	yamlList(&b, "Descriptions", c.Descriptions)
	custom := false
	for _, r := range repos {
		if !r.MPN && r.Type == "" && r.Suffix == "" {
			continue
		}
		if !custom {
			b.WriteString("Customizations:\n  Repos:\n")
			custom = true
		}
		fmt.Fprintf(&b, "    - %s:\n", r.Name)
		if r.MPN {
			b.WriteString("        RepoType: MPN\n")
		}
		if r.Type != "" {
			fmt.Fprintf(&b, "        Type: %s\n", r.Type)
		}
		if r.Suffix != "" {
			fmt.Fprintf(&b, "        RepoSuffix: %s\n", r.Suffix)
		}
	}
	if len(c.Cust) > 0 {
		if !custom {
			b.WriteString("Customizations:\n")
		}
		b.WriteString("  Packages:\n")
		for _, x := range c.Cust {
			fmt.Fprintf(&b, "    - %s:\n", x.Name)
			if x.Repo != "" {
				fmt.Fprintf(&b, "        Repo: %s\n", x.Repo)
			}
			if x.Type != "" {
				fmt.Fprintf(&b, "        Type: %s\n", x.Type)
			}
			if x.Suggests != nil {
				fmt.Fprintf(&b, "        Suggests: %v\n", *x.Suggests)
			}
			if len(x.Env) > 0 {
				b.WriteString("        Env:\n")
				for _, k := range sortedKeys(x.Env) {
					fmt.Fprintf(&b, "          %s: %q\n", k, x.Env[k])
				}
			}
		}
	}
	b.WriteString(c.Extra)
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// annotated is DESCRIPTION after pkgr has recorded where a package came from.
func annotated(text, url, repo, typ string) string {
	var out []string
	for _, l := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
		if strings.HasPrefix(l, "Repository:") && strings.TrimSpace(strings.TrimPrefix(l, "Repository:")) != repo {
			out = append(out, "OriginalRepository: "+strings.TrimSpace(strings.TrimPrefix(l, "Repository:")))
			l = "Repository: " + repo
		}
		out = append(out, l)
	}
	out = append(out, "PkgrVersion: dev", "PkgrInstallType: "+typ, "PkgrRepositoryURL: "+url)
	return strings.Join(out, "\n") + "\n"
}

// osReleases are texts of /etc/os-release, by the directory that MPN has for
// the binaries of that system.
var osReleases = map[string]string{
	"ubuntu/jammy": `PRETTY_NAME="Ubuntu 22.04.3 LTS"
NAME="Ubuntu"
VERSION_ID="22.04"
VERSION="22.04.3 LTS (Jammy Jellyfish)"
VERSION_CODENAME=jammy
ID=ubuntu
ID_LIKE=debian
UBUNTU_CODENAME=jammy
`,
	"ubuntu/focal": `NAME="Ubuntu"
VERSION="20.04.6 LTS (Focal Fossa)"
ID=ubuntu
ID_LIKE=debian
VERSION_ID="20.04"
VERSION_CODENAME=focal
UBUNTU_CODENAME=focal
`,
	"centos/7": `NAME="CentOS Linux"
VERSION="7 (Core)"
ID="centos"
ID_LIKE="rhel fedora"
VERSION_ID="7"
`,
	"centos/8": `NAME="Red Hat Enterprise Linux"
VERSION="8.9 (Ootpa)"
ID="rhel"
ID_LIKE="fedora"
VERSION_ID="8.9"
`,
	"debian/12": `NAME="Debian GNU/Linux"
VERSION_ID="12"
VERSION="12 (bookworm)"
VERSION_CODENAME=bookworm
ID=debian
`,
}

// ---- putting the world on disk ----

type disk struct{ root string }

func (d disk) real(p string) string {
	if strings.HasPrefix(p, "/sim") {
		p = p[4:]
	}
	return filepath.Join(d.root, p)
}

func (d disk) write(p, data string) {
	r := d.real(p)
	must(os.MkdirAll(filepath.Dir(r), 0o755))
	must(os.WriteFile(r, []byte(data), 0o644))
	t := time.Unix(0, epoch-86400*1e9)
	must(os.Chtimes(r, t, t))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (p Project) path(rel string) string {
	if strings.HasPrefix(rel, "~/") {
		rel = "/sim/home/" + rel[2:]
	}
	if path.IsAbs(rel) {
		return path.Clean(rel)
	}
	return path.Join("/sim", p.Dir, rel)
}

func (p Project) lib() string { return p.path(p.Cfg.Library) }
func (p Project) cache() string {
	if p.Cfg.Cache == "" {
		return "/sim/home/.cache/pkgr"
	}
	return p.path(p.Cfg.Cache)
}

// r is the R executable of the project.
func (p Project) r() string {
	if p.Cfg.RPath == "" {
		return "/sim/bin/R"
	}
	return p.path(p.Cfg.RPath)
}
func (p Project) yml() string { return p.path("pkgr.yml") }

// ymlFile is where the configuration's text is.
func (p Project) ymlFile() string {
	if p.Link {
		return p.path("conf/real.yml")
	}
	return p.yml()
}

func splitURL(u string) (host, dir string) {
	u = strings.TrimPrefix(strings.TrimPrefix(u, "https://"), "http://")
	if i := strings.IndexByte(u, '/'); i >= 0 {
		return u[:i], strings.Trim(u[i:], "/")
	}
	return u, ""
}

func (d disk) putRepo(r Repo) {
	var bases []string
	if r.Local {
		bases = append(bases, r.URL)
	} else {
		for _, u := range append([]string{r.URL}, r.Mirrors...) {
			h, p := splitURL(u)
			bases = append(bases, path.Join("/sim/.srv", h, p))
		}
		if r.Redirect != "" {
			h, _ := splitURL(r.Redirect)
			_, p := splitURL(r.URL)
			bases = append(bases, path.Join("/sim/.srv", h, p))
		}
	}
	put := func(dir string, pkgs []Pkg) {
		var idx strings.Builder
		for i, p := range pkgs {
			if i > 0 {
				idx.WriteString("\n")
			}
			idx.WriteString(p.stanza())
		}
		text := idx.String()
		if r.CRLF {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		for _, p := range pkgs {
			d.write(path.Join(dir, p.Path, p.file()), string(p.tarball()))
		}
		d.write(path.Join(dir, "PACKAGES"), text)
	}
	for _, b := range bases {
		must(os.RemoveAll(d.real(b)))
		put(path.Join(b, "src/contrib"), r.Pkgs)
		if r.MPN && !r.NoBin {
			for _, v := range rMinors {
				put(path.Join(b, r.binDir(v)), r.Bin)
			}
		}
	}
}

// rMinors are the versions of R that repositories have binaries for.
var rMinors = []string{"4.1", "4.2", "4.3", "4.13"}

func minorOf(v string) string {
	p := strings.Split(v, ".")
	return p[0] + "." + p[1]
}

// binDir is where a repository has the binaries for a version of R.
func (r Repo) binDir(minor string) string {
	return path.Join("bin/linux", r.Distro, r.Suffix, "contrib", minor)
}

func (d disk) putInstalled(lib string, in Inst, url, repo string) {
	if in.Left == 1 {
		must(os.MkdirAll(d.real(path.Join(lib, in.Name)), 0o755))
		return
	}
	for n, data := range in.installed() {
		if in.Left > 0 && n == "DESCRIPTION" || in.Left == 2 && !strings.HasPrefix(n, "R/") {
			continue
		}
		if n == "DESCRIPTION" && !in.Foreign {
			data = annotated(data, url, repo, "source")
		}
		d.write(path.Join(lib, in.Name, n), data)
	}
}

func (d disk) putYml(p Project, text string) {
	d.write(p.ymlFile(), text)
	if p.Mode != 0 {
		must(os.Chmod(d.real(p.ymlFile()), os.FileMode(p.Mode)))
	}
	if p.Link {
		os.Remove(d.real(p.yml()))
		must(os.Symlink("conf/real.yml", d.real(p.yml())))
	}
}

// simPath is where the user's R is found, unless a step has its own PATH.
const simPath = "/sim/bin"

// exes are the R executables there are.
func (w *World) exes() map[string]bool {
	exes := map[string]bool{"/sim/bin/R": true, "/sim/opt/other/bin/R": true}
	for _, pr := range w.Projects {
		exes[pr.r()] = true
	}
	if w.R.Renv != "" {
		for _, x := range otherR {
			exes[w.proj().path(x)] = true
		}
	}
	return exes
}

func (d disk) put(w *World) {
	must(os.RemoveAll(d.root))
	for _, p := range []string{"/sim/bin", "/sim/home", "/sim/tmp", "/sim/rhome"} {
		must(os.MkdirAll(d.real(p), 0o755))
	}
	for _, x := range sortedKeys(w.exes()) {
		// another R beside it
		for _, x := range []string{x, path.Dir(x) + "/R"} {
			for _, x := range []string{x, x + "script"} {
				d.write(x, "#!/bin/false\n")
				must(os.Chmod(d.real(x), 0o755))
			}
		}
	}
	d.write("/sim/etc/os-release", osReleases["ubuntu/jammy"])
	for b := range basePkgs {
		if b == "R" {
			continue
		}
		for n, data := range (Pkg{Name: b, Version: "4.3.3", Origin: "R"}).installed() {
			d.write("/sim/rhome/"+b+"/"+n, data)
		}
	}
	for _, r := range w.Repos {
		d.putRepo(r)
	}
	for p, k := range w.Tarballs {
		d.write(p, string(k.tarball()))
	}
	for p, k := range w.Descs {
		d.write(p, k.description())
	}
	for p, s := range w.Files {
		d.write(p, s)
	}
	for _, pr := range w.Projects {
		d.putYml(pr, pr.Cfg.yaml(w.Repos))
		if pr.NoLib {
			continue
		}
		must(os.MkdirAll(d.real(pr.lib()), 0o755))
		for _, in := range pr.Lib {
			url, name := "http://old.sim/cran", "OLD"
			d.putInstalled(pr.lib(), in, url, name)
		}
		if pr.Stray {
			d.write(path.Join(pr.lib(), "README.txt"), "do not touch\n")
			d.write(path.Join(pr.lib(), "notapackage/data.txt"), "keep me\n")
		}
	}
}

// place finds the library that a Lockfile type means.
func (c *Config) place(r spec.R) {
	switch c.Lock {
	case "renv":
		c.Library = r.Renv
	case "packrat":
		c.Library = path.Join("packrat/lib", r.Platform, r.Version)
	}
}

// apply performs one mutation on the model and on disk.
func (w *World) apply(d disk, m Mut) {
	switch m.Kind {
	case "repo":
		old := w.Repos[m.Repo]
		w.Repos[m.Repo] = *m.RepoVal
		d.putRepo(*m.RepoVal)
		if n := m.RepoVal; old.URL != n.URL || old.Name != n.Name || old.Type != n.Type || old.Suffix != n.Suffix {
			for _, p := range w.Projects {
				d.putYml(p, p.Cfg.yaml(w.Repos))
			}
		}
	case "config":
		w.Projects[m.Proj].Cfg = *m.Cfg
		w.Projects[m.Proj].Cfg.place(w.R)
		d.putYml(w.Projects[m.Proj], m.Cfg.yaml(w.Repos))
	case "rm":
		g, err := filepath.Glob(d.real(m.Path))
		must(err)
		for _, p := range g {
			must(os.RemoveAll(p))
		}
	case "mkdir":
		must(os.MkdirAll(d.real(m.Path), 0o755))
	case "truncate":
		// the disk kept only a part of the files
		g, err := filepath.Glob(d.real(m.Path))
		must(err)
		for _, p := range g {
			fi, err := os.Stat(p)
			must(err)
			if fi.Mode().IsRegular() && fi.Size() > 0 {
				must(os.Truncate(p, fi.Size()*int64(m.Keep)/1000))
				must(os.Chtimes(p, fi.ModTime(), fi.ModTime()))
			}
		}
	case "tarball":
		w.Tarballs[m.Path] = *m.Pkg
		d.write(m.Path, string(m.Pkg.tarball()))
	case "write":
		d.write(m.Path, m.Data)
	case "rversion":
		w.R.Version = m.Data
		for i := range w.Projects {
			w.Projects[i].Cfg.place(w.R)
		}
	default:
		panic("mutation " + m.Kind)
	}
}

func (w World) clone() World {
	c := w
	c.Repos = append([]Repo{}, w.Repos...)
	c.Projects = append([]Project{}, w.Projects...)
	c.Tarballs = map[string]Pkg{}
	for k, v := range w.Tarballs {
		c.Tarballs[k] = v
	}
	return c
}

func (w *World) hosts() map[string]spec.Host {
	m := map[string]spec.Host{}
	for _, r := range w.Repos {
		if r.Local {
			continue
		}
		for _, u := range append([]string{r.URL}, r.Mirrors...) {
			h, _ := splitURL(u)
			m[h] = spec.Host{Dir: "/sim/.srv/" + h, BadCert: r.BadCert, Why: r.Why, NoLength: r.NoLength, Slow: r.Slow, Redirect: r.Redirect}
		}
		if r.Redirect != "" {
			h, _ := splitURL(r.Redirect)
			m[h] = spec.Host{Dir: "/sim/.srv/" + h, BadCert: r.BadCert, Why: r.Why, NoLength: r.NoLength, Slow: r.Slow}
			h, _ = splitURL(r.URL)
			x := m[h]
			x.BadCert = false
			m[h] = x
		}
	}
	return m
}

// cacheDir is the directory of a repository in the package cache.
func (r Repo) cacheDir() string {
	u := r.URL
	if r.Suffix != "" {
		u += " " + r.Suffix
	}
	return fmt.Sprintf("%s-%x", r.Name, md5.Sum([]byte(u)))[:len(r.Name)+1+12]
}

// marker is the name of a package only this repository has.
func (r Repo) marker() string {
	for _, p := range r.Pkgs {
		if strings.HasPrefix(p.Name, "zzmark") {
			return p.Name
		}
	}
	return ""
}
