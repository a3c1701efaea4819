package pkgrsim

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	spec "github.com/metrumresearchgroup/pkgr/internal/pkgrsimspec"
)

var (
	procSeq  int
	rCount   = map[string]int{}
	children = map[int]*child{}
)

type child struct {
	id     int
	phase  string
	pkg    string
	argv   []string
	env    []string
	dir    string
	stdout io.Writer
	stderr io.Writer
	fault  *spec.Fault
	finish func() // completes the visible effect at once (pkgr died, the child did not)
	status syscall.WaitStatus
	done   chan struct{}
}

func exited(code int) syscall.WaitStatus { return syscall.WaitStatus(code << 8) }

func (c *child) getenv(k string) string {
	v := ""
	for _, e := range c.env {
		if strings.HasPrefix(e, k+"=") {
			v = e[len(k)+1:]
		}
	}
	return v
}

// startProcess stands in for fork+exec.
func startProcess(c *exec.Cmd, path string, env []string) (func() syscall.WaitStatus, error) {
	base := filepath.Base(path)
	// R may have another name, such as R-4.3, with its R-4.3script beside it
	if base != "R" && base != "Rscript" && !strings.HasPrefix(base, "R-") {
		emit("exec", "unknown", path, strings.Join(c.Args, " "))
		return nil, &os.PathError{Op: "fork/exec", Path: path, Err: syscall.ENOENT}
	}
	var statErr error
	quietly(func() { _, statErr = os.Stat(path) })
	if statErr != nil {
		return nil, &os.PathError{Op: "fork/exec", Path: path, Err: syscall.ENOENT}
	}
	ch := &child{id: procSeq, argv: c.Args, env: env, dir: c.Dir, stdout: c.Stdout, stderr: c.Stderr, done: make(chan struct{})}
	procSeq++
	if ch.dir == "" {
		ch.dir, _ = syscall.Getwd()
	}
	if ch.stdout == nil {
		ch.stdout = io.Discard
	}
	if ch.stderr == nil {
		ch.stderr = io.Discard
	}
	ch.classify(base)
	key := ch.phase + " " + ch.pkg
	runtime.SimNoYield(1)
	nth := rCount[key]
	rCount[key] = nth + 1
	runtime.SimNoYield(-1)
	for i := range sp.Faults {
		f := &sp.Faults[i]
		if f.Kind == "r" && f.Phase == ch.phase && f.Pkg == ch.pkg && f.Nth == nth {
			ch.fault = f
			emit("fault", "r", f.Act, f.Phase, f.Pkg, itoa(f.Nth), itoa(f.Code))
		}
	}
	args, _ := json.Marshal(ch.argv[1:])
	envj, _ := json.Marshal(env)
	if ch.fault != nil && ch.fault.Act == "spawn" {
		emit("Rx", itoa(ch.id), ch.phase, ch.pkg)
		return nil, &os.PathError{Op: "fork/exec", Path: path, Err: syscall.EAGAIN}
	}
	runtime.SimNoYield(1)
	children[ch.id] = ch
	runtime.SimNoYield(-1)
	emit("R+", itoa(ch.id), ch.phase, ch.pkg, path, ch.dir, string(args), string(envj))
	go func() {
		ch.run()
		runtime.SimNoYield(1)
		delete(children, ch.id)
		runtime.SimNoYield(-1)
		emit("R-", itoa(ch.id), ch.phase, ch.pkg, itoa(int(ch.status)))
		close(ch.done)
	}()
	return func() syscall.WaitStatus { <-ch.done; return ch.status }, nil
}

func (c *child) classify(base string) {
	a := c.argv[1:]
	has := func(s string) bool {
		for _, x := range a {
			if x == s {
				return true
			}
		}
		return false
	}
	expr := ""
	for i := range a {
		if a[i] == "-e" && i+1 < len(a) {
			expr = a[i+1]
		}
	}
	quoted := func() string {
		p := strings.SplitN(expr, "'", 3)
		if len(p) == 3 {
			return p[1]
		}
		return ""
	}
	switch {
	case strings.HasSuffix(base, "script"):
		c.phase = "renv"
	case has("--version"):
		c.phase = "version"
	case has("INSTALL"):
		c.phase = "install"
		if has("--build") {
			c.phase = "build"
		}
		c.pkg = pkgOfPath(a[len(a)-1])
	case strings.HasPrefix(expr, ".libPaths"):
		c.phase = "libpaths"
	case strings.HasPrefix(expr, "library("):
		c.phase, c.pkg = "load", quoted()
	case strings.HasPrefix(expr, "find.package("):
		c.phase, c.pkg = "info", quoted()
	default:
		c.phase = "run"
	}
}

func pkgOfPath(p string) string {
	b := filepath.Base(p)
	if i := strings.IndexByte(b, '_'); i > 0 {
		return b[:i]
	}
	return b
}

func (c *child) sleep(frac int64) {
	d, ok := sp.R.Dur[c.pkg]
	if !ok {
		d = between(sp.R.DurMin, sp.R.DurMax)
	}
	if c.phase != "build" && c.phase != "install" {
		d /= 10
	}
	if c.fault != nil && c.fault.Act == "slow" {
		d += int64(c.fault.N)
	}
	time.Sleep(time.Duration(d * frac / 100))
}

func (c *child) run() {
	c.sleep(30)
	switch c.phase {
	case "version":
		fmt.Fprintf(c.stdout, "R version %s (2024-02-29) -- \"Angel Food Cake\"\nCopyright (C) 2024 The R Foundation for Statistical Computing\nPlatform: %s (64-bit)\n\nR is free software and comes with ABSOLUTELY NO WARRANTY.\n", sp.R.Version, sp.R.Platform)
		c.exit(0)
	case "renv":
		if sp.R.Renv == "" {
			fmt.Fprintf(c.stderr, "Error in loadNamespace(x) : there is no package called ‘renv’\n")
			c.exit(1)
			return
		}
		lib := sp.R.Renv
		if !filepath.IsAbs(lib) {
			lib = filepath.Join(c.dir, lib)
		}
		out := "- Project '" + c.dir + "' loaded. [renv 1.0.7]\n\n_pkgr_" + lib + "_pkgr_\n"
		if c.fault != nil && c.fault.Act == "short" {
			out = out[:len(out)*c.fault.N/100]
		}
		fmt.Fprintf(c.stderr, "Warning message:\n_pkgr_ is no project setting\n")
		fmt.Fprint(c.stdout, out)
		c.exit(0)
	case "libpaths":
		for i, l := range c.libs("") {
			fmt.Fprintf(c.stdout, "[%d] %q\n", i+1, l)
		}
		c.exit(0)
	case "load":
		var why string
		quietly(func() { why = c.loadable(c.pkg, map[string]bool{}) })
		c.sleep(70)
		if why != "" {
			fmt.Fprintf(c.stderr, "Error in library(\"%s\") : %s\nExecution halted\n", c.pkg, why)
			c.exit(1)
			return
		}
		// many packages have something to say
		say := 0
		for _, x := range []byte(c.pkg) {
			say += int(x)
		}
		switch say % 4 {
		case 0:
			fmt.Fprintf(c.stderr, "\nAttaching package: ‘%s’\n\nThe following object is masked from ‘package:stats’:\n\n    filter, lag\n\nThe following objects are masked from ‘package:base’:\n\n    intersect, setdiff\n\n", c.pkg)
		case 1:
			fmt.Fprintf(c.stderr, "Warning message:\npackage ‘%s’ was built under R version 4.4.0 \n", c.pkg)
		case 2:
			fmt.Fprintf(c.stdout, "Welcome to %s. Error handling has changed!\n", c.pkg)
		}
		c.exit(0)
	case "info":
		var p, v string
		quietly(func() { p, v = c.find(c.pkg) })
		if p == "" {
			fmt.Fprintf(c.stderr, "Error in find.package(\"%s\") : there is no package called ‘%s’\nExecution halted\n", c.pkg, c.pkg)
			c.exit(1)
			return
		}
		fmt.Fprintf(c.stdout, "[1] %q\n[1] %q\n", p, v)
		c.exit(0)
	case "install", "build":
		c.install()
	default:
		c.exit(0)
	}
}

// exit ends the child, letting an injected fault replace its own status.
func (c *child) exit(code int) {
	if f := c.fault; f != nil {
		switch f.Act {
		case "exit":
			code = f.Code
			if code == 0 {
				code = 1
			}
			fmt.Fprintf(c.stderr, "Error: injected failure\n")
		case "kill":
			c.status = syscall.WaitStatus(9)
			return
		}
	}
	c.status = exited(code)
}

// libs is the library search path of this R process.
func (c *child) libs(lib string) []string {
	var out []string
	add := func(s string) {
		for _, p := range strings.Split(s, ":") {
			if p == "" {
				continue
			}
			if !filepath.IsAbs(p) {
				p = filepath.Join(c.dir, p)
			}
			if fi, err := os.Stat(p); err == nil && fi.IsDir() {
				out = append(out, p)
			}
		}
	}
	quietly(func() {
		add(lib)
		add(c.getenv("R_LIBS"))
		if c.phase == "load" || c.phase == "info" || c.phase == "libpaths" {
			add(strings.Join(sp.R.Extra, ":"))
		}
		add(c.getenv("R_LIBS_USER"))
		add(c.getenv("R_LIBS_SITE"))
		add(sp.R.Home)
	})
	return out
}

func (c *child) find(pkg string) (string, string) {
	for _, l := range c.libs("") {
		d := ReadDCF(filepath.Join(l, pkg, "DESCRIPTION"))
		if d["Package"] == pkg && complete(filepath.Join(l, pkg)) {
			return filepath.Join(l, pkg), d["Version"]
		}
	}
	return "", ""
}

func (c *child) loadable(pkg string, seen map[string]bool) string {
	if seen[pkg] {
		return ""
	}
	seen[pkg] = true
	p, _ := c.find(pkg)
	if p == "" {
		return fmt.Sprintf("there is no package called ‘%s’", pkg)
	}
	if sp.R.LoadFail[pkg] {
		return fmt.Sprintf("package or namespace load failed for ‘%s’", pkg)
	}
	for _, d := range HardDeps(ReadDCF(filepath.Join(p, "DESCRIPTION"))) {
		if why := c.loadable(d, seen); why != "" {
			return fmt.Sprintf("package or namespace load failed for ‘%s’: %s", pkg, why)
		}
	}
	return ""
}

// complete says whether an installed package directory has everything R wrote.
func complete(dir string) bool {
	_, err := os.Stat(filepath.Join(dir, "Meta", "package.rds"))
	return err == nil
}

// ReadDCF reads the fields of a DESCRIPTION file.
func ReadDCF(path string) map[string]string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	return parseDCF(b)
}

func parseDCF(b []byte) map[string]string {
	m := map[string]string{}
	last := ""
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		if l[0] == ' ' || l[0] == '\t' {
			m[last] += " " + strings.TrimSpace(l)
			continue
		}
		if i := strings.IndexByte(l, ':'); i > 0 {
			last = l[:i]
			m[last] = strings.TrimSpace(l[i+1:])
		}
	}
	return m
}

// HardDeps lists the packages named in Depends, Imports and LinkingTo.
func HardDeps(d map[string]string) []string {
	var out []string
	for _, k := range []string{"Depends", "Imports", "LinkingTo"} {
		for _, e := range strings.Split(d[k], ",") {
			e = strings.TrimSpace(e)
			if i := strings.IndexAny(e, " ("); i > 0 {
				e = e[:i]
			}
			if e != "" && e != "R" {
				out = append(out, e)
			}
		}
	}
	return out
}

type pkgFile struct {
	name string
	data []byte
	exec bool
}

// readPackage loads a package from a tarball or a source directory.
func readPackage(path string) (pkg string, files []pkgFile, err error) {
	fi, err := os.Stat(path)
	if err != nil {
		return "", nil, err
	}
	if fi.IsDir() {
		err = filepath.Walk(path, func(p string, i os.FileInfo, e error) error {
			if e != nil || i.IsDir() {
				return e
			}
			b, e := os.ReadFile(p)
			if e != nil {
				return e
			}
			r, _ := filepath.Rel(path, p)
			files = append(files, pkgFile{r, b, i.Mode()&0o100 != 0})
			return nil
		})
	} else {
		var b []byte
		if b, err = os.ReadFile(path); err != nil {
			return "", nil, err
		}
		zr, e := gzip.NewReader(bytes.NewReader(b))
		if e != nil {
			return "", nil, e
		}
		tr := tar.NewReader(zr)
		for {
			h, e := tr.Next()
			if e == io.EOF {
				break
			}
			if e != nil {
				return "", nil, e
			}
			if h.Typeflag != tar.TypeReg {
				continue
			}
			d, e := io.ReadAll(tr)
			if e != nil {
				return "", nil, e
			}
			n := h.Name
			if i := strings.IndexByte(n, '/'); i >= 0 {
				n = n[i+1:]
			}
			files = append(files, pkgFile{n, d, h.Mode&0o100 != 0})
		}
		if _, e := io.Copy(io.Discard, zr); e != nil {
			return "", nil, e
		}
	}
	if err != nil {
		return "", nil, err
	}
	sort.Slice(files, func(i, j int) bool { return files[i].name < files[j].name })
	for _, f := range files {
		if f.name == "DESCRIPTION" {
			return parseDCF(f.data)["Package"], files, nil
		}
	}
	return "", nil, fmt.Errorf("no DESCRIPTION in %s", path)
}

func (c *child) fail(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	emit("Rerr", itoa(c.id), c.phase, c.pkg, msg)
	fmt.Fprintf(c.stderr, "ERROR: %s\n* removing ‘%s’\n", msg, c.pkg)
	c.exit(1)
}

// install models R CMD INSTALL with staged installation.
func (c *child) install() {
	a := c.argv[1:]
	path := a[len(a)-1]
	lib := ""
	for _, x := range a {
		if strings.HasPrefix(x, "--library=") {
			lib = strings.TrimPrefix(x, "--library=")
		}
	}
	if !filepath.IsAbs(path) {
		path = filepath.Join(c.dir, path)
	}
	if lib == "" {
		lib = sp.R.Home
	}
	if !filepath.IsAbs(lib) {
		lib = filepath.Join(c.dir, lib)
	}
	var pkg string
	var files []pkgFile
	var err error
	quietly(func() { pkg, files, err = readPackage(path) })
	if err != nil {
		c.fail("cannot extract package from %s: %v", path, err)
		return
	}
	dcf := map[string]string{}
	for _, f := range files {
		if f.name == "DESCRIPTION" {
			dcf = parseDCF(f.data)
		}
	}
	binary := dcf["Built"] != ""
	kind := "source"
	if binary {
		kind = "binary"
	}
	fmt.Fprintf(c.stderr, "* installing *%s* package ‘%s’ ...\n", kind, pkg)
	missing := func() string {
		m := ""
		quietly(func() {
			for _, d := range HardDeps(dcf) {
				ok := false
				for _, l := range c.libs(lib) {
					if ReadDCF(filepath.Join(l, d, "DESCRIPTION"))["Package"] == d && complete(filepath.Join(l, d)) {
						ok = true
						break
					}
				}
				if !ok {
					m = d
				}
			}
		})
		return m
	}
	if !binary {
		if m := missing(); m != "" {
			c.fail("dependency ‘%s’ is not available for package ‘%s’", m, pkg)
			return
		}
	}
	var libErr error
	quietly(func() {
		fi, err := os.Stat(lib)
		if err != nil || !fi.IsDir() {
			libErr = fmt.Errorf("no such directory")
		}
	})
	if libErr != nil {
		c.fail("installation directory ‘%s’: %v", lib, libErr)
		return
	}
	effect := func() error {
		var e error
		quietly(func() { e = putPackage(lib, pkg, files, binary) })
		return e
	}
	willFail := c.fault != nil && (c.fault.Act == "exit" || c.fault.Act == "kill" || c.fault.Act == "partial")
	if !willFail {
		c.finish = func() { effect() }
	}
	c.sleep(60)
	if !binary {
		if m := missing(); m != "" {
			c.fail("lazy loading failed for package ‘%s’: there is no package called ‘%s’", pkg, m)
			return
		}
	}
	if c.fault != nil {
		switch c.fault.Act {
		case "partial":
			// the process dies half way through writing the package
			quietly(func() {
				d := filepath.Join(lib, pkg)
				os.RemoveAll(d)
				os.MkdirAll(d, 0o755)
				for _, f := range files {
					if n := c.fault.N; n == 0 && f.name == "DESCRIPTION" || n == 2 && !strings.HasPrefix(f.name, "Meta/") && f.name != "DESCRIPTION" {
						os.MkdirAll(filepath.Dir(filepath.Join(d, f.name)), 0o755)
						os.WriteFile(filepath.Join(d, f.name), f.data, 0o644)
					}
				}
			})
			c.status = syscall.WaitStatus(9)
			return
		case "exit", "kill":
			c.exit(1)
			return
		}
	}
	c.finish = nil
	if err := effect(); err != nil {
		c.fail("cannot write ‘%s’: %v", filepath.Join(lib, pkg), err)
		return
	}
	emit("Rplaced", itoa(c.id), c.phase, pkg, lib, dcf["Version"])
	if c.phase == "build" && !(c.fault != nil && c.fault.Act == "nobuild") {
		c.sleep(10)
		quietly(func() {
			err = writeBinary(filepath.Join(c.dir, fmt.Sprintf("%s_%s_R_%s.tar.gz", pkg, dcf["Version"], sp.R.Platform)), pkg, files, binary)
		})
		if err != nil {
			c.fail("cannot build binary package: %v", err)
			return
		}
	}
	fmt.Fprintf(c.stderr, "* DONE (%s)\n", pkg)
	c.exit(0)
}

const builtLine = "Built: R 4.3.3; ; 2024-03-01 00:00:00 UTC; unix\n"

func installed(files []pkgFile, binary bool) []pkgFile {
	if binary {
		return files
	}
	var out []pkgFile
	for _, f := range files {
		if f.name == "DESCRIPTION" {
			d := append([]byte{}, f.data...)
			if len(d) > 0 && d[len(d)-1] != '\n' {
				d = append(d, '\n')
			}
			f.data = append(d, builtLine...)
		}
		out = append(out, f)
		if f.name == "configure" && f.exec {
			out = append(out, pkgFile{"configured.txt", []byte("yes\n"), false})
		}
	}
	return append(out, pkgFile{"Meta/package.rds", []byte("complete\n"), false})
}

func putPackage(lib, pkg string, files []pkgFile, binary bool) error {
	tmp := filepath.Join(lib, "00LOCK-"+pkg)
	os.RemoveAll(tmp)
	for _, f := range installed(files, binary) {
		p := filepath.Join(tmp, f.name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			os.RemoveAll(tmp)
			return err
		}
		if err := os.WriteFile(p, f.data, 0o644); err != nil {
			os.RemoveAll(tmp)
			return err
		}
	}
	d := filepath.Join(lib, pkg)
	if err := os.RemoveAll(d); err != nil {
		return err
	}
	return os.Rename(tmp, d)
}

func writeBinary(path, pkg string, files []pkgFile, binary bool) error {
	var buf bytes.Buffer
	zw := gzip.NewWriter(&buf)
	tw := tar.NewWriter(zw)
	for _, f := range installed(files, binary) {
		tw.WriteHeader(&tar.Header{Name: pkg + "/" + f.name, Mode: 0o644, Size: int64(len(f.data)), Typeflag: tar.TypeReg})
		tw.Write(f.data)
	}
	tw.Close()
	zw.Close()
	return os.WriteFile(path, buf.Bytes(), 0o644)
}

// childrenAtCrash decides what becomes of the R processes still running when
// pkgr dies.
func childrenAtCrash() {
	if !sp.R.Survive {
		return
	}
	var ids []int
	for id := range children {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if f := children[id].finish; f != nil {
			f()
		}
	}
}
