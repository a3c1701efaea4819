package main

import (
	"path"
	"sort"
	"strings"

	spec "verifsim/spec"
)

// place says what a path of the simulated disk is.
func place(w *World, p string) string {
	for i := range w.Projects {
		pr := w.Projects[i]
		l := pr.lib()
		switch {
		case p == l:
			return "libtop"
		case inside(p, l):
			rel := p[len(l)+1:]
			top, rest, _ := strings.Cut(rel, "/")
			s := "lib"
			if strings.HasPrefix(top, backupPrefix) {
				s = "backup"
			} else if strings.HasPrefix(top, "__") || strings.HasPrefix(top, ".") {
				s = "libtmp"
			}
			if rest == "" {
				return s + "pkg"
			}
			if strings.HasPrefix(path.Base(rel), "DESCRIPTION") {
				return s + "desc"
			}
			return s + "file"
		case inside(p, dbDir):
			return "db"
		case inside(p, pr.cache()):
			if strings.Contains(p, "/src") {
				return "src"
			}
			if strings.Contains(p, "/binary") {
				return "bin"
			}
			if p == pr.cache() {
				return "cachetop"
			}
			return "unpack"
		case strings.HasPrefix(path.Base(p), "pkgr.yml"):
			return "yml"
		}
	}
	switch {
	case inside(p, "/sim/tmp"):
		return "tmp"
	case inside(p, "/sim/rhome"), inside(p, "/sim/bin"):
		return "r"
	case strings.HasPrefix(p, "/sim/mirror"):
		return "mirror"
	case strings.Contains(p, "tarballs"):
		return "tarball"
	}
	return "other"
}

// fsEvent is a file system call of a recorded run.
type fsEvent struct {
	idx, n    int
	op, place string
	path      string
}

func fsEvents(w *World, r *Res) []fsEvent {
	var out []fsEvent
	for _, e := range r.Ev {
		if e.Kind == "fs" {
			out = append(out, fsEvent{e.int(0), e.int(3), e.F[1], place(w, "/sim/"+e.F[2]), "/sim/" + e.F[2]})
		}
	}
	return out
}

// sample picks an event, giving each combination of operation and place the
// same weight.
func sample(r *Rng, ev []fsEvent, keep func(fsEvent) bool) *fsEvent {
	strata := map[string][]int{}
	for i, e := range ev {
		if keep == nil || keep(e) {
			k := e.op + " " + e.place
			strata[k] = append(strata[k], i)
		}
	}
	if len(strata) == 0 {
		return nil
	}
	k := pick(r, sortedKeys(strata))
	return &ev[pick(r, strata[k])]
}

var errnoFor = map[string][]string{
	"open": {"EIO", "EACCES", "EMFILE", "ESTALE"}, "opendir": {"EIO", "EACCES", "EMFILE"},
	"create": {"ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT"}, "openw": {"ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT"},
	"write": {"ENOSPC", "EIO", "EDQUOT"}, "pwrite": {"ENOSPC", "EIO"}, "read": {"EIO"}, "pread": {"EIO"}, "getdents": {"EIO"},
	"mkdir": {"ENOSPC", "EACCES", "EROFS", "EDQUOT"}, "rename": {"EIO", "EACCES", "EBUSY", "ENOSPC", "EXDEV"},
	"unlink": {"EACCES", "EBUSY", "EIO", "EROFS"}, "rmdir": {"EACCES", "EBUSY", "EIO"}, "stat": {"EIO", "EACCES"}, "lstat": {"EIO", "EACCES"},
	"chmod": {"EPERM", "EROFS"}, "fchmod": {"EPERM"}, "ftruncate": {"EIO"}, "truncate": {"EIO"}, "chtimes": {"EPERM"},
	"fsync": {"EIO"}, "fdatasync": {"EIO"}, "symlink": {"EACCES"}, "link": {"EACCES"}, "close": {"EIO"}, "readlink": {"EIO"}, "fstat": {"EIO"},
}

// statish operations get errors rarely.
func faultable(e fsEvent) bool {
	return errnoFor[e.op] != nil && e.place != "r" && e.op != "close" && e.op != "fstat"
}

var writeOps = map[string]bool{"create": true, "openw": true, "write": true, "pwrite": true, "mkdir": true, "rename": true, "unlink": true, "rmdir": true,
	"chmod": true, "fchmod": true, "truncate": true, "ftruncate": true, "symlink": true, "link": true, "fsync": true, "chtimes": true}

func writing(e fsEvent) bool { return writeOps[e.op] }

// errFault is a disk error at an event.
func errFault(r *Rng, e *fsEvent) spec.Fault {
	f := spec.Fault{Kind: "fs", Act: "errno", At: e.idx, Op: e.op, Path: e.path, Errno: pick(r, errnoFor[e.op])}
	switch {
	case e.op == "write" && r.P(1, 3):
		f.Act, f.Errno, f.N, f.Count = "full", "", r.N(e.n+1), 0
		if r.P(1, 2) {
			f.Count = r.In(1, 40)
		}
	case (e.op == "create" || e.op == "mkdir") && r.P(1, 4):
		f.Act, f.Errno = "full", ""
		if r.P(1, 2) {
			f.Count = r.In(1, 40)
		}
	}
	return f
}

// crashFault kills pkgr at an event.
func crashFault(r *Rng, e *fsEvent) spec.Fault {
	f := spec.Fault{Kind: "fs", Act: pick(r, []string{"crash", "crashafter"}), At: e.idx, Op: e.op, Path: e.path}
	if e.op == "write" && e.n > 1 && r.P(1, 2) {
		f.Act, f.N = "torn", r.N(e.n)
	}
	return f
}

// requests lists the URLs fetched in a run.
func requests(res *Res) []string {
	var out []string
	for _, e := range res.Ev {
		if e.Kind == "http+" && e.F[1] == "0" {
			out = append(out, e.F[2])
		}
	}
	sort.Strings(out)
	return out
}

func isIndex(u string) bool { return strings.HasSuffix(u, "/PACKAGES") }

func httpFault(r *Rng, u string) spec.Fault {
	f := spec.Fault{Kind: "http", URL: u}
	switch r.N(9) {
	case 0, 1:
		f.Act, f.Code = "status", pick(r, []int{404, 404, 403, 403, 500, 502, 503, 429, 202, 204, 206, 206})
		if isIndex(u) && r.P(1, 3) {
			f.Code = pick(r, []int{202, 204, 206})
		}
	case 2:
		f.Act = "refuse"
	case 3:
		f.Act = "timeout"
	case 4, 5:
		f.Act, f.N = "reset", pick(r, []int{0, 1, 100, 300, r.N(900)})
	case 6:
		f.Act, f.N = "trunc", pick(r, []int{0, 50, 200, r.N(900)})
	case 7:
		f.Act, f.N = "readtimeout", r.N(700)
	case 8:
		f.Act, f.N, f.Code = "bodystall", r.N(300), r.In(1, 120)
	}
	return f
}

// cmdProcs lists the build and install processes of a run.
func cmdProcs(res *Res) []*rproc {
	var out []*rproc
	seen := map[string]int{}
	for _, e := range res.Ev {
		if e.Kind == "R+" && (e.F[1] == "build" || e.F[1] == "install") {
			k := e.F[1] + e.F[2]
			out = append(out, &rproc{phase: e.F[1], pkg: e.F[2], id: seen[k]})
			seen[k]++
		}
	}
	return out
}

func rFault(r *Rng, p *rproc) spec.Fault {
	f := spec.Fault{Kind: "r", Phase: p.phase, Pkg: p.pkg, Nth: p.id, Code: 1}
	acts := []string{"exit", "kill", "spawn", "partial"}
	if p.phase == "build" {
		acts = []string{"exit", "exit", "kill", "spawn", "partial", "nobuild"}
	}
	f.Act = pick(r, acts)
	if f.Act == "partial" {
		f.N = r.N(3) // DESCRIPTION only, an empty directory, everything else
	}
	return f
}
