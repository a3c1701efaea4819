package pkgrsim

import (
	"encoding/json"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	spec "github.com/metrumresearchgroup/pkgr/internal/pkgrsimspec"
)

var (
	covDir  string // coverage data, while developing
	sp      spec.Spec
	hooksOn bool
	bypass  int // >0 while simulated components touch the disk
	fsCount int // file system calls on the simulated disk so far
	fdPath  [4096]string
	fdWrote [4096]bool
	rng     uint64
	fullTo  int // disk is full until this call index
	started int64
)

// rnd is the simulator's own stream: latencies and durations.
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func between(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + int64(rnd()%uint64(hi-lo+1))
}

func init() {
	p := os.Getenv("PKGRSIM_SPEC")
	covDir = os.Getenv("GOCOVERDIR")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err != nil {
		panic("pkgrsim: " + err.Error())
	}
	if err := json.Unmarshal(b, &sp); err != nil {
		panic("pkgrsim: " + err.Error())
	}
	for _, k := range []string{"PKGRSIM_SPEC", "PKGRSIM_SEED", "PKGRSIM_SCHEDSEED", "PKGRSIM_NOW", "PKGRSIM_NCPU", "PKGRSIM_DISK"} {
		os.Unsetenv(k)
	}
	rng = sp.Seed * 0x9e3779b97f4a7c15
	started = runtime.SimNow()
	syscall.SimPid = 1000 + int(sp.Seed%30000)
	http.SimRoundTrip = roundTrip
	exec.SimStart = startProcess
	syscall.SimPre = pre
	syscall.SimPost = post
	syscall.SimRand = dirRand
	runtime.SimConfig(sp.Mode, sp.Limit, sp.YieldP, sp.EpochP, sp.MapP, sp.StepLimit)
	if sp.TimeLimit > 0 {
		go func() {
			time.Sleep(time.Duration(sp.TimeLimit))
			emit("stuck", "simulated time limit")
			rawWrite(2, []byte("PKGRSIM: simulated time limit reached (no progress)\n"))
			syscall.Exit(98)
		}()
	}
	hooksOn = true
}

// quietly runs f on the real disk: no hooks, no faults, no scheduling.
func quietly(f func()) {
	bypass++
	runtime.SimNoYield(1)
	f()
	runtime.SimNoYield(-1)
	bypass--
}

func under(p string) bool {
	return p == sp.Root || (len(p) > len(sp.Root) && p[:len(sp.Root)] == sp.Root && p[len(sp.Root)] == '/')
}

func resolve(dirfd int, p string) string {
	if strings.HasPrefix(p, "/") {
		return filepath.Clean(p)
	}
	if dirfd >= 0 && dirfd < len(fdPath) && fdPath[dirfd] != "" {
		return filepath.Join(fdPath[dirfd], p)
	}
	if dirfd >= 0 {
		return ""
	}
	var wd string
	bypass++
	wd, _ = syscall.Getwd()
	bypass--
	return filepath.Join(wd, p)
}

func rel(p string) string {
	if len(p) > len(sp.Root) && strings.HasPrefix(p, sp.Root) {
		return p[len(sp.Root)+1:]
	}
	return p
}

// opName is what one call looks like in the trace.
func opName(o *syscall.SimOp) string {
	if o.Op == "open" {
		switch {
		case o.Flags&syscall.O_TRUNC != 0:
			return "create"
		case o.Flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT) != 0:
			return "openw"
		case o.Flags&syscall.O_DIRECTORY != 0:
			return "opendir"
		}
	}
	return o.Op
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EPERM": syscall.EPERM,
	"EMFILE": syscall.EMFILE, "EXDEV": syscall.EXDEV, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT,
	"EBUSY": syscall.EBUSY, "ENOTEMPTY": syscall.ENOTEMPTY, "EAGAIN": syscall.EAGAIN, "ESTALE": syscall.ESTALE,
}

func crash(why string) {
	emit("crash", why)
	quietly(childrenAtCrash)
	syscall.Exit(137)
}

func writes(op string) bool {
	switch op {
	case "write", "pwrite", "create", "openw", "mkdir", "symlink", "link":
		return true
	}
	return false
}

func mutates(op string) bool {
	switch op {
	case "create", "openw", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "truncate", "chmod":
		return true
	}
	return false
}

// pre runs in front of every file system call.
func pre(o *syscall.SimOp) {
	if !hooksOn || bypass > 0 {
		return
	}
	switch o.Op {
	case "read", "write", "pread", "pwrite", "close", "getdents", "fstat", "ftruncate", "fchmod", "fsync", "fdatasync":
		if o.Fd < 0 || o.Fd >= len(fdPath) || fdPath[o.Fd] == "" {
			return
		}
		o.Path = fdPath[o.Fd]
	default:
		o.Path = resolve(o.Dirfd, o.Path)
		if o.Op == "rename" {
			o.Path2 = resolve(o.Dirfd2, o.Path2)
		}
		if !under(o.Path) || o.Op == "rename" && !under(o.Path2) {
			if covDir != "" && strings.HasPrefix(o.Path, covDir) {
				o.Path = ""
				return
			}
			if mutates(opName(o)) && o.Path != "/dev/null" {
				// nothing outside the simulated disk can be touched
				emit("escape", opName(o), o.Path, o.Path2)
				o.Err = syscall.EACCES
			}
			o.Path = ""
			return
		}
	}
	// latency, and a scheduling point
	if sp.FSLatP > 0 && uint32(rnd()&1023) < sp.FSLatP {
		time.Sleep(time.Duration(between(1e4, 3e6)))
	} else {
		runtime.SimYield()
	}
	idx := fsCount
	fsCount++
	o.Idx = idx + 1
	name := opName(o)
	if name == "rename" && device(o.Path) != device(o.Path2) {
		o.Err = syscall.EXDEV
		return
	}
	if fullTo != 0 && (fullTo < 0 || idx < fullTo) && writes(name) {
		emit("fault", "fs", "full", itoa(idx), name, rel(o.Path))
		o.Err = syscall.ENOSPC
		return
	}
	for i := range sp.Faults {
		f := &sp.Faults[i]
		if f.Kind != "fs" || f.At != idx {
			continue
		}
		emit("fault", "fs", f.Act, itoa(idx), name, rel(o.Path), f.Errno)
		switch f.Act {
		case "errno":
			o.Err = errnos[f.Errno]
			if o.Err == 0 {
				o.Err = syscall.EIO
			}
		case "full":
			fullTo = -1
			if f.Count > 0 {
				fullTo = idx + f.Count
			}
			if writes(name) {
				if name == "write" && f.N > 0 && f.N < o.N {
					o.Short = f.N
				} else {
					o.Err = syscall.ENOSPC
				}
			}
		case "crash":
			crash("before " + name + " " + rel(o.Path))
		case "crashafter":
			o.Flags |= 1 << 30
		case "torn":
			if f.N < o.N {
				o.Short = f.N
			}
			o.Flags |= 1 << 30
		case "stall":
			time.Sleep(time.Duration(f.N))
		case "pause":
			// the driver lets another process run before this call
			var b [1]byte
			syscall.SimRaw(4, b[:], true)
			syscall.SimRaw(4, b[:], false)
		}
	}
}

// device is the file system a path is on.
func device(p string) string {
	d := ""
	for _, m := range sp.Mounts {
		if len(m) > len(d) && (p == m || strings.HasPrefix(p, m+"/")) {
			d = m
		}
	}
	return d
}

func post(o *syscall.SimOp, ret int, err error) {
	if bypass > 0 || !hooksOn || o.Path == "" {
		return
	}
	e := "-"
	if err != nil {
		if en, ok := err.(syscall.Errno); ok {
			e = itoa(int(en))
		} else {
			e = "?"
		}
	}
	name := opName(o)
	switch o.Op {
	case "open":
		if err == nil && ret >= 0 && ret < len(fdPath) {
			fdPath[ret] = o.Path
			fdWrote[ret] = false
			if name == "create" || o.Flags&syscall.O_CREAT != 0 && o.Flags&syscall.O_APPEND == 0 {
				fdWrote[ret] = true
				syscall.SimUtimes(ret, runtime.SimNow())
			}
		}
	case "write", "pwrite", "ftruncate":
		if err == nil {
			fdWrote[o.Fd] = true
			syscall.SimUtimes(o.Fd, runtime.SimNow())
		}
	case "close":
		fdPath[o.Fd] = ""
	}
	if o.Idx > 0 {
		p2 := ""
		if o.Path2 != "" {
			p2 = rel(o.Path2)
		}
		emit("fs", itoa(o.Idx-1), name, rel(o.Path), itoa(o.N), itoa(ret), e, p2)
	}
	if o.Flags&(1<<30) != 0 {
		crash("after " + name + " " + rel(o.Path))
	}
}

// dirRand decides the order of directory listings: from a stream of its own,
// the same whatever goroutine reads first.
var dirSeq uint64

func dirRand() uint64 {
	dirSeq++
	z := sp.Seed + dirSeq*0x9e3779b97f4a7c15
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
