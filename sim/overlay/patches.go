// Package overlay builds the simulated pkgr node: the unmodified sources of
// /repo, plus a patched Go standard library in which every source of
// nondeterminism is owned by the simulator.  Nothing under /repo or GOROOT is
// written; the patched files are handed to the compiler with `go build
// -overlay`.
package overlay

// edit is one textual replacement in a standard library file.  The old text
// must occur exactly once, so an unexpected toolchain fails loudly.
type edit struct{ old, new string }

type patch struct {
	file  string // relative to GOROOT/src
	edits []edit
}

// simRuntime is added to package runtime.
const simRuntime = `
package runtime

import "unsafe"

// ---- deterministic simulation support (verification build only) ----

var simSchedState uint64 = 0x9e3779b97f4a7c15
var simRandState uint64 = 0xd1b54a32d192ed03
var simNCPU int32 = 1
var simMode uint32      // 0 = native FIFO, 1 = uniform random, 2 = random priorities
var simLimit uint64     // number of branching decisions that may deviate (0 = all)
var simYieldP uint32    // yield probability at sync operations, in 1/1024
var simEpoch uint64
var simEpochP uint32    // priority change probability, in 1/1024
var simDecisions uint64 // scheduling decisions taken
var simBranches uint64  // decisions with more than one runnable goroutine
var simHash uint64 = 14695981039346656037
var simStepLimit uint64
var simNoYield uint32
var simTick int64 = 137
var simMapP uint32 // yields inside map assignments, in 1/1024

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 { return simMix(&simRandState) }

//go:nosplit
func simSchedRand() uint64 { return simMix(&simSchedState) }

//go:nosplit
func simHashAdd(x uint64) {
	simHash = (simHash ^ x) * 1099511628211
	simHash ^= simHash >> 29
}

func simParse(s string) uint64 {
	var v uint64
	for i := 0; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		v = v*10 + uint64(s[i]-'0')
	}
	return v
}

func simEnv(key string) (uint64, bool) {
	for i := argc + 1; ; i++ {
		p := argv_index(argv, i)
		if p == nil {
			return 0, false
		}
		s := unsafe.String(p, findnull(p))
		if len(s) > len(key) && s[len(key)] == '=' && s[:len(key)] == key {
			return simParse(s[len(key)+1:]), true
		}
	}
}

func simInit() {
	seed, _ := simEnv("PKGRSIM_SEED")
	x := seed*0x9e3779b97f4a7c15 + 0x1234567
	simRandState = simMix(&x)
	simSchedState = simMix(&x)
	if v, ok := simEnv("PKGRSIM_SCHEDSEED"); ok {
		y := v
		simSchedState = simMix(&y)
	}
	if v, ok := simEnv("PKGRSIM_NOW"); ok {
		faketime = int64(v)
	}
	if v, ok := simEnv("PKGRSIM_NCPU"); ok {
		simNCPU = int32(v)
	}
	simSchedState0 = simSchedState
	for i := range globalRand.seed {
		globalRand.seed[i] = byte(simMix(&x))
	}
}

// SimConfig sets the scheduling policy.
func SimConfig(mode uint32, limit uint64, yieldP, epochP, mapP uint32, stepLimit uint64) {
	simMode, simLimit, simYieldP, simEpochP, simMapP, simStepLimit = mode, limit, yieldP, epochP, mapP, stepLimit
}

// SimNoYield switches the injected yields off (+1) and on (-1).
func SimNoYield(d int) { simNoYield = uint32(int(simNoYield) + d) }

// SimStats reports the scheduling decisions taken so far.
func SimStats() (decisions, branches, hash uint64) { return simDecisions, simBranches, simHash }

// SimNow returns the simulated clock without advancing it.
func SimNow() int64 { return faketime }

// SimYield is a scheduling point.
func SimYield() { simYield() }

// SimSteps lets simulated components charge steps against the step limit.
func SimStep() { simStepCheck() }

//go:nosplit
func simNoteLimit() {
	const m = "PKGRSIM: step limit reached (no progress)\n"
	s := m
	write1(2, unsafe.Pointer(unsafe.StringData(s)), int32(len(s)))
	exit(97)
}

//go:nosplit
func simStepCheck() {
	simDecisions++
	if simStepLimit != 0 && simDecisions > simStepLimit {
		simNoteLimit()
	}
}

func simYield() { simYieldAt(simYieldP) }

// simMapYield runs while a map is being written: another goroutine that uses
// the map now, without synchronisation, is caught by the map's own check.
//
//go:linkname simMapYield internal/runtime/maps.simMapYield
func simMapYield() { simYieldAt(simMapP) }

func simYieldAt(prob uint32) {
	if prob == 0 || simNoYield != 0 {
		return
	}
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.lockedg != 0 || gp.goid <= 0 {
		return
	}
	if simLimit != 0 && simBranches > simLimit {
		return
	}
	if uint32(simSchedRand()&1023) < prob {
		Gosched()
	}
}

// simPick chooses one of the goroutines on pp's local run queue and moves it
// to the head, so that the caller can pop it.
func simPick(pp *p) *g {
	h := pp.runqhead
	t := pp.runqtail
	if nx := pp.runnext; nx != 0 {
		if t-h < uint32(len(pp.runq)) {
			pp.runq[t%uint32(len(pp.runq))] = nx
			t++
			pp.runqtail = t
			pp.runnext = 0
		} else {
			pp.runnext = 0
			return nx.ptr()
		}
	}
	if t == h {
		return nil
	}
	simStepCheck()
	n := t - h
	k := uint32(0)
	if n > 1 {
		simBranches++
		if simLimit == 0 || simBranches <= simLimit {
			if simMode == 2 {
				if uint32(simSchedRand()&1023) < simEpochP {
					simEpoch++
				}
				best := uint64(0)
				for i := uint32(0); i < n; i++ {
					gp := pp.runq[(h+i)%uint32(len(pp.runq))].ptr()
					x := uint64(gp.goid)*0x9e3779b97f4a7c15 + simEpoch*0xd1b54a32d192ed03 + simSchedState0
					pr := simMix(&x)
					if pr >= best {
						best = pr
						k = i
					}
				}
				// one in sixteen decisions is uniform, so no goroutine starves
				r := simSchedRand()
				if r&15 == 0 {
					k = uint32((r >> 8) % uint64(n))
				}
			} else {
				k = uint32(simSchedRand() % uint64(n))
			}
		}
	}
	gp := pp.runq[(h+k)%uint32(len(pp.runq))].ptr()
	// keep the relative order of the others
	for i := k; i > 0; i-- {
		pp.runq[(h+i)%uint32(len(pp.runq))] = pp.runq[(h+i-1)%uint32(len(pp.runq))]
	}
	pp.runqhead = h + 1
	if n > 1 {
		simHashAdd(uint64(gp.goid)<<8 | uint64(n&255))
	}
	return gp
}

var simSchedState0 uint64 = 0x5851f42d4c957f2d

//go:linkname internal_sync_sim_yield internal/sync.sim_yield
func internal_sync_sim_yield() { simYield() }
`

var patches = []patch{
	{"runtime/proc.go", []edit{
		{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		{`	if n, err := strconv.ParseInt(gogetenv("GOMAXPROCS"), 10, 32); err == nil && n > 0 {
		procs = int32(n)
`, `	if true {
		procs = 1
`},
		{`func runqget(pp *p) (gp *g, inheritTime bool) {
`, `func runqget(pp *p) (gp *g, inheritTime bool) {
	if simMode != 0 {
		return simPick(pp), false
	}
	if pp.runnext != 0 || pp.runqhead != pp.runqtail {
		simStepCheck()
	}
`},
	}},
	{"runtime/rand.go", []edit{
		{`	seed := &globalRand.seed
	if len(startupRand)`, `	seed := &globalRand.seed
	simInit()
	if !allZero(seed[:]) {
	} else if len(startupRand)`},
		{`	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,`, `	if true {
		return simRand()
	}
	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,`},
	}},
	{"runtime/select.go", []edit{
		{`j := cheaprandn(uint32(norder + 1))`, `j := uint32(simSchedRand() % uint64(norder+1))`},
	}},
	{"runtime/chan.go", []edit{
		{"//go:nosplit\nfunc chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tsimYield()\n"},
		{"//go:nosplit\nfunc chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tsimYield()\n"},
		{"//go:nosplit\nfunc chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tsimYield()\n"},
	}},
	{"runtime/debug.go", []edit{
		{`	lock(&sched.lock)
	ret := int(gomaxprocs)
	if n <= 0 {`, `	if true {
		return int(simNCPU)
	}
	lock(&sched.lock)
	ret := int(gomaxprocs)
	if n <= 0 {`},
		{`	return int(numCPUStartup)
}`, `	return int(simNCPU)
}`},
	}},
	{"internal/runtime/maps/runtime.go", []edit{
		{"\tm.writing ^= 1 // toggle, see comment on writing\n", "\tm.writing ^= 1 // toggle, see comment on writing\n\tsimMapYield()\n"},
		{"//go:linkname fatal\n", "//go:linkname simMapYield\nfunc simMapYield()\n\n//go:linkname fatal\n"},
	}},
	{"internal/runtime/maps/runtime_faststr.go", []edit{
		{"\tm.writing ^= 1 // toggle, see comment on writing\n", "\tm.writing ^= 1 // toggle, see comment on writing\n\tsimMapYield()\n"},
	}},
	{"internal/poll/copy_file_range_linux.go", []edit{
		{"func handleCopyFileRangeErr(", "func init() { supportCopyFileRange = func() bool { return false } }\n\nfunc handleCopyFileRangeErr("},
	}},
	{"internal/sync/mutex.go", []edit{
		{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tsim_yield()\n"},
	}},
	{"internal/sync/runtime.go", []edit{
		{"//go:linkname throw", "//go:linkname sim_yield\nfunc sim_yield()\n\n//go:linkname throw"},
	}},
	{"sync/waitgroup.go", []edit{
		{"func (wg *WaitGroup) Done() {\n", "func (wg *WaitGroup) Done() {\n\truntime.SimYield()\n"},
		{"\t\"internal/synctest\"\n", "\t\"internal/synctest\"\n\t\"runtime\"\n"},
	}},
	{"os/exec/exec.go", []edit{
		{"\tchildFiles := make([]*os.File, 0, 3+len(c.ExtraFiles))\n", `	if SimStart != nil {
		env, err := c.environ()
		if err != nil {
			return err
		}
		wait, err := SimStart(c, lp, env)
		if err != nil {
			return err
		}
		if wait != nil {
			c.Process = &os.Process{Pid: 4242}
			c.simWait = wait
			started = true
			return nil
		}
	}
	childFiles := make([]*os.File, 0, 3+len(c.ExtraFiles))
`},
		{"\tstate, err := c.Process.Wait()\n", `	if c.simWait != nil {
		status := c.simWait()
		c.ProcessState = os.SimProcessState(4242, status)
		if !c.ProcessState.Success() {
			return &ExitError{ProcessState: c.ProcessState}
		}
		return nil
	}
	state, err := c.Process.Wait()
`},
		{"type Cmd struct {\n", `// SimStart, when set, runs the command inside the simulator.
var SimStart func(c *Cmd, path string, env []string) (wait func() syscall.WaitStatus, err error)

type Cmd struct {
	simWait func() syscall.WaitStatus
`},
	}},
	{"os/exec_posix.go", []edit{
		{"// Pid returns the process id of the exited process.\n", `// SimProcessState builds a ProcessState for a simulated process.
func SimProcessState(pid int, status syscall.WaitStatus) *ProcessState {
	return &ProcessState{pid: pid, status: status, rusage: &syscall.Rusage{}}
}

// Pid returns the process id of the exited process.
`},
	}},
	{"net/http/roundtrip.go", []edit{
		{"\treturn t.roundTrip(req)\n", "\tif SimRoundTrip != nil {\n\t\treturn SimRoundTrip(t, req)\n\t}\n\treturn t.roundTrip(req)\n"},
		{"func badRoundTrip(*Transport, *Request) (*Response, error)\n", "func badRoundTrip(*Transport, *Request) (*Response, error)\n\n// SimRoundTrip, when set, is the simulated network.\nvar SimRoundTrip func(t *Transport, req *Request) (*Response, error)\n"},
	}},
	{"internal/syscall/unix/at.go", []edit{
		{"func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n\tif true {\n\t\treturn syscall.SimUnlinkat(dirfd, path, flags)\n\t}\n"},
		{"func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n\tif true {\n\t\treturn syscall.SimOpenat(dirfd, path, flags, perm)\n\t}\n"},
	}},
	{"runtime/time_fake.go", []edit{
		{"func time_now() (sec int64, nsec int32, mono int64) {\n", "func time_now() (sec int64, nsec int32, mono int64) {\n\tfaketime += simTick\n"},
		{"\tif !(fd == 1 || fd == 2) {\n", "\tif true {\n"},
	}},
	{"syscall/syscall_unix.go", []edit{
		{"if faketime && (fd == 1 || fd == 2) {", "if false {"},
	}},
}

// syscallRename lists the typed system call wrappers of package syscall that
// get a simulator hook in front and behind.
var syscallRename = []string{
	"openat", "Close", "read", "write", "pread", "pwrite", "unlinkat", "Renameat",
	"Mkdirat", "Getdents", "Fstat", "fstatat", "Ftruncate", "Truncate", "fchmodat",
	"Fchmod", "symlinkat", "linkat", "readlinkat", "utimensat", "Chdir", "faccessat", "faccessat2",
	"Fsync", "Fdatasync", "Getcwd",
}

const simSyscall = `
package syscall

import "unsafe"

// SimOp describes one file system call about to be made.
type SimOp struct {
	Op     string
	Dirfd  int
	Path   string
	Dirfd2 int
	Path2  string
	Fd     int
	N      int
	Flags  int
	Err    Errno // set by SimPre: fail with this error instead of calling the kernel
	Short  int   // set by SimPre: -1, or the number of bytes to let through
	Idx    int
}

// SimPid, when set, is the process id pkgr sees.
var SimPid int

// the simulated disk: /sim in here is simRoot outside
var simRoot string

func init() { simRoot, _ = Getenv("PKGRSIM_DISK") }

func simMap(p string) string {
	if simRoot != "" && len(p) >= 4 && p[:4] == "/sim" && (len(p) == 4 || p[4] == '/') {
		return simRoot + p[4:]
	}
	return p
}

func Getcwd(buf []byte) (n int, err error) {
	if simRoot == "" {
		return real_Getcwd(buf)
	}
	var b [4096]byte
	n, err = real_Getcwd(b[:])
	if err != nil || n < 1 {
		return
	}
	p := string(b[:n-1])
	if len(p) >= len(simRoot) && p[:len(simRoot)] == simRoot && (len(p) == len(simRoot) || p[len(simRoot)] == '/') {
		p = "/sim" + p[len(simRoot):]
	}
	if len(p)+1 > len(buf) {
		return 0, ERANGE
	}
	copy(buf, p)
	buf[len(p)] = 0
	return len(p) + 1, nil
}

var SimPre func(*SimOp)
var SimPost func(op *SimOp, ret int, err error)

// SimRaw reads or writes a descriptor without passing through the hooks.
func SimRaw(fd int, b []byte, w bool) int {
	var n int
	for {
		var err error
		if w {
			n, err = real_write(fd, b)
		} else {
			n, err = real_read(fd, b)
		}
		if err != EINTR {
			return n
		}
	}
}

func SimUnlinkat(dirfd int, path string, flags int) error { return unlinkat(dirfd, path, flags) }
func SimOpenat(dirfd int, path string, flags int, perm uint32) (int, error) {
	return openat(dirfd, path, flags, perm)
}

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if path == "/etc/os-release" {
		path = "/sim/etc/os-release"
	}
	if SimPre == nil {
		return real_openat(dirfd, simMap(path), flags, mode)
	}
	o := &SimOp{Op: "open", Dirfd: dirfd, Path: path, Flags: flags, Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return -1, o.Err
	}
	fd, err = real_openat(dirfd, simMap(path), flags, mode)
	SimPost(o, fd, err)
	return
}

func Close(fd int) (err error) {
	if SimPre == nil {
		return real_Close(fd)
	}
	o := &SimOp{Op: "close", Fd: fd, Short: -1}
	SimPre(o)
	if fd >= 0 && fd < len(simDirs) {
		simDirs[fd], simDirOpen[fd] = nil, false
	}
	err = real_Close(fd)
	if o.Err != 0 {
		err = o.Err
	}
	SimPost(o, 0, err)
	return
}

func read(fd int, p []byte) (n int, err error) {
	if SimPre == nil {
		return real_read(fd, p)
	}
	o := &SimOp{Op: "read", Fd: fd, N: len(p), Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return -1, o.Err
	}
	if o.Short >= 0 && o.Short < len(p) {
		p = p[:o.Short]
	}
	n, err = real_read(fd, p)
	SimPost(o, n, err)
	return
}

func write(fd int, p []byte) (n int, err error) {
	if SimPre == nil {
		return real_write(fd, p)
	}
	o := &SimOp{Op: "write", Fd: fd, N: len(p), Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return -1, o.Err
	}
	if o.Short >= 0 && o.Short < len(p) {
		p = p[:o.Short]
	}
	n, err = real_write(fd, p)
	SimPost(o, n, err)
	return
}

func pread(fd int, p []byte, offset int64) (n int, err error) {
	if SimPre == nil {
		return real_pread(fd, p, offset)
	}
	o := &SimOp{Op: "pread", Fd: fd, N: len(p), Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return -1, o.Err
	}
	n, err = real_pread(fd, p, offset)
	SimPost(o, n, err)
	return
}

func pwrite(fd int, p []byte, offset int64) (n int, err error) {
	if SimPre == nil {
		return real_pwrite(fd, p, offset)
	}
	o := &SimOp{Op: "pwrite", Fd: fd, N: len(p), Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return -1, o.Err
	}
	if o.Short >= 0 && o.Short < len(p) {
		p = p[:o.Short]
	}
	n, err = real_pwrite(fd, p, offset)
	SimPost(o, n, err)
	return
}

func sim1(op string, dirfd int, path string, flags int, f func() error) error {
	if SimPre == nil {
		return f()
	}
	o := &SimOp{Op: op, Dirfd: dirfd, Path: path, Flags: flags, Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return o.Err
	}
	err := f()
	SimPost(o, 0, err)
	return err
}

func simfd(op string, fd int, f func() error) error {
	if SimPre == nil {
		return f()
	}
	o := &SimOp{Op: op, Fd: fd, Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return o.Err
	}
	err := f()
	SimPost(o, 0, err)
	return err
}

func unlinkat(dirfd int, path string, flags int) error {
	op := "unlink"
	if flags != 0 {
		op = "rmdir"
	}
	return sim1(op, dirfd, path, flags, func() error { return real_unlinkat(dirfd, simMap(path), flags) })
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	if SimPre == nil {
		return real_Renameat(olddirfd, simMap(oldpath), newdirfd, simMap(newpath))
	}
	o := &SimOp{Op: "rename", Dirfd: olddirfd, Path: oldpath, Dirfd2: newdirfd, Path2: newpath, Short: -1}
	SimPre(o)
	if o.Err != 0 {
		return o.Err
	}
	err = real_Renameat(olddirfd, simMap(oldpath), newdirfd, simMap(newpath))
	SimPost(o, 0, err)
	return
}

func Mkdirat(dirfd int, path string, mode uint32) error {
	return sim1("mkdir", dirfd, path, int(mode), func() error { return real_Mkdirat(dirfd, simMap(path), mode) })
}

// SimRand, when set, decides the order in which directories list their entries.
var SimRand func() uint64

// what is left to hand out of the directories being read
var simDirs [1024][][]byte
var simDirOpen [1024]bool

func simReadAll(fd int) error {
	var raw []byte
	var ents [][]byte
	tmp := make([]byte, 65536)
	for {
		n, err := real_Getdents(fd, tmp)
		if err == EINTR {
			continue
		}
		if err != nil {
			return err
		}
		if n == 0 {
			break
		}
		raw = append([]byte(nil), tmp[:n]...)
		for len(raw) > 18 {
			l := int(raw[16]) | int(raw[17])<<8
			ents = append(ents, raw[:l])
			raw = raw[l:]
		}
	}
	name := func(e []byte) string {
		b := e[19:]
		for i, c := range b {
			if c == 0 {
				return string(b[:i])
			}
		}
		return string(b)
	}
	for i := 1; i < len(ents); i++ {
		for j := i; j > 0 && name(ents[j]) < name(ents[j-1]); j-- {
			ents[j], ents[j-1] = ents[j-1], ents[j]
		}
	}
	for i := len(ents) - 1; i > 0; i-- {
		j := int(SimRand() % uint64(i+1))
		ents[i], ents[j] = ents[j], ents[i]
	}
	simDirs[fd], simDirOpen[fd] = ents, true
	return nil
}

func Getdents(fd int, buf []byte) (n int, err error) {
	err = simfd("getdents", fd, func() error {
		if SimRand == nil || fd < 0 || fd >= len(simDirs) {
			n, err = real_Getdents(fd, buf)
			return err
		}
		if !simDirOpen[fd] {
			if err := simReadAll(fd); err != nil {
				n = -1
				return err
			}
		}
		n = 0
		for len(simDirs[fd]) > 0 && n+len(simDirs[fd][0]) <= len(buf) {
			n += copy(buf[n:], simDirs[fd][0])
			simDirs[fd] = simDirs[fd][1:]
		}
		return nil
	})
	return
}

func Fstat(fd int, stat *Stat_t) error {
	if SimPre == nil {
		return real_Fstat(fd, stat)
	}
	return simfd("fstat", fd, func() error { return real_Fstat(fd, stat) })
}

func fstatat(fd int, path string, stat *Stat_t, flags int) error {
	return sim1("stat", fd, path, flags, func() error { return real_fstatat(fd, simMap(path), stat, flags) })
}

func Ftruncate(fd int, length int64) error {
	return simfd("ftruncate", fd, func() error { return real_Ftruncate(fd, length) })
}

func Truncate(path string, length int64) error {
	return sim1("truncate", _AT_FDCWD, path, 0, func() error { return real_Truncate(simMap(path), length) })
}

func fchmodat(dirfd int, path string, mode uint32) error {
	return sim1("chmod", dirfd, path, int(mode), func() error { return real_fchmodat(dirfd, simMap(path), mode) })
}

func Fchmod(fd int, mode uint32) error {
	return simfd("fchmod", fd, func() error { return real_Fchmod(fd, mode) })
}

func symlinkat(oldpath string, newdirfd int, newpath string) error {
	return sim1("symlink", newdirfd, newpath, 0, func() error { return real_symlinkat(oldpath, newdirfd, simMap(newpath)) })
}

func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) error {
	return sim1("link", newdirfd, newpath, 0, func() error { return real_linkat(olddirfd, simMap(oldpath), newdirfd, simMap(newpath), flags) })
}

func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {
	err = sim1("readlink", dirfd, path, 0, func() error { n, err = real_readlinkat(dirfd, simMap(path), buf); return err })
	return
}

func utimensat(dirfd int, path string, times *[2]Timespec, flag int) error {
	return sim1("utimes", dirfd, path, 0, func() error { return real_utimensat(dirfd, simMap(path), times, flag) })
}

// SimUtimes sets a file's times without passing through the hooks.
func SimUtimes(fd int, ns int64) {
	ts := [2]Timespec{{Sec: ns / 1e9, Nsec: ns % 1e9}, {Sec: ns / 1e9, Nsec: ns % 1e9}}
	RawSyscall6(SYS_UTIMENSAT, uintptr(fd), 0, uintptr(unsafe.Pointer(&ts)), 0, 0, 0)
}

func Chdir(path string) error {
	return sim1("chdir", _AT_FDCWD, path, 0, func() error { return real_Chdir(simMap(path)) })
}

func faccessat(dirfd int, path string, mode uint32) error {
	return sim1("access", dirfd, path, int(mode), func() error { return real_faccessat(dirfd, simMap(path), mode) })
}

func faccessat2(dirfd int, path string, mode uint32, flags int) error {
	return sim1("access", dirfd, path, int(mode), func() error { return real_faccessat2(dirfd, simMap(path), mode, flags) })
}

func Fsync(fd int) error {
	return simfd("fsync", fd, func() error { return real_Fsync(fd) })
}

func Fdatasync(fd int) error {
	return simfd("fdatasync", fd, func() error { return real_Fdatasync(fd) })
}
`
