// Package pkgrsimspec is the contract between the driver and the simulated
// node: one Spec describes one invocation of pkgr completely.
package pkgrsimspec

// Spec describes one simulated invocation.
type Spec struct {
	Seed      uint64
	Mode      uint32 // scheduler: 0 FIFO, 1 uniform, 2 random priorities
	Limit     uint64 // branching decisions that may deviate from FIFO (0 = all)
	YieldP    uint32 // injected yields at synchronisation operations, in 1/1024
	EpochP    uint32
	MapP      uint32 // injected yields inside map assignments, in 1/1024
	FSLatP    uint32 // probability of latency at a file system call, in 1/1024
	StepLimit uint64
	TimeLimit int64 // simulated ns from the start after which the run is stuck

	Root             string // the simulated disk (always /sim): nothing outside it can be changed
	Hosts            map[string]Host
	Mounts           []string // directories that are file systems of their own
	HTTPMin, HTTPMax int64    // ns before the response header
	Chunk            int      // bytes per body read

	R      R
	Faults []Fault
}

// Host is one simulated HTTP server.
type Host struct {
	Dir      string // files served
	BadCert  bool   // https certificate does not verify
	Why      int    // for what reason
	NoLength bool   // bodies are sent without Content-Length, closed at the end
	Slow     int64  // extra ns per response
	Redirect string // when set: answer every request with a redirect to this host
}

// R is the simulated R installation.
type R struct {
	Version  string
	Platform string
	Home     string   // R's own library directory
	Extra    []string // library paths a site profile adds in the working directory
	DurMin   int64    // ns
	DurMax   int64
	Dur      map[string]int64
	LoadFail map[string]bool
	Renv     string
	Survive  bool // R children in flight finish (rather than die) when pkgr is killed
}

// Fault is one injected fault.
type Fault struct {
	Kind string // fs, http, r
	Act  string
	// fs: errno, short, full, crash, crashafter, torn, stall
	At    int    // index of the file system call
	Op    string // what was recorded there (informative)
	Path  string
	N     int // bytes (short, torn, reset, trunc) or ns (stall)
	Errno string
	Count int // full: number of calls affected (0 = rest of the run)
	// http: status, refuse, reset, trunc, eof, stall, corrupt
	URL string
	Nth int
	// r: exit, kill, spawn, partial, nobuild, slow
	Pkg   string
	Phase string // build, install, version, load, info, libpaths, renv, run
	Code  int
}
