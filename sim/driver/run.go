package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	spec "verifsim/spec"
)

// Event is one line of the node's trace.
type Event struct {
	Kind string
	T    int64
	Br   uint64
	Hash string
	F    []string
}

func (e Event) int(i int) int { n, _ := strconv.Atoi(e.F[i]); return n }

// LogLine is one structured log line.
type LogLine map[string]any

func (l LogLine) str(k string) string {
	if s, ok := l[k].(string); ok {
		return s
	}
	if l[k] == nil {
		return ""
	}
	return fmt.Sprint(l[k])
}

// Res is what one invocation did.
type Res struct {
	Step   Step
	World  World // as it was when the step ran
	Pre    Snap
	Post   Snap
	Exit   int
	Stdout string
	Stderr string
	Log    []LogLine
	Ev     []Event
	T0, T1 int64
	Fired  map[string]int // fault kinds that really happened
	Killed bool           // pkgr was killed by an injected crash
	Stuck  string         // no progress: deadlock or a limit
	Crash  string         // the Go runtime gave up
	With   *Res
}

// History is a case with everything that happened.
type History struct {
	Case  *Case
	Steps []*Res
	Trace uint64 // digest over all traces
	Sim   int64  // simulated nanoseconds
}

// Runner executes cases on one simulated disk.
type Runner struct {
	node string
	dir  string
	runs int
}

func newRunner(node, dir string) *Runner {
	must(os.MkdirAll(dir, 0o755))
	return &Runner{node: node, dir: dir}
}

type harnessError struct{ s string }

func (e harnessError) Error() string { return e.s }

// snap reads the whole disk.
func (r *Runner) snap(d disk, killed bool) Snap {
	s := Snap{}
	filepath.Walk(d.root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel := strings.TrimPrefix(p, d.root)
		if rel == "/.srv" || rel == "/tmp" || rel == "/rhome" || rel == "/bin" {
			return filepath.SkipDir
		}
		if n := fi.Name(); killed && strings.HasPrefix(n, ".") && strings.HasSuffix(n, ".tmp") && !fi.IsDir() {
			return nil // a temporary file pkgr was killed over
		}
		e := Entry{Dir: fi.IsDir(), Mode: uint32(fi.Mode().Perm())}
		if fi.Mode()&os.ModeSymlink != 0 {
			e.Link = true
			e.Data, _ = os.Readlink(p)
		} else if !fi.IsDir() {
			b, _ := os.ReadFile(p)
			e.Data = string(b)
		}
		s["/sim"+rel] = e
		return nil
	})
	return s
}

type proc struct {
	cmd      *exec.Cmd
	out, err bytes.Buffer
	trace    string
	ctl      *os.File
	res      *Res
	timer    *time.Timer
	timedOut bool
}

const wallLimit = 30 * time.Second

func (r *Runner) start(w *World, d disk, st *Step, now int64, tag string) *proc {
	sp := spec.Spec{Seed: st.Seed, Mode: st.Mode, Limit: st.Limit, YieldP: st.YieldP, EpochP: st.EpochP, MapP: st.MapP, FSLatP: st.FSLatP,
		StepLimit: 3000000, TimeLimit: 40 * 3600 * 1e9, Root: "/sim", Mounts: w.Mounts, Hosts: w.hosts(), HTTPMin: w.HTTPMin, HTTPMax: w.HTTPMax, Chunk: w.Chunk, R: w.R, Faults: st.Faults}
	b, _ := json.Marshal(sp)
	sf := filepath.Join(r.dir, "spec"+tag+".json")
	must(os.WriteFile(sf, b, 0o644))
	p := &proc{trace: filepath.Join(r.dir, "trace"+tag)}
	tf, err := os.Create(p.trace)
	must(err)
	pr := w.Projects[st.Proj]
	c := exec.Command(r.node, st.Args...)
	cwd := st.Cwd
	if cwd == "" {
		cwd = "/sim/" + pr.Dir
	}
	c.Dir = d.real(cwd)
	env := map[string]string{"PATH": simPath, "HOME": "/sim/home", "TMPDIR": "/sim/tmp", "PWD": cwd, "TZ": "", "USER": "sim", "LANG": "C"}
	for k, v := range st.Env {
		env[k] = v
	}
	env["GOGC"], env["GODEBUG"] = "off", "asyncpreemptoff=1"
	env["PKGRSIM_SPEC"], env["PKGRSIM_DISK"] = sf, d.root
	env["PKGRSIM_SEED"] = strconv.FormatUint(st.Seed>>1, 10)
	env["PKGRSIM_SCHEDSEED"] = strconv.FormatUint(st.SchedSeed>>1, 10)
	env["PKGRSIM_NOW"] = strconv.FormatInt(now, 10)
	ncpu := st.NCPU
	if ncpu == 0 {
		ncpu = 4
	}
	env["PKGRSIM_NCPU"] = strconv.Itoa(ncpu)
	for _, k := range sortedKeys(env) {
		c.Env = append(c.Env, k+"="+env[k])
	}
	if d := os.Getenv("PKGRSIM_COVER"); d != "" {
		c.Env = append(c.Env, "GOCOVERDIR="+d)
	}
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	p.ctl = os.NewFile(uintptr(fds[0]), "ctl")
	other := os.NewFile(uintptr(fds[1]), "ctl2")
	c.ExtraFiles = []*os.File{tf, other}
	c.Stdout, c.Stderr = &p.out, &p.err
	p.cmd = c
	must(c.Start())
	tf.Close()
	other.Close()
	p.timer = time.AfterFunc(wallLimit, func() { p.timedOut = true; c.Process.Kill() })
	r.runs++
	return p
}

// paused waits until the node stops at a pause point (true) or ends.
func (p *proc) paused() bool {
	var b [1]byte
	n, _ := io.ReadFull(p.ctl, b[:])
	return n == 1
}

func (p *proc) resume() { p.ctl.Write([]byte{1}) }

func (r *Runner) finish(p *proc, res *Res) {
	p.cmd.Wait()
	p.timer.Stop()
	p.ctl.Close()
	ws := p.cmd.ProcessState.Sys().(syscall.WaitStatus)
	res.Exit = ws.ExitStatus()
	if p.timedOut {
		// thousands of times longer than any run: it spins (confirmed by running it again)
		res.Stuck = "no progress"
	} else if ws.Signaled() {
		panic(harnessError{"the simulated process was killed by signal " + ws.Signal().String()})
	}
	res.Stdout, res.Stderr = p.out.String(), p.err.String()
	b, err := os.ReadFile(p.trace)
	must(err)
	res.Fired = map[string]int{}
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if l == "" || p.timedOut && i == len(lines)-1 {
			continue
		}
		f := strings.Split(l, "\t")
		if len(f) < 5 {
			panic(harnessError{"bad trace line " + l})
		}
		for i := 5; i < len(f); i++ {
			if len(f[i]) > 1 && f[i][0] == '"' {
				if u, err := strconv.Unquote(f[i]); err == nil {
					f[i] = u
				}
			}
		}
		e := Event{Kind: f[0], Hash: f[4], F: f[5:]}
		e.T, _ = strconv.ParseInt(f[1], 10, 64)
		e.Br, _ = strconv.ParseUint(f[3], 10, 64)
		res.Ev = append(res.Ev, e)
		res.T1 = e.T
		switch e.Kind {
		case "fault":
			k := e.F[0] + " " + e.F[1]
			if e.F[0] == "fs" && e.F[1] == "errno" {
				k += " " + e.F[5]
			}
			if e.F[0] == "r" {
				k += " at " + e.F[2]
			}
			res.Fired[k]++
		case "crash":
			res.Killed = true
		case "stuck":
			res.Stuck = e.F[0]
		}
	}
	for _, s := range []string{res.Stdout, res.Stderr} {
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "{") {
				var m LogLine
				if json.Unmarshal([]byte(l), &m) == nil && m["level"] != nil {
					res.Log = append(res.Log, m)
				}
			}
		}
	}
	if res.Killed {
		return
	}
	switch {
	case p.timedOut:
	case res.Exit == 97:
		res.Stuck = "step limit"
	case res.Exit == 98:
		res.Stuck = "simulated time limit"
	case strings.Contains(res.Stderr, "all goroutines are asleep - deadlock"):
		res.Stuck = "deadlock"
	}
	if res.Stuck == "" {
		for _, l := range strings.Split(res.Stderr, "\n") {
			if strings.HasPrefix(l, "panic: runtime error") || strings.HasPrefix(l, "fatal error: ") ||
				strings.HasPrefix(l, "panic: ") && !strings.Contains(l, "logrus.Entry") {
				res.Crash = l
				break
			}
		}
	}
}

// addresses in Go's panic reports depend on the real machine
var pointers = regexp.MustCompile(`0x[0-9a-f]+\??`)

// Run executes a case from scratch.
func (r *Runner) Run(c *Case) *History {
	h := &History{Case: c, Trace: 14695981039346656037}
	d := disk{filepath.Join(r.dir, "disk")}
	w := c.World.clone()
	d.put(&w)
	now := epoch
	killed := false
	for i := range c.Steps {
		st := &c.Steps[i]
		now += st.Advance
		for _, m := range st.Mut {
			w.apply(d, m)
		}
		os.RemoveAll(d.real("/sim/tmp"))
		must(os.MkdirAll(d.real("/sim/tmp"), 0o755))
		res := &Res{Step: *st, World: w.clone(), Pre: r.snap(d, killed), T0: now}
		p := r.start(&w, d, st, now, "a")
		if st.With != nil {
			o := &Res{Step: *st.With, World: w.clone(), Pre: res.Pre, T0: now}
			// strictly one at a time: the first runs to its next pause, then
			// the second …
			pl := p.paused()
			q := r.start(&w, d, st.With, now, "b")
			ql := q.paused()
			for pl || ql {
				if pl {
					p.resume()
					pl = p.paused()
				}
				if ql {
					q.resume()
					ql = q.paused()
				}
			}
			r.finish(q, o)
			res.With = o
		}
		r.finish(p, res)
		killed = killed || res.Killed || res.With != nil && res.With.Killed
		res.Post = r.snap(d, killed)
		if res.With != nil {
			res.With.Post = res.Post
		}
		for _, x := range []*Res{res, res.With} {
			if x == nil {
				continue
			}
			if x.T1 < x.T0 {
				x.T1 = x.T0
			}
			for _, e := range x.Ev {
				h.Trace = (h.Trace ^ hashString(e.Kind+e.Hash+strconv.FormatInt(e.T, 10)+strings.Join(e.F, "\x00"))) * 1099511628211
			}
			h.Trace = (h.Trace ^ hashString(pointers.ReplaceAllString(x.Stdout+"\x01"+x.Stderr, "0xPTR")+strconv.Itoa(x.Exit))) * 1099511628211
			if x.T1 > now {
				h.Sim += x.T1 - now
				now = x.T1
			}
		}
		now += 1e9
		h.Steps = append(h.Steps, res)
	}
	return h
}
