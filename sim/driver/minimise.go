package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"time"

	spec "verifsim/spec"
)

// minimiser shrinks a case while it keeps showing the same violation.
type minimiser struct {
	p    *pool
	runs []*Runner
	cur  *Case
	v    Violation
	h    *History
	fam  string
}

func newMinimiser(p *pool, f *finding) *minimiser {
	m := &minimiser{p: p, cur: copyCase(f.c), v: f.v, fam: f.family}
	for k := 0; k < p.workers; k++ {
		m.runs = append(m.runs, newRunner(p.node, filepath.Join(p.scratch, fmt.Sprint("m", k))))
	}
	return m
}

func copyCase(c *Case) *Case {
	b, err := json.Marshal(c)
	must(err)
	var n Case
	must(json.Unmarshal(b, &n))
	if n.World.Tarballs == nil {
		n.World.Tarballs = map[string]Pkg{}
	}
	if n.World.Descs == nil {
		n.World.Descs = map[string]Pkg{}
	}
	if n.World.Files == nil {
		n.World.Files = map[string]string{}
	}
	return &n
}

// shows runs a case and returns the violation if it is still there.
func (m *minimiser) shows(r *Runner, c *Case) (v Violation, h *History, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	h = r.Run(c)
	for _, x := range judge(h) {
		if x.Prop == m.v.Prop && x.Kind == m.v.Kind && !isKnown(m.p.known, x) {
			return x, h, true
		}
	}
	return
}

// candidates lists smaller variants of a case, the most promising first.
func candidates(c *Case) []*Case {
	var out []*Case
	add := func(f func(n *Case) bool) {
		n := copyCase(c)
		if f(n) {
			out = append(out, n)
		}
	}
	for i := len(c.Steps) - 1; i >= 0 && len(c.Steps) > 1; i-- {
		add(func(n *Case) bool {
			mut := n.Steps[i].Mut
			n.Steps = append(n.Steps[:i], n.Steps[i+1:]...)
			if i < len(n.Steps) {
				n.Steps[i].Mut = append(append([]Mut{}, mut...), n.Steps[i].Mut...)
			}
			return true
		})
	}
	for i := range c.Steps {
		for j := range c.Steps[i].Faults {
			add(func(n *Case) bool {
				n.Steps[i].Faults = append(n.Steps[i].Faults[:j:j], n.Steps[i].Faults[j+1:]...)
				return true
			})
		}
		if c.Steps[i].With != nil {
			add(func(n *Case) bool { n.Steps[i].With = nil; return true })
			for j := range c.Steps[i].With.Faults {
				add(func(n *Case) bool {
					w := n.Steps[i].With
					w.Faults = append(w.Faults[:j:j], w.Faults[j+1:]...)
					return true
				})
			}
		}
		if s := c.Steps[i]; s.Mode != 0 || s.YieldP+s.MapP+s.FSLatP+s.EpochP > 0 {
			add(func(n *Case) bool {
				t := &n.Steps[i]
				t.Mode, t.YieldP, t.MapP, t.FSLatP, t.EpochP, t.Limit = 0, 0, 0, 0, 0, 0
				return true
			})
			for _, f := range []func(t *Step) bool{
				func(t *Step) bool { z := t.YieldP != 0; t.YieldP = 0; return z },
				func(t *Step) bool { z := t.MapP != 0; t.MapP = 0; return z },
				func(t *Step) bool { z := t.FSLatP != 0; t.FSLatP = 0; return z },
				func(t *Step) bool { z := t.EpochP != 0; t.EpochP = 0; return z },
			} {
				add(func(n *Case) bool { return f(&n.Steps[i]) })
			}
		}
		for j := range c.Steps[i].Mut {
			add(func(n *Case) bool {
				n.Steps[i].Mut = append(n.Steps[i].Mut[:j:j], n.Steps[i].Mut[j+1:]...)
				return true
			})
		}
		if len(c.Steps[i].Env) > 0 {
			add(func(n *Case) bool { n.Steps[i].Env = nil; return true })
		}
		if c.Steps[i].Advance != 0 {
			add(func(n *Case) bool { n.Steps[i].Advance = 0; return true })
		}
	}
	w := &c.World
	for i := range w.Projects {
		p := &w.Projects[i]
		if p.Cfg.Text == "" {
			for j := range p.Cfg.Packages {
				if len(p.Cfg.Packages)+len(p.Cfg.Tarballs) > 1 {
					add(func(n *Case) bool {
						q := &n.World.Projects[i].Cfg
						q.Packages = append(q.Packages[:j:j], q.Packages[j+1:]...)
						return true
					})
				}
			}
			for j := range p.Cfg.Tarballs {
				add(func(n *Case) bool {
					q := &n.World.Projects[i].Cfg
					q.Tarballs = append(q.Tarballs[:j:j], q.Tarballs[j+1:]...)
					return true
				})
			}
			for j := range p.Cfg.Cust {
				add(func(n *Case) bool {
					q := &n.World.Projects[i].Cfg
					q.Cust = append(q.Cust[:j:j], q.Cust[j+1:]...)
					return true
				})
			}
			if len(p.Cfg.Descriptions) > 0 {
				add(func(n *Case) bool { n.World.Projects[i].Cfg.Descriptions = nil; return true })
			}
			if len(p.Cfg.Ignore) > 0 {
				add(func(n *Case) bool { n.World.Projects[i].Cfg.Ignore = nil; return true })
			}
			for _, f := range []func(q *Config) bool{
				func(q *Config) bool { z := q.Suggests; q.Suggests = false; return z },
				func(q *Config) bool { z := q.NoRecommended; q.NoRecommended = false; return z },
				func(q *Config) bool { z := q.NoUpdate; q.NoUpdate = false; return z },
				func(q *Config) bool { z := q.Threads != 1; q.Threads = 1; return z },
			} {
				add(func(n *Case) bool { return f(&n.World.Projects[i].Cfg) })
			}
		}
		for j := range p.Lib {
			add(func(n *Case) bool {
				q := &n.World.Projects[i]
				q.Lib = append(q.Lib[:j:j], q.Lib[j+1:]...)
				return true
			})
		}
		if p.Stray {
			add(func(n *Case) bool { n.World.Projects[i].Stray = false; return true })
		}
	}
	for i := range w.Repos {
		for j := range w.Repos[i].Pkgs {
			if strings.HasPrefix(w.Repos[i].Pkgs[j].Name, "zzmark") {
				continue
			}
			add(func(n *Case) bool {
				q := &n.World.Repos[i]
				q.Pkgs = append(q.Pkgs[:j:j], q.Pkgs[j+1:]...)
				return true
			})
		}
	}
	return out
}

// run shrinks until nothing smaller works or the time is over.
func (m *minimiser) run(limit time.Duration) (*Case, Violation, *History) {
	end := time.Now().Add(limit)
	if v, h, ok := m.shows(m.runs[0], m.cur); ok {
		m.v, m.h = v, h
	} else {
		m.h = m.runs[0].Run(m.cur)
		return m.cur, m.v, m.h
	}
	// nothing after the violating step matters
	if m.v.Step+1 < len(m.cur.Steps) {
		n := copyCase(m.cur)
		n.Steps = n.Steps[:m.v.Step+1]
		m.accept(n)
	}
	for time.Now().Before(end) {
		cands := candidates(m.cur)
		// try them concurrently, in order, keep the first that works
		won := -1
		var vs = make([]Violation, len(cands))
		var hs = make([]*History, len(cands))
		for from := 0; from < len(cands) && won < 0 && time.Now().Before(end); from += len(m.runs) {
			var wg sync.WaitGroup
			oks := make([]bool, len(m.runs))
			for k := range m.runs {
				if from+k >= len(cands) {
					break
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					vs[from+k], hs[from+k], oks[k] = m.shows(m.runs[k], cands[from+k])
				}()
			}
			wg.Wait()
			for k, ok := range oks {
				if ok {
					won = from + k
					break
				}
			}
		}
		if won < 0 {
			break
		}
		m.cur, m.v, m.h = cands[won], vs[won], hs[won]
	}
	m.shrinkLimit(end)
	return m.cur, m.v, m.h
}

func (m *minimiser) accept(n *Case) bool {
	v, h, ok := m.shows(m.runs[0], n)
	if ok {
		m.cur, m.v, m.h = n, v, h
	}
	return ok
}

// shrinkLimit finds few branching decisions that must deviate from FIFO.
func (m *minimiser) shrinkLimit(end time.Time) {
	for i := range m.cur.Steps {
		if m.cur.Steps[i].Mode == 0 || i >= len(m.h.Steps) {
			continue
		}
		hi := uint64(0)
		for _, e := range m.h.Steps[i].Ev {
			if e.Br > hi {
				hi = e.Br
			}
		}
		lo := uint64(0)
		for lo < hi && time.Now().Before(end) {
			mid := (lo + hi) / 2
			n := copyCase(m.cur)
			n.Steps[i].Limit = mid + 1
			if m.accept(n) {
				hi = mid
			} else {
				lo = mid + 1
			}
		}
	}
}

func describeFault(f spec.Fault) string {
	switch f.Kind {
	case "fs":
		s := fmt.Sprintf("file system call %d (%s %s): %s", f.At, f.Op, f.Path, f.Act)
		if f.Errno != "" {
			s += " " + f.Errno
		}
		if f.Act == "torn" || f.Act == "short" || f.Act == "full" {
			s += fmt.Sprintf(" after %d bytes", f.N)
		}
		return s
	case "http":
		return fmt.Sprintf("request %d of %s: %s (code %d, n %d)", f.Nth, f.URL, f.Act, f.Code, f.N)
	case "r":
		return fmt.Sprintf("R process %d that %ss %s: %s (code %d)", f.Nth, f.Phase, f.Pkg, f.Act, f.Code)
	}
	return fmt.Sprint(f)
}
