package overlay

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Build compiles the simulated node from repo's working tree into out.
// simDir is /verif/sim; work is a scratch directory for the generated files.
func Build(repo, simDir, work, out string) error {
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return fmt.Errorf("go env GOROOT: %v", err)
	}
	src := filepath.Join(strings.TrimSpace(string(goroot)), "src")
	std := filepath.Join(work, "std")
	repl := map[string]string{}
	put := func(rel, text string) error {
		dst := filepath.Join(std, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		repl[filepath.Join(src, rel)] = dst
		return os.WriteFile(dst, []byte(text), 0o644)
	}
	for _, p := range patches {
		b, err := os.ReadFile(filepath.Join(src, p.file))
		if err != nil {
			return err
		}
		s := string(b)
		for i, e := range p.edits {
			if n := strings.Count(s, e.old); n != 1 {
				return fmt.Errorf("toolchain mismatch: %s edit %d matches %d times", p.file, i, n)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		if err := put(p.file, s); err != nil {
			return err
		}
	}
	b, err := os.ReadFile(filepath.Join(src, "syscall/zsyscall_linux_amd64.go"))
	if err != nil {
		return err
	}
	s := string(b)
	for _, f := range syscallRename {
		old := "\nfunc " + f + "("
		if strings.Count(s, old) != 1 {
			return fmt.Errorf("toolchain mismatch: syscall wrapper %s", f)
		}
		s = strings.Replace(s, old, "\nfunc real_"+f+"(", 1)
	}
	getpid := "\nfunc Getpid() (pid int) {\n"
	if !strings.Contains(s, getpid) {
		return fmt.Errorf("syscall.Getpid not found in the toolchain's sources")
	}
	s = strings.Replace(s, getpid, getpid+"\tif SimPid != 0 {\n\t\treturn SimPid\n\t}\n", 1)
	if err := put("syscall/zsyscall_linux_amd64.go", s); err != nil {
		return err
	}
	if err := put("syscall/zsim_linux.go", simSyscall); err != nil {
		return err
	}
	if err := put("runtime/zsim.go", simRuntime); err != nil {
		return err
	}
	// the simulator library, as a package of the repository's module
	for _, d := range []struct{ from, to string }{
		{"node", "internal/pkgrsim"}, {"spec", "internal/pkgrsimspec"},
	} {
		ents, err := os.ReadDir(filepath.Join(simDir, d.from))
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				repl[filepath.Join(repo, d.to, e.Name())] = filepath.Join(simDir, d.from, e.Name())
			}
		}
	}
	glue := filepath.Join(work, "glue.go")
	if err := os.WriteFile(glue, []byte("package main\n\nimport _ \"github.com/metrumresearchgroup/pkgr/internal/pkgrsim\"\n"), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(repo, "cmd/pkgr/zz_pkgrsim_glue.go")] = glue
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	ov := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		return err
	}
	args := []string{"build", "-trimpath", "-buildvcs=false", "-tags", "faketime", "-overlay", ov, "-o", out}
	if os.Getenv("PKGRSIM_COVER") != "" { // while developing: which code do the histories reach?
		args = append(args, "-cover", "-coverpkg="+os.Getenv("PKGRSIM_COVERPKG"))
	}
	cmd := exec.Command("go", append(args, "./cmd/pkgr")...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTELEMETRY=off")
	if o, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the node failed: %v\n%s", err, o)
	}
	return nil
}
