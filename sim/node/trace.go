// Package pkgrsim is linked into pkgr for simulated runs only.  It takes over
// the file system calls, the network, child processes, the clock and the
// scheduler, and drives them all from one seed.
package pkgrsim

import (
	"runtime"
	"strconv"
	"strings"
	"syscall"
)

var nEvents int

// emit appends one line to the trace (descriptor 3): no hooks, no yields.
func emit(kind string, f ...string) {
	nEvents++
	var b []byte
	d, br, h := runtime.SimStats()
	b = append(b, kind...)
	b = append(b, '\t')
	b = strconv.AppendInt(b, runtime.SimNow(), 10)
	b = append(b, '\t')
	b = strconv.AppendUint(b, d, 10)
	b = append(b, '\t')
	b = strconv.AppendUint(b, br, 10)
	b = append(b, '\t')
	b = strconv.AppendUint(b, h, 16)
	for _, s := range f {
		b = append(b, '\t')
		if strings.ContainsAny(s, "\t\n\\") {
			s = strconv.Quote(s)
		}
		b = append(b, s...)
	}
	b = append(b, '\n')
	rawWrite(3, b)
}

func rawWrite(fd int, b []byte) {
	hook := hooksOn
	hooksOn = false
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err != nil {
			break
		}
		b = b[n:]
	}
	hooksOn = hook
}

func itoa(n int) string { return strconv.Itoa(n) }
