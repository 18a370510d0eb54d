// Package cli runs the built diskii command on scratch files.
package cli

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/fw"
)

// Result is what one run of the command did.
type Result struct {
	Args  []string
	Code  int
	Out   []byte
	Err   []byte
	Crash string // non-empty if it panicked, was killed, or did not terminate
}

var crashRe = regexp.MustCompile(`(panic|fatal error): [^\n]*`)

const (
	cpuSeconds = 20
	wallLimit  = 200 * time.Second
	asLimit    = 6 << 30
	outLimit   = 64 << 20
)

type capped struct {
	bytes.Buffer
	over bool
}

func (c *capped) Write(p []byte) (int, error) {
	if c.Len()+len(p) > outLimit {
		c.over = true
		return len(p), nil
	}
	return c.Buffer.Write(p)
}

// Opt alters a run.
type Opt func(*exec.Cmd)

// Stdin feeds the command's standard input.
func Stdin(b []byte) Opt { return func(c *exec.Cmd) { c.Stdin = bytes.NewReader(b) } }

// StdoutTo connects standard output to a file (such as /dev/full).
func StdoutTo(f *os.File) Opt { return func(c *exec.Cmd) { c.Stdout = f } }

// Run runs the command in dir.
func Run(e *fw.Env, dir string, args []string, opts ...Opt) Result {
	c := exec.Command(e.Diskii, args...)
	c.Dir = dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=single"}
	so, se := &capped{}, &capped{}
	c.Stdout, c.Stderr = so, se
	for _, o := range opts {
		o(c)
	}
	r := Result{Args: args}
	if err := c.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", e.Diskii, err))
	}
	prlimit(c.Process.Pid, syscall.RLIMIT_CPU, cpuSeconds, cpuSeconds+5)
	prlimit(c.Process.Pid, syscall.RLIMIT_AS, asLimit, asLimit)
	timer := time.AfterFunc(wallLimit, func() { _ = c.Process.Kill() })
	err := c.Wait()
	killed := !timer.Stop()
	r.Out, r.Err = so.Bytes(), se.Bytes()
	ps := c.ProcessState
	ws, _ := ps.Sys().(syscall.WaitStatus)
	cpu := ps.UserTime() + ps.SystemTime()
	r.Code = ps.ExitCode()
	switch {
	case killed || cpu >= cpuSeconds*time.Second:
		r.Crash = fmt.Sprintf("does not terminate (used %v of CPU time)", cpu)
	case ws.Signaled():
		r.Crash = fmt.Sprintf("killed by signal %v", ws.Signal())
	case bytes.Contains(r.Err, []byte("goroutine ")) && (bytes.Contains(r.Err, []byte("panic: ")) || bytes.Contains(r.Err, []byte("fatal error: "))):
		r.Crash = crashRe.FindString(string(r.Err))
	case so.over:
		r.Crash = "endless output"
	case err != nil && r.Code < 0:
		r.Crash = err.Error()
	}
	return r
}

// RunV is Run, except that about a quarter of the command lines (chosen by
// the case and their text) get debugging messages switched on, which may only add to
// standard error.
func RunV(e *fw.Env, dir string, args []string, opts ...Opt) Result {
	h := fnv.New32a()
	fmt.Fprint(h, e.Salt())
	for _, a := range args {
		_, _ = h.Write(append([]byte(a), 0))
	}
	switch h.Sum32() >> 7 % 16 {
	case 0, 1, 2:
		args = append([]string{"-vv"}, args...)
	case 3:
		args = append([]string{"-v"}, args...)
	}
	return Run(e, dir, args, opts...)
}

func prlimit(pid, res int, soft, hard uint64) {
	rl := [2]uint64{soft, hard}
	_, _, _ = syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&rl)), 0, 0, 0)
}

// OK fails the case unless the run ended normally with exit 0.
func (r Result) OK(e *fw.Env) Result {
	e.Check(r.Crash == "", "diskii %q: %s", r.Args, r.Crash)
	e.Check(r.Code == 0, "diskii %q: exit %d, want success; stderr: %.300s", r.Args, r.Code, r.Err)
	return r
}

// Refused fails the case unless the run ended with an error exit and a message.
func (r Result) Refused(e *fw.Env) Result {
	e.Check(r.Crash == "", "diskii %q: %s", r.Args, r.Crash)
	e.Check(r.Code != 0, "diskii %q: exit 0, want a refusal", r.Args)
	e.Check(len(bytes.TrimSpace(r.Err)) > 0, "diskii %q: exit %d without a message on stderr", r.Args, r.Code)
	return r
}

// Write writes a scratch file and returns its path.
func Write(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if strings.Contains(name, "/") {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

// Read reads a scratch file.
func Read(e *fw.Env, dir, name string) []byte {
	b, err := os.ReadFile(filepath.Join(dir, name))
	e.Check(err == nil, "cannot read %s: %v", name, err)
	return b
}

// Snapshot is the content of every file below a directory, by relative path.
func Snapshot(dir string) map[string]string {
	m := map[string]string{}
	var walk func(rel string)
	walk = func(rel string) {
		ents, err := os.ReadDir(filepath.Join(dir, rel))
		if err != nil {
			panic(err)
		}
		for _, d := range ents {
			name := filepath.Join(rel, d.Name())
			if d.IsDir() {
				m[name] = "<dir>"
				walk(name)
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, name))
			if err != nil {
				panic(err)
			}
			m[name] = string(b)
		}
	}
	walk("")
	return m
}

// Unchanged fails the case if the files of dir are not those of the snapshot.
func Unchanged(e *fw.Env, dir string, was map[string]string, what any) {
	now := Snapshot(dir)
	for k, v := range was {
		w, ok := now[k]
		e.Check(ok, "%v: file %s is gone", what, k)
		e.Check(w == v, "%v: file %s changed (%s)", what, k, Diff([]byte(v), []byte(w)))
	}
	for k := range now {
		_, ok := was[k]
		e.Check(ok, "%v: file %s was created", what, k)
	}
}

// Diff describes the first difference of two byte strings.
func Diff(want, got []byte) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("lengths %d and %d, first difference at byte 0x%X: want %02X, got %02X", len(want), len(got), i, want[i], got[i])
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("want %d bytes, got %d", len(want), len(got))
	}
	return "equal"
}
