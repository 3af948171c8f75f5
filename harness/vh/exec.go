package vh

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Cmd is one run of a program.
type Cmd struct {
	Bin       string // tool name, or absolute path
	Args      []string
	Stdin     string
	StdinFile bool     // standard input is a regular file in Dir's parent, not a pipe
	Prefix    []string // command to run it under (strace)
	Dir       string
	Env       []string // complete environment; nil for a minimal one
	Unpriv    bool
	Timeout   time.Duration
	StdoutTo  string // standard output goes to this file instead of Result.Out

	StdoutAppend bool   // it is not truncated, but appended to
	StdinIs      string // "closed" or "dir" (the directory) instead of Stdin
}

// Result is what a run did.
type Result struct {
	Out, Err string
	Exit     int // -1 when killed by a signal
	Signal   syscall.Signal
	TimedOut bool
}

func (r Result) String() string {
	return fmt.Sprintf("exit=%d signal=%v stdout=%s stderr=%s", r.Exit, r.Signal, Short(r.Out), Short(r.Err))
}

// Short quotes a string, shortened.
func Short(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%q…(%d bytes)…%q", s[:400], len(s), s[len(s)-150:])
	}
	return fmt.Sprintf("%q", s)
}

// Crashed tells whether a Go runtime crash or a fatal signal ended the run.
func (r Result) Crashed() bool {
	if r.Exit < 0 {
		return true
	}
	return r.Exit == 2 && (strings.Contains(r.Err, "goroutine ") && (strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:")))
}

// Dir makes an empty directory for one case; Drop removes it.
func (e *Env) Dir() string {
	e.n++
	d := filepath.Join(e.Scratch, fmt.Sprintf("c%d", e.n))
	if err := os.Mkdir(d, 0755); err != nil {
		Infra("%v", err)
	}
	if e.UID != 0 {
		if err := os.Chown(d, e.UID, e.UID); err != nil {
			Infra("%v", err)
		}
	}
	return d
}

// Drop removes a directory made by Dir.
func (e *Env) Drop(d string) {
	if !strings.HasPrefix(d, e.Scratch+"/c") {
		Infra("will not remove %s", d)
	}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0700)
		}
		return nil
	})
	os.RemoveAll(d)
}

// Write makes a file owned by the unprivileged user.
func (e *Env) Write(path, data string, mode os.FileMode) {
	if err := os.WriteFile(path, []byte(data), mode); err != nil {
		Infra("%v", err)
	}
	if e.UID != 0 {
		if err := os.Chown(path, e.UID, e.UID); err != nil {
			Infra("%v", err)
		}
	}
	if err := os.Chmod(path, mode); err != nil {
		Infra("%v", err)
	}
}

// Mkdir makes a directory owned by the unprivileged user.
func (e *Env) Mkdir(path string, mode os.FileMode) {
	if err := os.Mkdir(path, mode); err != nil {
		Infra("%v", err)
	}
	if e.UID != 0 {
		if err := os.Chown(path, e.UID, e.UID); err != nil {
			Infra("%v", err)
		}
	}
	if err := os.Chmod(path, mode); err != nil {
		Infra("%v", err)
	}
}

// Run runs a tool to its end. A run that does not end in time is repeated once
// with a longer limit, so that a busy machine does not look like a hang.
func (e *Env) Run(c Cmd) Result {
	t := c.Timeout
	if t == 0 {
		t = 20 * time.Second
	}
	r := e.run1(c, t)
	if r.TimedOut {
		r = e.run1(c, 2*t)
	}
	return r
}

// Once runs a tool without repeating it.
func (e *Env) Once(c Cmd) Result { return e.run1(c, c.Timeout) }

func (e *Env) run1(c Cmd, limit time.Duration) Result {
	bin := c.Bin
	if !filepath.IsAbs(bin) {
		bin = filepath.Join(e.BinDir, bin)
	}
	cmd := exec.Command(bin, c.Args...)
	if len(c.Prefix) > 0 {
		cmd = exec.Command(c.Prefix[0], append(append(append([]string{}, c.Prefix[1:]...), bin), c.Args...)...)
	}
	cmd.Dir = c.Dir
	cmd.Stdin = strings.NewReader(c.Stdin)
	if c.Stdin == "" {
		cmd.Stdin = nil
	}
	if c.StdinFile {
		in := filepath.Join(e.Scratch, "stdin")
		if err := os.WriteFile(in, []byte(c.Stdin), 0644); err != nil {
			Infra("%v", err)
		}
		f, err := os.Open(in)
		if err != nil {
			Infra("%v", err)
		}
		defer f.Close()
		cmd.Stdin = f
	}
	switch c.StdinIs {
	case "dir":
		f, err := os.Open(c.Dir)
		if err != nil {
			Infra("%v", err)
		}
		defer f.Close()
		cmd.Stdin = f
	case "closed":
		cmd = exec.Command("/bin/sh", append([]string{"-c", `exec "$0" "$@" <&-`, bin}, c.Args...)...)
		cmd.Dir = c.Dir
	}
	out := &capped{max: 64 << 20}
	errb := &capped{max: 8 << 20}
	cmd.Stdout, cmd.Stderr = out, errb
	if c.StdoutTo != "" {
		flag := os.O_WRONLY | os.O_TRUNC
		if c.StdoutAppend {
			flag = os.O_WRONLY | os.O_APPEND
		}
		f, err := os.OpenFile(c.StdoutTo, flag, 0)
		if err != nil {
			Infra("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	cmd.Env = c.Env
	if cmd.Env == nil {
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=all"}
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.Unpriv && e.UID != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(e.UID), Gid: uint32(e.UID)}
	}
	// A child of the tool must not keep us waiting on the pipes
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		if strings.Contains(err.Error(), "invalid argument") || strings.Contains(err.Error(), "argument list too long") {
			Infra("bad arguments %q: %v", c.Args, err)
		}
		Infra("start %s: %v", bin, err)
	}
	timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	stopped := timer.Stop()
	res := Result{Out: out.String(), Err: errb.String(), TimedOut: !stopped || out.over || errb.over}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	res.Exit = ws.ExitStatus()
	if ws.Signaled() {
		res.Exit = -1
		res.Signal = ws.Signal()
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok && !res.TimedOut {
			// e.g. the tool closed its standard input early: not our concern
			if err != exec.ErrWaitDelay && !strings.Contains(err.Error(), "broken pipe") {
				Infra("wait %s: %v", bin, err)
			}
		}
	}
	return res
}

type capped struct {
	bytes.Buffer
	max  int
	over bool
}

func (c *capped) Write(p []byte) (int, error) {
	if c.Len()+len(p) > c.max {
		c.over = true
		return 0, fmt.Errorf("too much output")
	}
	return c.Buffer.Write(p)
}
