package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C27: inputs that arrive in pieces

type deliverCase struct {
	Work   *work   `json:",omitempty"`
	Pipe   []bool  `json:",omitempty"` // which files are FIFOs (standard input: a pipe)
	Chunks []int   // sizes of the pieces; the last one repeats
	Mode   string  // pieces; cat, head and ed: see runDeliver
	Ed     *edCase `json:",omitempty"`
}

func genDeliver(t *rapid.T) deliverCase {
	c := deliverCase{Mode: vh.Pick(t, "mode", "pieces", "pieces", "pieces", "ed pieces", "ed", "cat", "head")}
	c.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 10, 100, 511, 512, 513, 1000, 4095, 4096, 4097, 8192, 32768, 40000, 65536}), 1, 12).Draw(t, "pieces")
	switch c.Mode {
	case "ed pieces", "ed":
		e := genEdBase(t, 8)
		genHistory(t, &e, 10, 5, 5, vh.Pick(t, "bad", 0, 0, 2), 0)
		if vh.OneIn(t, 20, "null first") && e.Arg != "" { // the current line is the last
			e.Script = append([]edOpJ{{Cmd: "raw", Raw: ""}}, e.Script...)
		}
		finish(&e, edOp{Cmd: "w", File: "out"})
		if c.Mode == "ed" && e.Quit == "" {
			e.Quit = "q"
		}
		e.NoEnd = false
		c.Ed = &e
	case "cat":
		w := genWork(t, "cat")
		w.Files = w.Files[:1]
		w.Files[0].Name = vh.Pick[vh.S](t, "name", "", "-", "file0")
		if vh.Bool(t, "-u") {
			w.Opts = []vh.S{"-u"}
		}
		c.Work, c.Pipe = &w, []bool{true}
	case "head":
		n := vh.Int(t, 1, 12, "n")
		lines := vh.Int(t, n, n+20, "lines")
		data := vh.Blob{}
		for i := 0; i < lines; i++ {
			data = append(data, vh.Seg{B: vh.S(vh.GenLine(t, "line") + "\n"), N: 1})
		}
		w := work{Tool: "head", Opts: vh.Ss([]string{"-n", fmt.Sprint(n)}), Files: []fset{{vh.Pick[vh.S](t, "name", "", "-", "file0"), data, false}}}
		c.Work, c.Pipe = &w, []bool{true}
	default:
		w := genWork(t, "cat", "cksum", "cmp", "diff", "head", "tsort")
		c.Work = &w
		for range w.Files {
			c.Pipe = append(c.Pipe, vh.Int(t, 0, 3, "FIFO") > 0)
		}
	}
	return c
}

// pieces cuts data; after some pieces the rest comes in large ones.
func (c deliverCase) pieces(data string) (out []string) {
	for i := 0; data != ""; i++ {
		n := c.Chunks[min(i, len(c.Chunks)-1)]
		if i >= 25 {
			n = max(n, 20000)
		}
		n = min(n, len(data))
		out = append(out, data[:n])
		data = data[n:]
	}
	return
}

// feed is a writer whose pieces are each read before the next is written.
type feed struct {
	fd     int
	gone   bool           // the reader has closed its end
	done   <-chan bool    // the process has ended
	giveUp <-chan bool    // out of time
	after  func(int) bool // called when a number of bytes has been read; false to stop
}

func (f *feed) over() bool {
	select {
	case <-f.done:
		return true
	case <-f.giveUp:
		return true
	default:
		return false
	}
}

func (f *feed) readerGone() bool {
	pfd := struct {
		fd      int32
		events  int16
		revents int16
	}{int32(f.fd), 0, 0}
	n, _, _ := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&pfd)), 1, 0)
	return n == 1 && pfd.revents&0x18 != 0 // POLLERR, POLLHUP
}

func (f *feed) drained() bool {
	var n int32
	_, _, errno := syscall.Syscall(syscall.SYS_IOCTL, uintptr(f.fd), 0x541B, uintptr(unsafe.Pointer(&n)))
	return errno != 0 || n == 0
}

func (f *feed) run(pieces []string) {
	sent := 0
	for _, p := range pieces {
		for len(p) > 0 {
			n, err := syscall.Write(f.fd, []byte(p))
			if n > 0 {
				p = p[n:]
				sent += n
			}
			if err == syscall.EPIPE || f.over() {
				return
			}
			if err == syscall.EAGAIN {
				time.Sleep(20 * time.Microsecond)
			}
		}
		for spins := 0; !f.drained(); spins++ {
			if f.readerGone() || f.over() {
				return
			}
			if spins > 50 {
				time.Sleep(30 * time.Microsecond)
			}
		}
		if f.after != nil && !f.after(sent) {
			return
		}
	}
}

type lockedBuf struct {
	sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) Len() int {
	l.Lock()
	defer l.Unlock()
	return l.b.Len()
}

type source struct {
	fifo   string // "" for standard input
	pieces []string
	open   bool // do not close it before the process ends
	after  func(out *lockedBuf, sent int, over func() bool) bool
}

// stream runs a command whose inputs arrive in pieces.
func stream(e *vh.Env, c vh.Cmd, limit time.Duration, srcs ...source) vh.Result {
	cmd := exec.Command(filepath.Join(e.BinDir, c.Bin), c.Args...)
	cmd.Dir, cmd.Env = c.Dir, c.Env
	out, errb := &lockedBuf{}, &lockedBuf{}
	cmd.Stdout, cmd.Stderr = out, errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if e.UID != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(e.UID), Gid: uint32(e.UID)}
	}
	cmd.WaitDelay = 5 * time.Second
	done, giveUp := make(chan bool), make(chan bool)
	var rd *os.File
	fds := make([]int, len(srcs))
	for i, s := range srcs {
		if s.fifo != "" {
			if err := syscall.Mkfifo(s.fifo, 0666); err != nil {
				vh.Infra("mkfifo: %v", err)
			}
			os.Chmod(s.fifo, 0666)
			continue
		}
		var p [2]int
		if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
			vh.Infra("pipe: %v", err)
		}
		syscall.SetNonblock(p[1], true)
		rd, fds[i] = os.NewFile(uintptr(p[0]), "stdin"), p[1]
		cmd.Stdin = rd
	}
	if err := cmd.Start(); err != nil {
		vh.Infra("start: %v", err)
	}
	if rd != nil {
		rd.Close()
	}
	var wg sync.WaitGroup
	for i, s := range srcs {
		wg.Add(1)
		go func(i int, s source) {
			defer wg.Done()
			f := &feed{fd: fds[i], done: done, giveUp: giveUp}
			if s.after != nil {
				f.after = func(n int) bool { return s.after(out, n, f.over) }
			}
			if s.fifo != "" {
				for {
					fd, err := syscall.Open(s.fifo, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
					if err == nil {
						f.fd = fd
						break
					}
					if f.over() {
						return
					}
					time.Sleep(50 * time.Microsecond)
				}
			}
			f.run(s.pieces)
			for s.open && !f.over() {
				time.Sleep(100 * time.Microsecond)
			}
			syscall.Close(f.fd)
		}(i, s)
	}
	timer := time.AfterFunc(limit, func() {
		close(giveUp)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	cmd.Wait()
	stopped := timer.Stop()
	close(done)
	wg.Wait()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	r := vh.Result{Out: out.b.String(), Err: errb.b.String(), Exit: ws.ExitStatus(), TimedOut: !stopped}
	if ws.Signaled() {
		r.Exit, r.Signal = -1, ws.Signal()
	}
	return r
}

// streamTwice repeats a run that did not end in time, with a longer limit.
func streamTwice(e *vh.Env, c vh.Cmd, reset func(), srcs ...source) vh.Result {
	r := stream(e, c, 15*time.Second, srcs...)
	if r.TimedOut {
		for _, s := range srcs {
			if s.fifo != "" {
				os.Remove(s.fifo)
			}
		}
		reset()
		r = stream(e, c, 30*time.Second, srcs...)
	}
	return r
}

func runDeliver(e *vh.Env, c deliverCase) error {
	if c.Ed != nil {
		return runDeliverEd(e, c)
	}
	w := *c.Work
	d := e.Dir()
	defer e.Drop(d)
	cmd := w.cmd(e, d)
	base := e.Run(cmd)
	if err := cliTrouble(cmd, base); err != nil {
		return err
	}
	var srcs []source
	for i, f := range w.Files {
		s := source{pieces: c.pieces(f.Data.Bytes())}
		if i != w.stdin() {
			if !c.Pipe[i] {
				continue
			}
			s.fifo = onDisk(d, string(f.Name))
			if err := os.Remove(s.fifo); err != nil {
				vh.Infra("%v", err)
			}
		}
		switch c.Mode {
		case "cat": // what has been read is passed on before more is read
			s.after = func(out *lockedBuf, sent int, over func() bool) bool {
				for out.Len() < sent {
					if over() {
						return false
					}
					time.Sleep(20 * time.Microsecond)
				}
				return true
			}
		case "head": // it ends after its lines
			s.open = true
		}
		srcs = append(srcs, s)
	}
	r := streamTwice(e, cmd, func() {}, srcs...)
	what := fmt.Sprintf("%s %q with inputs in pieces of %v (%s)", w.Tool, cmd.Args, c.Chunks, c.Mode)
	if r.TimedOut {
		return &vh.Hang{Msg: what + " did not end, or waits for more input than it needs: " + r.String()}
	}
	if r.Exit != base.Exit || !w.sameOut(r.Out, base.Out) {
		return bad("%s: %v\nbut from regular files: %v", what, r, base)
	}
	return nil
}

// runDeliverEd compares ed's run with the model: the script arrives in pieces,
// or the next command is typed when the last one has been answered.
func runDeliverEd(e *vh.Env, c deliverCase) error {
	d := e.Dir()
	defer e.Drop(d)
	setup := func() {
		for _, n := range dirNames(d) {
			os.RemoveAll(filepath.Join(d, n))
		}
		e.Mkdir(filepath.Join(d, "sub"), 0755)
		for _, f := range c.Ed.Files {
			e.Write(filepath.Join(d, string(f.Name)), string(f.Data), os.FileMode(f.Mode))
		}
	}
	setup()
	m, want := c.Ed.newModel()
	input := ""
	var cmds []string
	var answered []int // output length when each command has been answered
	for i := range c.Ed.Script {
		op := edOp(c.Ed.Script[i])
		cmds = append(cmds, op.source())
		input += op.source()
		want = append(want, m.apply(&op))
		answered = append(answered, len(strings.Join(want, "")))
	}
	if c.Ed.Quit != "" {
		cmds = append(cmds, c.Ed.Quit+"\n")
		input += c.Ed.Quit + "\n"
		answered = append(answered, 0)
	}
	cmd := vh.Cmd{Bin: "ed", Dir: d, Env: []string{"PATH=/usr/bin", "HOME=/nonexistent", fmt.Sprintf("GOMAXPROCS=%d", c.Ed.Procs)}}
	if c.Ed.Arg != "" {
		cmd.Args = []string{string(c.Ed.Arg)}
	}
	s := source{pieces: c.pieces(input)}
	errorFree := true
	for _, a := range want {
		errorFree = errorFree && a != edError
	}
	if c.Mode == "ed" && errorFree {
		// every command in one or more pieces, then wait for the answer
		s.pieces, s.open = nil, true
		ends := map[int]int{}
		total := 0
		for i, cm := range cmds {
			total += len(cm)
			ends[total] = answered[i]
			if i%2 == 0 && len(cm) > 1 {
				k := c.Chunks[0] % len(cm)
				if k > 0 {
					s.pieces = append(s.pieces, cm[:k])
					cm = cm[k:]
				}
			}
			s.pieces = append(s.pieces, cm)
		}
		s.after = func(out *lockedBuf, sent int, over func() bool) bool {
			for out.Len() < ends[sent] {
				if over() {
					return false
				}
				time.Sleep(20 * time.Microsecond)
			}
			return true
		}
	}
	r := streamTwice(e, cmd, setup, s)
	typed := vh.Short(input)
	if r.TimedOut {
		return &vh.Hang{Msg: fmt.Sprintf("ed with input %s in pieces (%s) does not answer a command, or does not end: %v", typed, c.Mode, r)}
	}
	if r.Exit != 0 {
		return bad("ed with input %s in pieces: %v", typed, r)
	}
	if err := matchOutput(r.Out, want); err != nil {
		return bad("ed with input %s in pieces: %v\noutput %s", typed, err, vh.Short(r.Out))
	}
	return checkFiles(d, m, typed, false)
}

func init() {
	vh.Register("C27", "runs of cat, cksum, cmp, diff, head, tsort and ed whose inputs are pipes and FIFOs delivered in pieces, each read before the next is written, compared with the run on regular files (ed: with the model); cat, head and ed also with a writer that waits for the output; non-trivial: an input of at least two pieces",
		genDeliver, runDeliver, func(c deliverCase) (bool, []string) {
			if c.Ed != nil {
				return len(c.Ed.Script) > 1, []string{c.Mode}
			}
			n := 0
			for i, f := range c.Work.Files {
				if c.Pipe[i] || i == c.Work.stdin() {
					n = max(n, len(c.pieces(f.Data.Bytes())))
				}
			}
			return n > 1, []string{c.Mode + ": " + c.Work.Tool}
		})
}
