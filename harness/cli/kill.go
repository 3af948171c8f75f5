package main

import (
	"bufio"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C11

type killCase struct {
	Form    string // name, number, none, bad
	Name    vh.S   // as written
	Signal  int
	Live    int   // number of live targets
	Order   []int // pids to name: index of a live target, -1 for a dead process
	Trouble string
	Zeros   bool // the process IDs are written with leading zeros
	Last    bool // the signal option comes after the process IDs
}

var killNames = map[string]int{"0": 0, "HUP": 1, "INT": 2, "QUIT": 3, "ABRT": 6, "KILL": 9, "ALRM": 14, "TERM": 15}

func genKill(t *rapid.T) killCase {
	c := killCase{}
	c.Live = vh.Int(t, 1, 4, "live")
	if vh.OneIn(t, 40, "many live") {
		c.Live = vh.Int(t, 5, 20, "live")
	}
	c.Zeros = vh.OneIn(t, 12, "leading zeros")
	perm := []int{}
	for i := 0; i < c.Live; i++ {
		perm = append(perm, i)
	}
	perm = rapid.Permutation(perm).Draw(t, "order")
	perm = perm[:vh.Int(t, 1, c.Live, "named")]
	c.Order = append(c.Order, perm...)
	if vh.OneIn(t, 4, "dead") {
		k := vh.Int(t, 1, 2, "how many")
		for i := 0; i < k; i++ {
			at := vh.Int(t, 0, len(c.Order), "where")
			c.Order = append(c.Order[:at:at], append([]int{-1}, c.Order[at:]...)...)
		}
	}
	c.Form = vh.Pick(t, "form", "name", "name", "number", "number", "none")
	switch c.Form {
	case "name":
		n := vh.Pick(t, "signal", "TERM", "HUP", "INT", "QUIT", "ABRT", "KILL", "ALRM", "0")
		c.Signal = killNames[n]
		switch vh.Int(t, 0, 3, "case") {
		case 1:
			n = strings.ToLower(n)
		case 2:
			b := []byte(strings.ToLower(n))
			i := vh.Int(t, 0, len(b)-1, "upper")
			b[i] = strings.ToUpper(string(b[i : i+1]))[0]
			n = string(b)
		}
		c.Name = vh.S(n)
	case "number":
		for {
			c.Signal = vh.Pick(t, "signal", 15, 1, 2, 3, 6, 9, 14, 0)
			if vh.OneIn(t, 3, "any number") {
				c.Signal = vh.Int(t, 1, 64, "number")
			}
			// STOP cannot be received, 32 and 33 belong to the C library, 44 is ours
			if c.Signal == 19 || c.Signal == 32 || c.Signal == 33 || c.Signal == 44 {
				c.Signal = 10
			}
			break
		}
		c.Name = vh.S(strconv.Itoa(c.Signal))
	default:
		c.Signal = 15
	}
	c.Last = c.Form != "none" && vh.OneIn(t, 6, "option last")
	if vh.OneIn(t, 7, "trouble") {
		c.Trouble = vh.Pick(t, "what", "unknown signal", "unknown number", "bad pid", "no pid", "no value", "nothing")
		switch c.Trouble {
		case "unknown signal":
			c.Form, c.Name, c.Last = "name", vh.S(vh.Pick(t, "bad", "FOO", "TERMX", "", "TER", "-", "15x", "HUP ")), false
		case "unknown number":
			c.Form, c.Name, c.Last = "number", vh.S(vh.Pick(t, "bad", "99", "65", "1000", "15x", "x", "1.5", "", "-9", "-15", "-1", " 15", "0x9", "256", "271", "65551", "4294967311")), false
		case "bad pid":
			c.Name = vh.S(vh.Pick(t, "bad", "abc", "1x", "12.5", "0x1", "", "%1", "wrap", "wrap", "hex", "hex", "underscore", "space", "space before", "fraction", "exponent", "18446744073709551615"))
		}
	}
	return c
}

// target is a running receiver.
type target struct {
	cmd  *exec.Cmd
	in   *bufio.Reader
	pipe *os.File
	dead bool
}

type killPool struct{ ts []*target }

func (e *killEnv) spawn() *target {
	r, w, err := os.Pipe()
	if err != nil {
		vh.Infra("%v", err)
	}
	cmd := exec.Command(filepath.Join(e.BinDir, "target"))
	cmd.Stdout = w
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if e.UID != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(e.UID), Gid: uint32(e.UID)}
	}
	if err := cmd.Start(); err != nil {
		vh.Infra("%v", err)
	}
	w.Close()
	t := &target{cmd: cmd, in: bufio.NewReader(r), pipe: r}
	if l := t.line(); l != "ready" {
		vh.Infra("target says %q", l)
	}
	return t
}

func (t *target) line() string {
	t.pipe.SetReadDeadline(time.Now().Add(60 * time.Second))
	l, err := t.in.ReadString('\n')
	if os.IsTimeout(err) {
		vh.Infra("target does not answer")
	}
	if err != nil {
		return "end"
	}
	return strings.TrimSpace(l)
}

// collect returns the signals received since the last time; 9 means it was killed.
func (t *target) collect() []int {
	// sigqueue, so that a 44 sent by kill cannot be taken for ours
	var si [128]byte
	*(*int32)(unsafe.Pointer(&si[0])) = 44
	*(*int32)(unsafe.Pointer(&si[8])) = -1 // SI_QUEUE
	syscall.Syscall(syscall.SYS_RT_SIGQUEUEINFO, uintptr(t.cmd.Process.Pid), 44, uintptr(unsafe.Pointer(&si[0])))
	var got []int
	for {
		l := t.line()
		if l == "done" {
			break
		}
		if l == "end" {
			t.cmd.Wait()
			ws := t.cmd.ProcessState.Sys().(syscall.WaitStatus)
			t.dead = true
			t.pipe.Close()
			if !ws.Signaled() {
				vh.Infra("target ended: %v", ws)
			}
			got = append(got, int(ws.Signal()))
			break
		}
		n, err := strconv.Atoi(l)
		if err != nil {
			vh.Infra("target says %q", l)
		}
		got = append(got, n)
	}
	sort.Ints(got)
	return got
}

func (t *target) kill() {
	if !t.dead {
		t.cmd.Process.Kill()
		t.cmd.Wait()
		t.pipe.Close()
		t.dead = true
	}
}

type killEnv struct {
	*vh.Env
	ts []*target // targets and, last, a bystander
}

var theKillEnv *killEnv

func deadPid(e *vh.Env) int {
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Run(); err != nil {
		vh.Infra("%v", err)
	}
	return cmd.Process.Pid
}

func runKill(e *vh.Env, c killCase) error {
	if e.UID == 0 {
		vh.Infra("kill is only checked as an unprivileged user")
	}
	if theKillEnv == nil {
		theKillEnv = &killEnv{Env: e}
	}
	ke := theKillEnv
	// Targets are used again while they live
	var live []*target
	for _, t := range ke.ts {
		if !t.dead {
			live = append(live, t)
		}
	}
	for len(live) < c.Live+1 {
		live = append(live, ke.spawn())
	}
	ke.ts = live
	sel := live[:c.Live]
	var pids []string
	dead := 0
	for _, o := range c.Order {
		if o < 0 {
			pids = append(pids, strconv.Itoa(deadPid(e)))
			dead++
		} else {
			pid := strconv.Itoa(sel[o].cmd.Process.Pid)
			if c.Zeros {
				pid = "000"[:1+o%3] + pid
			}
			pids = append(pids, pid)
		}
	}
	var opt []string
	name := string(c.Name)
	switch c.Form {
	case "name":
		opt = []string{"-s", name}
	case "number":
		opt = []string{"-" + name}
	}
	fatal := false
	switch c.Trouble {
	case "unknown signal", "unknown number":
		fatal = true
	case "bad pid":
		opt = nil
		// what a lenient reader takes for the bystander
		pid := live[c.Live].cmd.Process.Pid
		switch dec := strconv.Itoa(pid); name {
		case "wrap": // in the last 32 bits
			name = strconv.Itoa(1<<32 + pid)
		case "hex":
			name = "0x" + strconv.FormatInt(int64(pid), 16)
		case "underscore":
			name = dec[:1] + "_" + dec[1:]
		case "space":
			name = dec + " "
		case "space before":
			name = " " + dec
		case "fraction":
			name = dec + ".0"
		case "exponent":
			name = dec + "e0"
		}
		pids = append(pids, name)
		fatal = true
	case "no pid":
		if c.Form == "none" {
			opt = []string{"-s", "TERM"}
		} else if c.Form == "name" {
			opt = []string{"-s", name}
		}
		pids = nil
	case "no value":
		opt = nil
		pids = append(pids, "-s")
		fatal = true
	case "nothing":
		opt, pids = nil, nil
	}
	args := append(append([]string{}, opt...), pids...)
	if c.Last {
		args = append(append([]string{}, pids...), opt...)
	}
	cmd := vh.Cmd{Bin: "kill", Args: args, Dir: e.Scratch, Unpriv: true, Timeout: 20 * time.Second}
	r := e.Once(cmd)
	if r.TimedOut {
		return &vh.Hang{Msg: "kill did not end"}
	}
	named := map[int]bool{}
	for _, o := range c.Order {
		if o >= 0 {
			named[o] = true
		}
	}
	var fail error
	for i, t := range live {
		got := t.collect()
		var want []int
		if i < c.Live && named[i] && c.Signal != 0 && len(pids) > 0 {
			want = []int{c.Signal}
		}
		// When an argument is bad it is not said whether the others are signalled
		if fatal && i < c.Live && named[i] {
			continue
		}
		if len(got) != len(want) || (len(got) == 1 && got[0] != want[0]) {
			who := "named process"
			if len(want) == 0 {
				who = "process"
			}
			if fail == nil {
				fail = bad("kill %q: a %s received %v, should be %v (%v)", args, who, got, want, r)
			}
		}
	}
	if fail != nil {
		return fail
	}
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if c.Trouble != "" || dead > 0 {
		if r.Exit == 0 || r.Err == "" {
			return bad("kill %q (%s, %d dead): should exit non-zero with a diagnostic: %v", args, c.Trouble, dead, r)
		}
		return nil
	}
	if r.Exit != 0 {
		return bad("kill %q: should exit 0: %v", args, r)
	}
	return nil
}

func init() {
	vh.Register("C11", "every signal spelling and number, lists of live and dead processes and bad arguments, sent to receiver processes of an unprivileged user with a bystander; non-trivial: at least two processes are named or an argument is bad",
		genKill, runKill, func(c killCase) (bool, []string) {
			l := []string{c.Form, strconv.Itoa(c.Signal)}
			if c.Trouble != "" {
				l = []string{"trouble " + c.Trouble}
			}
			for _, o := range c.Order {
				if o < 0 {
					l = append(l, "dead process")
					break
				}
			}
			return len(c.Order) > 1 || c.Trouble != "", l
		})
}
