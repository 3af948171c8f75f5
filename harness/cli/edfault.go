package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C20: saving, with and without faults

type saveCase struct {
	Hist  *edCase    `json:",omitempty"`
	Fault *faultCase `json:",omitempty"`
}

type faultCase struct {
	Old    vh.S
	Mode   int
	Script []edOpJ
	Swap   bool   // the user has a file f.swp
	Kind   string // error, kill, fsize
	Step   int    // which system call of the save (modulo their number), or the size limit
	Errno  string
}

func genSave(t *rapid.T) saveCase {
	if vh.Int(t, 0, 3, "faults?") < 3 {
		h := genC20(t)
		return saveCase{Hist: &h}
	}
	f := &faultCase{Mode: vh.Pick(t, "mode", 0644, 0600, 0755)}
	c := edCase{}
	c.Files = []edStart{{"f", vh.S(genEdFile(t, 6)), 0644}}
	if vh.OneIn(t, 8, "empty file") {
		c.Files[0].Data = ""
	}
	c.Arg = "f"
	genHistory(t, &c, 4, 1, 0, 0, 0)
	f.Old = c.Files[0].Data
	f.Script = c.Script
	f.Swap = vh.OneIn(t, 3, "swap file")
	f.Kind = vh.Pick(t, "kind", "error", "error", "kill", "kill", "fsize")
	f.Step = vh.Pick(t, "step", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19)
	f.Errno = vh.Pick(t, "errno", "ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EINTR", "EMFILE")
	return saveCase{Fault: f}
}

const faultCalls = "openat,creat,write,pwrite64,writev,fchmod,fchmodat,chmod,fsync,fdatasync,ftruncate,truncate,close,rename,renameat,renameat2,unlink,unlinkat,link,linkat,newfstatat,fallocate,copy_file_range,sendfile"

var writtenPath = regexp.MustCompile(`^\d+<([^>]*)>, `)
var closedPath = regexp.MustCompile(`^\d+<([^>]*)>`)
var straceLine = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)$`)

type tracedCall struct {
	name     string
	nth      int // of this name in its thread
	args     string
	injected bool
}

// readTrace lists the calls of a trace.
func readTrace(path string) []tracedCall {
	data, err := os.ReadFile(path)
	if err != nil {
		vh.Infra("%v", err)
	}
	count := map[string]int{}
	var out []tracedCall
	for _, l := range strings.Split(string(data), "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			// the end of an interrupted call
			if strings.Contains(l, "(INJECTED)") {
				out = append(out, tracedCall{name: "resumed", args: l, injected: true})
			}
			continue
		}
		count[m[1]+m[2]]++
		out = append(out, tracedCall{m[2], count[m[1]+m[2]], m[3], strings.Contains(m[3], "(INJECTED)")})
	}
	return out
}

func (f *faultCase) run(e *vh.Env, trace []string, prefix []string, d string, ops []edOp) vh.Result {
	e.Write(filepath.Join(d, "f"), string(f.Old), os.FileMode(f.Mode))
	if f.Swap {
		e.Write(filepath.Join(d, "f.swp"), "mine\n", 0644)
	}
	input := ""
	for i := range ops {
		input += ops[i].source()
	}
	input += "w\nw other\nq\n"
	cmd := vh.Cmd{Bin: "ed", Args: []string{"f"}, Dir: d, Stdin: input, StdinFile: true, Unpriv: true, Prefix: append(prefix, trace...),
		Env: []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOMAXPROCS=1"}}
	return e.Run(cmd)
}

func runFault(e *vh.Env, f *faultCase) error {
	if e.UID == 0 {
		vh.Infra("faults are only injected as an unprivileged user")
	}
	base := e.Dir()
	defer e.Drop(base)
	var ops []edOp
	for _, o := range f.Script {
		ops = append(ops, edOp(o))
	}
	// The model: what both files should hold
	c := edCase{Files: []edStart{{"f", f.Old, f.Mode}}, Arg: "f"}
	m, want := c.newModel()
	input := ""
	for i := range ops {
		want = append(want, m.apply(&ops[i]))
		input += ops[i].source()
	}
	old := string(f.Old)
	oldFile := &edFile{Raw: &old}
	m.apply(&edOp{Cmd: "w"})
	newFile := m.files["f"]

	d := filepath.Join(base, "run")
	e.Mkdir(d, 0755)
	log := filepath.Join(base, "log")
	what := ""
	single := false
	lost := false   // closing a written file failed
	litter := false // removing a file failed
	var r vh.Result
	switch f.Kind {
	case "fsize":
		limit := f.Step
		what = fmt.Sprintf("file size limit %d", limit)
		r = f.run(e, nil, []string{"prlimit", "--fsize=" + strconv.Itoa(limit)}, d, ops)
	default:
		dry := filepath.Join(base, "dry")
		e.Mkdir(dry, 0755)
		r0 := f.run(e, nil, []string{"strace", "-f", "-y", "-o", log, "-e", "trace=" + faultCalls}, dry, ops)
		if r0.Exit != 0 || r0.TimedOut {
			if strings.Contains(r0.Err, "strace:") || r0.TimedOut {
				vh.Infra("strace: %v", r0)
			}
			return bad("ed with input %s fails: %v", vh.Short(input), r0)
		}
		var steps []tracedCall
		started := false
		for _, call := range readTrace(log) {
			if strings.HasPrefix(call.args, "1<") && call.name == "write" {
				started = true // the file has been read
			}
			if started && strings.Contains(call.args, dry) {
				steps = append(steps, call)
			}
		}
		if len(steps) == 0 {
			vh.Infra("no system call of the save found in %s", log)
		}
		s := steps[f.Step%len(steps)]
		inj := fmt.Sprintf("inject=%s:error=%s:when=%d", s.name, f.Errno, s.nth)
		if f.Kind == "kill" {
			inj = fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", s.name, s.nth)
		}
		what = inj
		r = f.run(e, nil, []string{"strace", "-f", "-y", "-o", log, "-e", "trace=" + faultCalls, "-e", inj}, d, ops)
		vh.Count("injected into "+s.name+" ("+f.Kind+")", 1)
		n, early := 0, 0
		written := map[string]bool{}
		started = false
		for _, call := range readTrace(log) {
			if strings.HasPrefix(call.args, "1<") && call.name == "write" {
				started = true
			}
			if m := writtenPath.FindStringSubmatch(call.args); m != nil && strings.HasPrefix(call.name, "write") {
				written[m[1]] = true
			}
			if call.injected {
				n++
				single = strings.Contains(call.args, d)
				if m := closedPath.FindStringSubmatch(call.args); m != nil && call.name == "close" && written[m[1]] && f.Errno != "EINTR" {
					lost = true
				}
				if !started {
					early++
				}
			}
		}
		if f.Kind == "error" && early > 0 {
			// another thread than in the first run made the call: the fault hit
			// the start of ed instead of the save, and the buffer is not the model's
			vh.Count("faults that hit another call", 1)
			return nil
		}
		single = single && n == 1
		litter = strings.HasPrefix(s.name, "unlink")
		if f.Kind == "error" && n == 0 {
			vh.Count("faults that did not take place", 1)
		}
	}
	if r.TimedOut {
		return &vh.Hang{Msg: fmt.Sprintf("ed with input %s and %s did not end", vh.Short(input), what)}
	}
	fail := func(format string, args ...any) error {
		return bad("ed with input %s, old file %s and %s: %s (%v)", vh.Short(input+"w\nw other\n"), vh.Short(old), what, fmt.Sprintf(format, args...), r)
	}
	// Whatever happened, no file is damaged
	data, err := os.ReadFile(filepath.Join(d, "f"))
	if err != nil {
		return fail("the file is gone: %v", err)
	}
	isOld, isNew := oldFile.matches(string(data)), newFile.matches(string(data))
	if !isOld && !isNew {
		return fail("the file holds %s, neither the old nor the new text", vh.Short(string(data)))
	}
	other, err := os.ReadFile(filepath.Join(d, "other"))
	haveOther := err == nil
	if haveOther && !newFile.matches(string(other)) {
		return fail("the file 'other' holds %s", vh.Short(string(other)))
	}
	if f.Swap {
		if b, _ := os.ReadFile(filepath.Join(d, "f.swp")); string(b) != "mine\n" {
			return fail("the user's f.swp holds %s", vh.Short(string(b)))
		}
	}
	if f.Kind != "error" || !single {
		return nil
	}
	// One call of the save failed: at most one of the two writes failed
	vh.Count("single failed calls of a save", 1)
	if r.Exit != 0 {
		return fail("ed does not go on")
	}
	ok := func(a, b string) bool {
		return matchOutput(r.Out, append(append([]string{}, want...), a, b)) == nil
	}
	switch {
	case ok("\n", "\n"):
		if !isNew || !haveOther || lost {
			return fail("ed reports success")
		}
	case ok(edError, "\n"):
		if !isOld || !haveOther {
			return fail("ed reports that the first write failed")
		}
	case ok("\n", edError):
		if !isNew || haveOther {
			return fail("ed reports that the second write failed")
		}
	default:
		return fail("unexpected responses")
	}
	for _, name := range dirNames(d) {
		if name != "f" && name != "other" && !(f.Swap && name == "f.swp") && !litter {
			return fail("the file %q is left behind", name)
		}
	}
	if fi, err := os.Stat(filepath.Join(d, "f")); err != nil || int(fi.Mode().Perm()) != f.Mode {
		return fail("the mode of the file has changed: %v", fi.Mode())
	}
	return nil
}

func runSave(e *vh.Env, c saveCase) error {
	if c.Hist != nil {
		return runEd(e, *c.Hist)
	}
	return runFault(e, c.Fault)
}

func init() {
	hist := classEd(kinds("w", "w name", "m,nw", "e"), 1)
	vh.Register("C20", "histories of edits and w, w name, m,nw name, e, with failing ones, compared with a model of buffer and files; and saves during which a system call fails, ed is killed, or a size limit is hit; non-trivial: at least one file command takes effect, or a fault is injected",
		genSave, runSave, func(c saveCase) (bool, []string) {
			if c.Hist != nil {
				return hist(*c.Hist)
			}
			return true, []string{"fault " + c.Fault.Kind}
		})
}
