package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C26: failed reads and writes

type ioCase struct {
	Work  work
	Kind  string // full: no byte can be written; limit: only some; read, open: the call on a file fails; write: one on stdout does
	Limit int    // bytes that can be written, modulo two more than there are
	File  int    // which file
	When  int    // which call on it
	Errno string
}

func genIO(t *rapid.T) ioCase {
	c := ioCase{Kind: vh.Pick(t, "kind", "read", "read", "full", "limit", "limit", "open", "write", "write")}
	tools := []string{"cat", "cksum", "cmp", "diff", "head", "tsort"}
	if c.Kind == "full" || c.Kind == "limit" || c.Kind == "write" {
		tools = append(tools, "locale")
	}
	c.Work = genWork(t, tools...)
	switch c.Kind {
	case "limit":
		c.Limit = vh.Pick(t, "near", vh.Int(t, 0, 40, "limit"), vh.Int(t, 0, 200000, "far limit"))
	case "write":
		c.When = vh.Pick(t, "when", 1, 1, 2, 2, 3, 4, 5, 8, 12)
		c.Errno = vh.Pick(t, "errno", "EIO", "ENOSPC", "EDQUOT", "EINTR")
	case "read", "open":
		c.File = vh.Int(t, 0, len(c.Work.Files)-1, "file")
		c.When = 1
		if c.Kind == "read" {
			c.When = vh.Pick(t, "when", 1, 1, 2, 2, 3, 4, 5, 8, 12)
		}
		c.Errno = vh.Pick(t, "errno", "EIO", "EIO", "ENOMEM", "EOVERFLOW", "ESTALE", "EINTR")
	}
	return c
}

func runIO(e *vh.Env, c ioCase) error {
	if e.UID == 0 {
		vh.Infra("faults are only injected as an unprivileged user")
	}
	d := e.Dir()
	defer e.Drop(d)
	w := c.Work
	cmd := w.cmd(e, d)
	base := e.Run(cmd)
	if err := cliTrouble(cmd, base); err != nil {
		return err
	}
	switch c.Kind {
	case "full", "limit":
		limit := 0
		f := cmd
		f.StdoutTo = "/dev/full"
		what := "stdout on a full device"
		if c.Kind == "limit" {
			limit = c.Limit % (len(base.Out) + 2)
			what = fmt.Sprintf("stdout limited to %d bytes", limit)
			f.StdoutTo = filepath.Join(d, "stdout")
			e.Write(f.StdoutTo, "", 0644)
			f.Prefix = []string{"prlimit", "--fsize=" + strconv.Itoa(limit)}
		}
		r := e.Run(f)
		if r.TimedOut {
			return &vh.Hang{Msg: fmt.Sprintf("%s %q with %s did not end", w.Tool, f.Args, what)}
		}
		if c.Kind == "limit" {
			data, err := os.ReadFile(f.StdoutTo)
			if err != nil {
				vh.Infra("%v", err)
			}
			r.Out = string(data)
			if w.Tool != "tsort" && !strings.HasPrefix(base.Out, r.Out) {
				return bad("%s %q with %s wrote %s, not the beginning of %s", w.Tool, f.Args, what, vh.Short(r.Out), vh.Short(base.Out))
			}
		}
		if len(base.Out) == limit {
			return nil // a write of no bytes may fail
		}
		if len(base.Out) <= limit {
			vh.Count("the output fits", 1)
			if r.Exit != base.Exit || !w.sameOut(r.Out, base.Out) {
				return bad("%s %q with %s: %v, without the limit: %v", w.Tool, f.Args, what, r, base)
			}
			return nil
		}
		vh.Count("output cut short", 1)
		if !w.failed(r) {
			return bad("%s %q with %s does not report the failure: %v", w.Tool, f.Args, what, r)
		}
		return nil
	}

	f := cmd
	path, call := "", "read"
	if len(w.Files) > 0 {
		path = string(w.Files[c.File].Name)
	}
	switch {
	case c.Kind == "write":
		path = filepath.Join(d, "stdout")
		e.Write(path, "", 0644)
		f.StdoutTo = path
		call = "write,writev,pwrite64,copy_file_range,sendfile,splice"
	case c.File == w.stdin():
		path = filepath.Join(e.Scratch, "stdin")
	case c.Kind == "open":
		call = "openat"
	}
	log := filepath.Join(d, "strace.log")
	e.Write(log, "", 0644)
	inj := fmt.Sprintf("inject=%s:error=%s:when=%d", call, c.Errno, c.When)
	f.Prefix = []string{"strace", "-f", "-q", "-y", "-o", log, "-P", path, "-e", "trace=openat," + call, "-e", inj}
	r := e.Run(f)
	if r.TimedOut {
		return &vh.Hang{Msg: fmt.Sprintf("%s %q with %s on %s did not end", w.Tool, f.Args, inj, path)}
	}
	if c.Kind == "write" {
		data, err := os.ReadFile(path)
		if err != nil {
			vh.Infra("%v", err)
		}
		r.Out = string(data)
	}
	// what strace itself has to say is not a diagnostic of the tool
	var keep []string
	for _, l := range strings.SplitAfter(r.Err, "\n") {
		if !strings.HasPrefix(l, "strace: Requested path") {
			keep = append(keep, l)
		}
	}
	r.Err = strings.Join(keep, "")
	if strings.HasPrefix(r.Err, "strace: ") {
		vh.Infra("%s", r.Err)
	}
	trace, err := os.ReadFile(log)
	if err != nil {
		vh.Infra("%v", err)
	}
	hit := strings.Count(string(trace), "(INJECTED)")
	if r.Crashed() {
		return bad("%s %q with %s on %s crashed: %v", w.Tool, f.Args, inj, path, r)
	}
	if r.Exit == base.Exit && w.sameOut(r.Out, base.Out) {
		if hit == 0 {
			vh.Count("faults that did not take place", 1)
		} else {
			vh.Count("faults without consequence", 1)
		}
		return nil
	}
	if hit == 0 {
		return bad("%s %q gives %v, and on a second run %v", w.Tool, f.Args, base, r)
	}
	vh.Count("failed "+c.Kind, 1)
	if !w.failed(r) {
		return bad("%s %q with %s on %s does not report the failure: %v (without it: %v)", w.Tool, f.Args, inj, path, r, base)
	}
	if c.Kind == "write" {
		return nil // the failed part is missing, and others may follow
	}
	if !c.partial(r.Out, base.Out) {
		return bad("%s %q with %s on %s: the output is not right up to the failure: %v (without it: %v)", w.Tool, f.Args, inj, path, r, base)
	}
	return nil
}

// partial tells whether out is what full becomes when reading c.File fails.
func (c ioCase) partial(out, full string) bool {
	w := c.Work
	switch w.Tool {
	case "cmp":
		return strings.HasPrefix(full, out)
	case "diff", "tsort":
		return out == ""
	}
	// the part of each operand
	var parts []string
	for i, f := range w.Files {
		data := f.Data.Bytes()
		switch w.Tool {
		case "cat":
			parts = append(parts, data)
		case "cksum":
			lines := strings.SplitAfter(full, "\n")
			if i >= len(lines) {
				return false
			}
			parts = append(parts, lines[i])
		case "head":
			n := 10
			if len(w.Opts) == 2 {
				n, _ = strconv.Atoi(string(w.Opts[1]))
			}
			s := headOf(data, n)
			if len(w.Files) > 1 {
				s = "==> " + string(f.Name) + " <==\n" + s
				if i > 0 {
					s = "\n" + s
				}
			}
			parts = append(parts, s)
		}
	}
	if strings.Join(parts, "") != full {
		return true // not as expected even without the fault: that is for other properties
	}
	before := strings.Join(parts[:c.File], "")
	after := strings.Join(parts[c.File+1:], "")
	if !strings.HasPrefix(out, before) {
		return false
	}
	mid := out[len(before):]
	if w.Tool == "head" && before == "" && mid == strings.TrimPrefix(after, "\n") {
		return true
	}
	if !strings.HasSuffix(mid, after) {
		return false
	}
	mid = strings.TrimSuffix(mid, after)
	if w.Tool == "cksum" {
		return mid == ""
	}
	return strings.HasPrefix(parts[c.File], mid)
}

func init() {
	vh.Register("C26", "runs of cat, cksum, cmp, diff, head, tsort and locale in which standard output takes no byte or only the first n, the k-th write to it fails once, or the k-th read or the opening of one input fails (strace injection); non-trivial: the run without the fault prints something or reads something",
		genIO, runIO, func(c ioCase) (bool, []string) {
			n := 0
			for _, f := range c.Work.Files {
				n += len(f.Data)
			}
			return n > 0 || c.Work.Tool == "locale", []string{c.Work.Tool, "fault " + c.Kind}
		})
}
