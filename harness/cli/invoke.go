package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C28: only ed's w changes files

type readOnlyCase struct {
	Crash *crashCase `json:",omitempty"`
	Work  *work      `json:",omitempty"`
	Ed    *edCase    `json:",omitempty"`
	Modes [2]int     // of f and g, or of the first files
	Miss  bool       // the last file operand does not exist
}

func genReadOnly(t *rapid.T) readOnlyCase {
	c := readOnlyCase{}
	for i := range c.Modes {
		c.Modes[i] = vh.Pick(t, "mode", 0644, 0600, 0444, 0755, 0666, 0200, 0)
	}
	switch vh.Int(t, 0, 5, "kind") {
	case 0, 1, 2:
		w := genWork(t, "cat", "cksum", "cmp", "diff", "head", "tsort")
		c.Work = &w
		c.Miss = vh.OneIn(t, 4, "missing operand")
	case 3, 4:
		k := genCrash(t)
		c.Crash = &k
	default:
		e := genEdBase(t, 8)
		genHistory(t, &e, 12, 5, 3, 2, 0)
		// no w but failing ones
		m, _ := e.newModel()
		var keep []edOpJ
		for _, o := range e.Script {
			op := edOp(o)
			if op.Cmd == "w" {
				continue
			}
			m.apply(&op)
			keep = append(keep, o)
		}
		e.Script = keep
		e.Modes = true
		c.Ed = &e
	}
	return c
}

// snapshot describes everything below a directory.
func snapshot(d string) map[string]string {
	out := map[string]string{}
	err := filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		st := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("mode %v, owner %d:%d, %d links, inode %d, changed at %d.%09d", fi.Mode(), st.Uid, st.Gid, st.Nlink, st.Ino, st.Mtim.Sec, st.Mtim.Nsec)
		if fi.Mode().IsRegular() {
			data, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(", %d bytes %x", len(data), sha256.Sum256(data))
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			s += " -> " + t
		}
		out[p[len(d):]] = s
		return nil
	})
	if err != nil {
		vh.Infra("%v", err)
	}
	return out
}

func changes(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if b[k] == "" {
			l = append(l, fmt.Sprintf("%q is gone", k))
		} else if b[k] != v {
			l = append(l, fmt.Sprintf("%q was %s and is %s", k, v, b[k]))
		}
	}
	for k := range b {
		if a[k] == "" {
			l = append(l, fmt.Sprintf("%q is new", k))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func runReadOnly(e *vh.Env, c readOnlyCase) error {
	if e.UID == 0 {
		vh.Infra("only as an unprivileged user")
	}
	d := e.Dir()
	defer e.Drop(d)
	var cmd vh.Cmd
	tmp := []string{"PATH=/usr/bin:/bin", "HOME=" + d, "TMPDIR=" + filepath.Join(d, "tmp")}
	e.Mkdir(filepath.Join(d, "tmp"), 0777)
	switch {
	case c.Work != nil:
		w := *c.Work
		cmd = w.cmd(e, d)
		n := 0
		for i, f := range w.Files {
			if i == w.stdin() {
				continue
			}
			if n < 2 {
				if err := os.Chmod(onDisk(d, string(f.Name)), os.FileMode(c.Modes[n])); err != nil {
					vh.Infra("%v", err)
				}
			}
			n++
			if c.Miss && i == len(w.Files)-1 {
				os.Remove(onDisk(d, string(f.Name)))
			}
		}
	case c.Crash != nil:
		k := *c.Crash
		e.Write(onDisk(d, "f"), k.Files[0].Bytes(), os.FileMode(c.Modes[0]))
		e.Write(onDisk(d, "g"), k.Files[1].Bytes(), os.FileMode(c.Modes[1]))
		e.Mkdir(onDisk(d, "sub"), 0755)
		args := vh.Strs(k.Args)
		in := k.Stdin.Bytes()
		for i := range args {
			if strings.HasPrefix(args[i], "/dev/") && args[i] != "/dev/null" {
				args[i] = "f"
			}
			if k.Tool == "ed" {
				args[i] = strings.ReplaceAll(args[i], "w", "x")
			}
		}
		if k.Tool == "ed" {
			in = strings.ReplaceAll(in, "w", "x")
		}
		cmd = vh.Cmd{Bin: k.Tool, Args: args, Stdin: in, Dir: d, Unpriv: true}
	default:
		e.Mkdir(onDisk(d, "sub"), 0755)
		for _, f := range c.Ed.Files {
			e.Write(onDisk(d, string(f.Name)), string(f.Data), os.FileMode(f.Mode))
		}
		in := ""
		for i := range c.Ed.Script {
			op := edOp(c.Ed.Script[i])
			in += op.source()
		}
		if c.Ed.Quit != "" {
			in += c.Ed.Quit + "\n"
		}
		cmd = vh.Cmd{Bin: "ed", Stdin: in, Dir: d, Unpriv: true}
		if c.Ed.Arg != "" {
			cmd.Args = []string{string(c.Ed.Arg)}
		}
	}
	if cmd.Env == nil {
		cmd.Env = tmp
	} else {
		cmd.Env = append(cmd.Env, tmp[1:]...)
	}
	before := snapshot(d)
	r := e.Run(cmd)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if ch := changes(before, snapshot(d)); ch != "" {
		return bad("%s %q with input %s changed the file system: %s", cmd.Bin, cmd.Args, vh.Short(cmd.Stdin), ch)
	}
	return nil
}

// C29: the result depends on arguments and input only

type invokeCase struct {
	Work   *work  `json:",omitempty"`
	Test   []vh.S `json:",omitempty"` // arguments of test
	Env    []vh.S // the environment of the second run
	Via    string // its directory: "" the same, link: a symbolic link to it, farm: one of links to the files, hard: one of hard links
	Name   string // name of the program; "" its own
	Stdout string // pipe, file, append
	Stdin  string // when it is not used: "" empty, closed, dir
	Umask  int
}

var envPool = []string{"LANG=C", "LANG=en_US.UTF-8", "LANG=", "LC_ALL=C", "LC_ALL=de_DE.UTF-8", "LC_ALL=tr_TR", "LC_MESSAGES=ja_JP", "LC_CTYPE=C.UTF-8", "LC_COLLATE=sv_SE", "LC_NUMERIC=de_DE",
	"POSIXLY_CORRECT=1", "TERM=dumb", "COLUMNS=3", "LINES=2", "NO_COLOR=1", "CLICOLOR_FORCE=1", "PWD=/", "OLDPWD=/", "TMPDIR=/nonexistent", "HOME=/", "USER=nobody", "SHELL=/bin/false", "TZ=Asia/Tokyo",
	"GOMAXPROCS=1", "GOMAXPROCS=4", "GOGC=1", "GOGC=off", "DEBUG=1", "VERBOSE=1", "BLOCKSIZE=1", "_=x", "EMPTY=", "DIFF_OPTIONS=-b", "BASH_ENV=/nonexistent", "PATH=", "IFS=x"}

func genInvoke(t *rapid.T) invokeCase {
	c := invokeCase{}
	if vh.OneIn(t, 8, "test") {
		c.Test = vh.Ss(rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b", "10", "1", "-1", "=", "!=", "!", "-n", "-z", "-eq", "-lt", "-gt", "é"}), 0, 4).Draw(t, "arguments"))
	} else {
		w := genWork(t, "cat", "cksum", "cmp", "diff", "head", "tsort")
		c.Work = &w
	}
	n := vh.Int(t, 0, 6, "variables")
	for i := 0; i < n; i++ {
		c.Env = append(c.Env, vh.S(vh.Pick(t, "variable", envPool...)))
	}
	c.Via = vh.Pick(t, "directory", "", "link", "farm", "hard")
	c.Name = vh.Pick(t, "program name", "", "x", "a b", "busybox", "-sh", "TEST")
	c.Stdout = vh.Pick(t, "stdout", "pipe", "file", "append")
	c.Stdin = vh.Pick(t, "stdin", "", "closed", "dir")
	c.Umask = vh.Pick(t, "umask", 022, 0, 077, 0777)
	return c
}

func runInvoke(e *vh.Env, c invokeCase) error {
	d := e.Dir()
	defer e.Drop(d)
	one := filepath.Join(d, "one")
	e.Mkdir(one, 0755)
	var cmd vh.Cmd
	w := work{Tool: "test"}
	unused := true
	if c.Work != nil {
		w = *c.Work
		cmd = w.cmd(e, one)
		unused = w.stdin() < 0
	} else {
		cmd = vh.Cmd{Bin: "test", Args: vh.Strs(c.Test), Dir: one, Unpriv: true}
	}
	first := e.Run(cmd)
	if err := cliTrouble(cmd, first); err != nil {
		return err
	}
	// the second run
	two := cmd
	switch c.Via {
	case "link":
		two.Dir = filepath.Join(d, "two")
		if err := os.Symlink("one", two.Dir); err != nil {
			vh.Infra("%v", err)
		}
	case "farm", "hard":
		two.Dir = filepath.Join(d, "two")
		e.Mkdir(two.Dir, 0755)
		ents, err := os.ReadDir(one)
		if err != nil {
			vh.Infra("%v", err)
		}
		for _, f := range ents {
			if c.Via == "farm" {
				err = os.Symlink("../one/"+f.Name(), filepath.Join(two.Dir, f.Name()))
			} else {
				err = os.Link(filepath.Join(one, f.Name()), filepath.Join(two.Dir, f.Name()))
			}
			if err != nil {
				vh.Infra("%v", err)
			}
		}
	}
	two.Env = vh.Strs(c.Env)
	if two.Env == nil {
		two.Env = []string{}
	}
	two.Bin = filepath.Join(e.BinDir, w.Tool)
	if c.Name != "" {
		two.Bin = filepath.Join(d, c.Name)
		if err := os.Symlink(filepath.Join(e.BinDir, w.Tool), two.Bin); err != nil {
			vh.Infra("%v", err)
		}
	}
	kept := ""
	if c.Stdout != "pipe" {
		two.StdoutTo = filepath.Join(d, "stdout")
		if c.Stdout == "append" {
			kept = "what was there\n"
			two.StdoutAppend = true
		}
		e.Write(two.StdoutTo, kept, 0644)
	}
	if unused {
		two.StdinFile = false
		two.StdinIs = c.Stdin
	}
	old := syscall.Umask(c.Umask)
	second := e.Run(two)
	syscall.Umask(old)
	if err := cliTrouble(two, second); err != nil {
		return err
	}
	if two.StdoutTo != "" {
		data, err := os.ReadFile(two.StdoutTo)
		if err != nil {
			vh.Infra("%v", err)
		}
		if !strings.HasPrefix(string(data), kept) {
			return bad("%s %q does not append to its standard output: %s", w.Tool, two.Args, vh.Short(string(data)))
		}
		second.Out = string(data)[len(kept):]
	}
	if first.Exit != second.Exit || !w.sameOut(first.Out, second.Out) || (first.Err == "") != (second.Err == "") {
		return bad("%s %q gives %v, and as %q with environment %q, directory %q, stdout to a %s, stdin %q, umask %o: %v", w.Tool, cmd.Args, first, c.Name, c.Env, c.Via, c.Stdout, c.Stdin, c.Umask, second)
	}
	return nil
}

func init() {
	vh.Register("C28", "runs of cat, cksum, cmp, cut, diff, head, locale, test, tsort (ordinary and with arbitrary arguments, on files of any mode, with missing operands) and ed histories without w; names, contents, modes, owners, links and modification times below the working directory (which also holds TMPDIR) compared before and after; non-trivial: the tool is given at least one file or ed at least one command",
		genReadOnly, runReadOnly, func(c readOnlyCase) (bool, []string) {
			switch {
			case c.Work != nil:
				return true, []string{c.Work.Tool}
			case c.Crash != nil:
				return len(c.Crash.Args) > 0, []string{c.Crash.Tool + " (arbitrary)"}
			}
			return len(c.Ed.Script) > 0, []string{"ed"}
		})
	vh.Register("C29", "runs of cat, cksum, cmp, diff, head, tsort and test done twice: plainly, and with another environment, directory, program name, kind of standard output, unused standard input and umask; non-trivial: at least two of these differ",
		genInvoke, runInvoke, func(c invokeCase) (bool, []string) {
			n := 0
			for _, x := range []bool{len(c.Env) > 0, c.Via != "", c.Name != "", c.Stdout != "pipe", c.Stdin != "", c.Umask != 022} {
				if x {
					n++
				}
			}
			tool := "test"
			if c.Work != nil {
				tool = c.Work.Tool
			}
			return n > 1, []string{tool, "directory " + c.Via, "stdout " + c.Stdout}
		})
}
