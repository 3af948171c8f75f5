package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C09

type testCase struct{ Args []vh.S }

const (
	tFalse = iota
	tTrue
	tError
	tAny // outside the domain: only no crash
)

func neg(v int) int {
	switch v {
	case tFalse:
		return tTrue
	case tTrue:
		return tFalse
	}
	return v
}

func boolT(b bool) int {
	if b {
		return tTrue
	}
	return tFalse
}

// -a as a unary primary is outside the domain: POSIX does not have it
var fileOps = "abcdefghLpSsurwxt"

var binaryOps = map[string]bool{"=": true, "!=": true, "-eq": true, "-ne": true, "-gt": true, "-ge": true, "-lt": true, "-le": true}

// knownTest tells whether an argument list shows one of the recorded findings
// (see known_findings.txt), and the exit status it has because of it.
func knownTest(a []string, dir string) (id string, exit int) {
	if len(a) < 2 {
		return "", 0
	}
	if a[0] == "!" {
		if len(a) == 3 && binaryOps[a[1]] {
			return "negation-before-binary", 2
		}
		id, exit = knownTest(a[1:], dir)
		if exit < 2 {
			exit = 1 - exit
		}
		return id, exit
	}
	if a[0] == "" {
		return "empty-first-argument", 1
	}
	if len(a) > 2 && len(a[0]) == 2 && a[0][0] == '-' && strings.Contains("acdefghLpSsurwxtnz", a[0][1:]) {
		exit = 1
		switch a[0][1] {
		case 'n':
			if a[1] != "" {
				exit = 0
			}
		case 'z':
			if a[1] == "" {
				exit = 0
			}
		case 'r', 'w', 'x', 't':
			exit = 2
		default: // no file is named like the arguments here
			p := a[1]
			if !filepath.IsAbs(p) {
				p = dir + "/" + p
			}
			if _, err := os.Lstat(p); err == nil && a[1] != "" {
				return "", 0
			}
		}
		return "unary-ignores-the-rest", exit
	}
	return "", 0
}

// evalTest is POSIX's reading of test's arguments by their number.
func evalTest(a []string) int {
	switch len(a) {
	case 0:
		return tFalse
	case 1:
		return boolT(a[0] != "")
	case 2:
		if a[0] == "!" {
			return neg(evalTest(a[1:]))
		}
		switch a[0] {
		case "-n":
			return boolT(a[1] != "")
		case "-z":
			return boolT(a[1] == "")
		}
		if len(a[0]) == 2 && a[0][0] == '-' && strings.Contains(fileOps, a[0][1:]) {
			return tAny
		}
		return tError
	case 3:
		switch a[1] {
		case "=":
			return boolT(a[0] == a[2])
		case "!=":
			return boolT(a[0] != a[2])
		case "-eq", "-ne", "-gt", "-ge", "-lt", "-le":
			x, e1 := strconv.ParseInt(a[0], 10, 64)
			y, e2 := strconv.ParseInt(a[2], 10, 64)
			if e1 != nil || e2 != nil {
				return tError
			}
			switch a[1] {
			case "-eq":
				return boolT(x == y)
			case "-ne":
				return boolT(x != y)
			case "-gt":
				return boolT(x > y)
			case "-ge":
				return boolT(x >= y)
			case "-lt":
				return boolT(x < y)
			}
			return boolT(x <= y)
		case "-a", "-o":
			return tAny
		}
		if a[0] == "!" {
			return neg(evalTest(a[1:]))
		}
		if a[0] == "(" && a[2] == ")" {
			return tAny
		}
		return tError
	case 4:
		if a[0] == "!" {
			return neg(evalTest(a[1:]))
		}
		if a[0] == "(" {
			return tAny
		}
		return tError
	}
	return tAny
}

var testInts = []string{"0", "1", "-1", "2", "10", "9", "-10", "007", "7", "-0", "100", "99", "9223372036854775807", "-9223372036854775808", "4294967296", "2147483648", "-2147483649"}
var testNonInts = []string{"", "a", "1a", "1.5", "0x10", "--1", "1 ", "-", "1e3", "٣", "1,000", "1_000", "!", "="}
var testStrings = []string{"", "a", "b", "ab", "é", "!", "-n", "-z", "=", "!=", "-eq", "-lt", "-e", "-f", "(", ")", "-a", "-o", "-", "--", "!!", "==", "-nn", "-nz", "-q", "-Z", "-N", "0", "1", " ", "-r", "-t", "-E", "a b", "-eqq", "-1"}
var intOps = []string{"-eq", "-ne", "-gt", "-ge", "-lt", "-le"}

func genTest(t *rapid.T) testCase {
	var a []string
	str := func() string {
		if vh.OneIn(t, 12, "free text") {
			return strings.ReplaceAll(rapid.StringN(0, 5, -1).Draw(t, "text"), "\x00", "0")
		}
		return vh.Pick(t, "string", testStrings...)
	}
	num := func() string {
		switch vh.Int(t, 0, 7, "number kind") {
		case 0:
			return vh.Pick(t, "non-integer", testNonInts...)
		case 1, 2:
			return strconv.Itoa(rapid.Int().Draw(t, "int"))
		}
		return vh.Pick(t, "int", testInts...)
	}
	switch vh.Int(t, 0, 6, "form") {
	case 0:
		n := vh.Int(t, 0, 4, "count")
		for i := 0; i < n; i++ {
			a = append(a, str())
		}
	case 1:
		a = []string{vh.Pick(t, "unary", "-n", "-z"), str()}
	case 2, 3:
		x := str()
		y := str()
		if vh.Bool(t, "equal") {
			y = x
		}
		a = []string{x, vh.Pick(t, "op", "=", "!="), y}
	default:
		x, y := num(), num()
		if vh.OneIn(t, 3, "equal") {
			y = x
		}
		a = []string{x, vh.Pick(t, "op", intOps...), y}
	}
	for len(a) < 4 && vh.OneIn(t, 4, "negate") {
		a = append([]string{"!"}, a...)
	}
	return testCase{vh.Ss(a)}
}

func runTest(e *vh.Env, c testCase) error {
	args := vh.Strs(c.Args)
	cmd := vh.Cmd{Bin: "test", Args: args, Dir: e.Scratch, Unpriv: true}
	r := e.Run(cmd)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	err := judgeTest(args, r)
	if err != nil {
		if id, exit := knownTest(args, e.Scratch); id != "" && r.Exit == exit && e.Known[id] {
			vh.Count("known finding "+id, 1)
			return nil
		}
	}
	return err
}

func judgeTest(args []string, r vh.Result) error {
	switch evalTest(args) {
	case tTrue:
		if r.Exit != 0 {
			return bad("test %q should exit 0: %v", args, r)
		}
	case tFalse:
		if r.Exit != 1 {
			return bad("test %q should exit 1: %v", args, r)
		}
	case tError:
		if r.Exit <= 1 || r.Err == "" {
			return bad("test %q should exit > 1 with a diagnostic: %v", args, r)
		}
		return nil
	case tAny:
		vh.Count("argument lists outside the domain", 1)
		return nil
	}
	if r.Err != "" || r.Out != "" {
		return bad("test %q should print nothing: %v", args, r)
	}
	return nil
}

// C10

type fsObj struct {
	Kind string // file dir fifo socket missing null zero
	Mode int
	Size int
}

type fsCase struct {
	Obj    fsObj
	Links  int  // number of symbolic links in front of it
	Slash  bool // trailing slash
	Locked bool // within a directory that may not be searched
	Op     vh.S // primary
	Neg    int  // number of leading '!'
	Name   vh.S
	Loop   bool // the link points to itself
}

var fsOps = []string{"-e", "-f", "-d", "-p", "-S", "-c", "-b", "-h", "-L", "-s", "-g", "-u"}

func genFS(t *rapid.T) fsCase {
	c := fsCase{}
	c.Obj.Kind = vh.Pick(t, "kind", "file", "file", "file", "dir", "fifo", "socket", "missing", "null", "zero")
	c.Obj.Mode = vh.Pick(t, "perm", 0644, 0600, 0, 0777, 0111, 0400) | vh.Pick(t, "special", 0, 0, 04000, 02000, 06000, 01000, 07000, 05000, 03000)
	c.Obj.Size = vh.Pick(t, "size", 0, 0, 1, 100, 5000)
	c.Links = vh.Pick(t, "links", 0, 0, 0, 1, 2, 3)
	c.Slash = vh.OneIn(t, 12, "slash")
	c.Locked = vh.OneIn(t, 20, "locked")
	c.Loop = vh.OneIn(t, 25, "loop")
	c.Op = vh.S(vh.Pick(t, "op", fsOps...))
	c.Neg = vh.Pick(t, "neg", 0, 0, 0, 1, 2)
	c.Name = vh.S(vh.Pick(t, "name", "x", "a b", "é", "-f", "!", "=", "-", "%d"))
	return c
}

func runFS(e *vh.Env, c fsCase) error {
	if c.Locked && e.UID == 0 {
		return nil
	}
	d := e.Dir()
	defer e.Drop(d)
	sub := d
	prefix := "./"
	if c.Locked {
		sub = filepath.Join(d, "locked")
		e.Mkdir(sub, 0755)
		prefix = "locked/"
	}
	p := filepath.Join(sub, string(c.Name))
	must := func(err error) {
		if err != nil {
			vh.Infra("%v", err)
		}
	}
	mode := uint32(c.Obj.Mode)
	switch c.Obj.Kind {
	case "file":
		e.Write(p, strings.Repeat("x", c.Obj.Size), 0600)
		must(syscall.Chmod(p, mode))
	case "dir":
		e.Mkdir(p, 0755)
		must(syscall.Chmod(p, mode))
	case "fifo":
		must(syscall.Mkfifo(p, 0600))
		must(syscall.Chmod(p, mode))
	case "socket":
		must(syscall.Mknod(p, syscall.S_IFSOCK|0600, 0))
		must(syscall.Chmod(p, mode))
	case "null":
		p = "/dev/null"
	case "zero":
		p = "/dev/zero"
	}
	path := p
	if strings.HasPrefix(p, d) {
		path = prefix + string(c.Name)
		if c.Name == "x" {
			path = strings.TrimPrefix(path, "./")
		}
	}
	for i := 0; i < c.Links; i++ {
		l := filepath.Join(sub, "link"+strconv.Itoa(i))
		target := p
		if c.Loop {
			target = l
		}
		must(os.Symlink(target, l))
		p = l
		path = prefix + "link" + strconv.Itoa(i)
	}
	if c.Slash {
		path += "/"
	}
	// The oracle, from the raw file status
	abs := path
	if !filepath.IsAbs(abs) {
		abs = d + "/" + path
	}
	var st, lst syscall.Stat_t
	stErr := syscall.Stat(abs, &st)
	lstErr := syscall.Lstat(abs, &lst)
	want := false
	ty := st.Mode & syscall.S_IFMT
	if c.Op == "-h" || c.Op == "-L" {
		want = lstErr == nil && lst.Mode&syscall.S_IFMT == syscall.S_IFLNK
	} else if stErr == nil {
		switch c.Op {
		case "-e":
			want = true
		case "-f":
			want = ty == syscall.S_IFREG
		case "-d":
			want = ty == syscall.S_IFDIR
		case "-p":
			want = ty == syscall.S_IFIFO
		case "-S":
			want = ty == syscall.S_IFSOCK
		case "-c":
			want = ty == syscall.S_IFCHR
		case "-b":
			want = ty == syscall.S_IFBLK
		case "-s":
			want = st.Size > 0
		case "-g":
			want = st.Mode&syscall.S_ISGID != 0
		case "-u":
			want = st.Mode&syscall.S_ISUID != 0
		}
	}
	if c.Locked {
		must(os.Chmod(sub, 0))
		if strings.HasPrefix(path, prefix) {
			want = false
		}
	}
	args := []string{string(c.Op), path}
	for i := 0; i < c.Neg; i++ {
		args = append([]string{"!"}, args...)
		want = !want
	}
	cmd := vh.Cmd{Bin: "test", Args: args, Dir: d, Unpriv: true}
	r := e.Run(cmd)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	wantExit := 1
	if want {
		wantExit = 0
	}
	if r.Exit != wantExit && c.Op == "-b" && r.Exit == 2 && e.Known["b-not-recognised"] {
		vh.Count("known finding b-not-recognised", 1)
		return nil
	}
	if r.Exit != wantExit {
		return bad("test %q (%+v): exit %d, want %d: %v", args, c, r.Exit, wantExit, r)
	}
	return nil
}

func init() {
	vh.Register("C09", "argument lists of up to four strings drawn from operators, operator look-alikes, integers, non-integers and free text; non-trivial: at least two arguments within the domain",
		genTest, runTest, func(c testCase) (bool, []string) {
			v := evalTest(vh.Strs(c.Args))
			return len(c.Args) > 1 && v != tAny, []string{[]string{"false", "true", "error", "outside"}[v], strconv.Itoa(len(c.Args)) + " arguments"}
		})
	vh.Register("C10", "file-system objects of every kind that can be made here (regular, directory, FIFO, socket, character device, missing; any mode bits), reached directly or through links, with every primary; non-trivial: the object exists or is reached through a link",
		genFS, runFS, func(c fsCase) (bool, []string) {
			l := []string{c.Obj.Kind, string(c.Op)}
			if c.Links > 0 {
				l = append(l, "link")
			}
			return c.Obj.Kind != "missing" || c.Links > 0, l
		})
}
