package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C24

type opCase struct {
	Tool    string
	N       int // head -n
	Files   []fset
	Operand []int // index of a file, or -1-k for the k-th unreadable name
}

var unreadable = []string{"nothere", "sub", "no/such", "locked", "f0/below", "100%s gone", "locked dir/x", "", "nothere/../f0", "f0/", "f0/.", "f0/../f0"}

func genOps(t *rapid.T) opCase {
	c := opCase{Tool: vh.Pick(t, "tool", "cat", "cksum", "head"), Files: genFiles(t, 1, 3, 70000)}
	for i := range c.Files {
		if vh.Bool(t, "text") {
			c.Files[i].Data = genTextBlob(t, "data")
		}
	}
	c.N = vh.Pick(t, "n", -1, 1, 2, 3, 1000) // with 0, head need not read anything
	n := vh.Int(t, 1, 6, "operands")
	for i := 0; i < n; i++ {
		if vh.OneIn(t, 3, "unreadable") {
			c.Operand = append(c.Operand, -1-vh.Int(t, 0, len(unreadable)-1, "which"))
		} else {
			c.Operand = append(c.Operand, vh.Int(t, 0, len(c.Files)-1, "file"))
		}
	}
	someFifos(t, c.Files, c.Operand)
	return c
}

func runOps(e *vh.Env, c opCase) error {
	d := e.Dir()
	defer e.Drop(d)
	putAll(e, d, c.Files)
	e.Write(onDisk(d, "locked"), "secret\n", 0)
	e.Write(onDisk(d, "f0"), "f0\n", 0644)
	e.Mkdir(onDisk(d, "locked dir"), 0)
	var args, names []string
	if c.Tool == "head" && c.N >= 0 {
		args = append(args, "-n", strconv.Itoa(c.N))
	}
	n := c.N
	if n < 0 {
		n = 10
	}
	anyBad := false
	type part struct {
		name, data string
		ok         bool
	}
	var parts []part
	for _, o := range c.Operand {
		if o < 0 {
			name := unreadable[-1-o]
			if e.UID == 0 && strings.HasPrefix(name, "locked") {
				name = "nothere"
			}
			parts = append(parts, part{name: name})
			names = append(names, name)
			args = append(args, name)
			anyBad = true
			continue
		}
		f := c.Files[o]
		parts = append(parts, part{string(f.Name), f.Data.Bytes(), true})
		args = append(args, string(f.Name))
	}
	// All acceptable outputs: head may or may not announce an operand it cannot read
	outs := map[string]bool{}
	switch c.Tool {
	case "cat":
		s := ""
		for _, p := range parts {
			s += p.data
		}
		outs[s] = true
	case "cksum":
		s := ""
		for _, p := range parts {
			if p.ok {
				s += fmt.Sprintf("%d %d %s\n", posixCRC(p.data), len(p.data), p.name)
			}
		}
		outs[s] = true
	case "head":
		k := len(names)
		for mask := 0; mask < 1<<k; mask++ {
			for byIndex := 0; byIndex < 2; byIndex++ {
				s := ""
				printed := 0
				b := 0
				for i, p := range parts {
					if !p.ok {
						b++
						if mask&(1<<(b-1)) == 0 {
							continue
						}
					}
					if len(parts) > 1 {
						if (byIndex == 0 && i > 0) || (byIndex == 1 && printed > 0) {
							s += "\n"
						}
						s += "==> " + p.name + " <==\n"
					}
					printed++
					if p.ok {
						s += headOf(p.data, n)
					}
				}
				outs[s] = true
			}
		}
	}
	cmd := vh.Cmd{Bin: c.Tool, Args: args, Dir: d, Unpriv: true}
	r := runWith(e, cmd, d, c.Files)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if !outs[r.Out] {
		for s := range outs {
			if err := eq("stdout", cmd, r.Out, s, r); err != nil {
				return err
			}
		}
	}
	if !anyBad {
		if r.Exit != 0 || r.Err != "" {
			return bad("%s %q: should exit 0 and write nothing to stderr: %v", c.Tool, args, r)
		}
		return nil
	}
	if r.Exit <= 0 {
		return bad("%s %q: should exit non-zero: %v", c.Tool, args, r)
	}
	for _, name := range names {
		if !strings.Contains(r.Err, name) || r.Err == "" {
			return bad("%s %q: no diagnostic names %q: %v", c.Tool, args, name, r)
		}
	}
	return nil
}

// C25

type crashCase struct {
	Tool  string
	Args  []vh.S
	Stdin vh.Blob
	Files [2]vh.Blob
}

var toolOpts = map[string][]string{
	"cat": {"-u", "-"}, "cksum": {"-"}, "cmp": {"-l", "-s", "-", "-ls"},
	"cut":  {"-f", "-b", "-c", "-d", "-n", "-s", "1", "1-2", "-2", ",", "1,3-", "-f1", "--f=2", "-h"},
	"diff": {"-b", "-c", "-C", "-e", "-f", "-r", "-u", "-U", "3", "-", "-C3"},
	"head": {"-n", "3", "-n3", "-3", "-c", "-"}, "locale": {"-a", "-m", "-k", "LC_ALL", "decimal_point"},
	"test":  {"-n", "-z", "=", "!=", "!", "-eq", "-gt", "(", ")", "-a", "-o", "-r", "-w", "-x", "-t", "-e", "-d", "-f", "-s", "-L", "0", "1"},
	"tsort": {"-"}, "ed": {"-p", "-s", "-"},
}

var anyArgs = []string{"", "-", "--", "---", "-x", "-n", "-s", "-l", "f", "g", "sub", "nothere", "0", "-1", "99999999999999999999", "9223372036854775807", "a b", "é", "%s%d", "\xff", "\n", "-é", "*", "/dev/null", ".", "..", "/", "f/", "-\xff", "=", "!"}

var edLines = []string{"p", "n", "1p", ",p", "$p", ".p", "w", "w out", "e f", "e nothere", "e", "d", "a", "i", "c", ".", "text", "q", "Q", "=", "1,2d", "5p", "/a/", "?b?", "/", "//", "/[/", "/\\(/", "/a*/p", "3,1p", "h", "H", "P", "u", "j", "m1", "t1", "s/a/b/", "g/a/p", "v/a/p", "k", "ka", "'ap", "l", "r f", "f", "f name", "!ls", "E f", "G", "V", "x", "1,2,3p", "+", "-", "++", "1+1p", "-3", "$+1", "0a", "0d", "0p", "%p", ";p", "1;+1p", "w /nonexistent/x", "99999999999999999999p", "/é/", "/a{2/", "/a{1000}/", "/[]/", "/\\/", "?", "??", "'", "1'", "*", " p", "p ", "1 , 2 p", "\x00", "\xff\xfe", "2,$c"}

func genCrash(t *rapid.T) crashCase {
	c := crashCase{Tool: vh.Pick(t, "tool", "cat", "cksum", "cmp", "cut", "diff", "head", "locale", "test", "tsort", "ed", "ed", "diff", "cmp", "head")}
	n := vh.Int(t, 0, 5, "args")
	for i := 0; i < n; i++ {
		var a string
		switch vh.Int(t, 0, 6, "arg kind") {
		case 0, 1, 2:
			a = vh.Pick(t, "own", toolOpts[c.Tool]...)
		case 3:
			a = vh.Pick(t, "file", "f", "g")
		case 4, 5:
			a = vh.Pick(t, "any", anyArgs...)
		case 6:
			a = strings.ReplaceAll(rapid.StringN(0, 6, -1).Draw(t, "text"), "\x00", "-")
		}
		c.Args = append(c.Args, vh.S(a))
	}
	if c.Tool == "ed" && vh.Int(t, 0, 3, "script?") > 0 {
		if vh.Bool(t, "plain args") {
			c.Args = c.Args[:min(1, len(c.Args))]
		}
		k := vh.Int(t, 0, 12, "commands")
		for i := 0; i < k; i++ {
			l := vh.Pick(t, "command", edLines...)
			if vh.OneIn(t, 8, "free") {
				l = vh.AnyBytes(t, 6, "free command")
			}
			c.Stdin = append(c.Stdin, vh.Seg{vh.S(l + "\n"), 1})
		}
	} else {
		c.Stdin = vh.GenBlob(t, 70000, "stdin")
	}
	c.Files[0] = genTextBlob(t, "f")
	c.Files[1] = genTextBlob(t, "g")
	for i := range c.Files { // keep diff's work small
		if len(c.Files[i].Bytes()) > 30000 && strings.Count(c.Files[i].Bytes(), "\n") > 1000 {
			c.Files[i] = vh.Blob{{"x\n", 300}}
		}
	}
	return c
}

func runCrash(e *vh.Env, c crashCase) error {
	d := e.Dir()
	defer e.Drop(d)
	e.Write(onDisk(d, "f"), c.Files[0].Bytes(), 0644)
	e.Write(onDisk(d, "g"), c.Files[1].Bytes(), 0644)
	e.Mkdir(onDisk(d, "sub"), 0755)
	args := vh.Strs(c.Args)
	for i := range args {
		// An endless or system device is no input this property is about
		if strings.HasPrefix(args[i], "/dev/") && args[i] != "/dev/null" {
			args[i] = "f"
		}
	}
	cmd := vh.Cmd{Bin: c.Tool, Args: args, Stdin: c.Stdin.Bytes(), Dir: d, Unpriv: true}
	r := e.Run(cmd)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if r.Exit < 0 || r.Exit > 2 {
		return bad("%s %q: exit status %d: %v", c.Tool, args, r.Exit, r)
	}
	result := c.Tool == "test" || c.Tool == "cmp" || c.Tool == "diff"
	if r.Exit != 0 && !(result && r.Exit == 1) && r.Err == "" {
		return bad("%s %q: exit status %d without a diagnostic: %v", c.Tool, args, r.Exit, r)
	}
	return nil
}

func init() {
	vh.Register("C24", "operand lists for cat, cksum and head mixing readable files with missing files, directories, paths below files and files without read permission; non-trivial: at least one readable and one unreadable operand",
		genOps, runOps, func(c opCase) (bool, []string) {
			g, b := 0, 0
			for _, o := range c.Operand {
				if o < 0 {
					b++
				} else {
					g++
				}
			}
			l := []string{c.Tool}
			if b > 0 && g > 0 {
				l = append(l, "mixed")
			}
			return g > 0 && b > 0, l
		})
	vh.Register("C25", "argument vectors of each tool's options, operands and arbitrary strings with arbitrary bytes or ed scripts on standard input; non-trivial: at least one argument or two bytes of input",
		genCrash, runCrash, func(c crashCase) (bool, []string) {
			return len(c.Args) > 0 || len(c.Stdin.Bytes()) > 1, []string{c.Tool}
		})
}
