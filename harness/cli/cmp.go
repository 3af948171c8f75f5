package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C03

type cmpEdit struct {
	Pos int // from the end if negative
	Val int
}

type cmpCase struct {
	A, B    vh.Blob
	Edits   []cmpEdit // B is A with these changes, unless it is independent
	Cut     int       // bytes to drop at the end of B
	Append  vh.S
	Indep   bool
	Swap    bool
	Names   [2]vh.S
	Dash    int // 0 none, 1 first, 2 second operand is standard input
	AsFile  bool
	Opts    []vh.S // options, in order
	OptPos  []int  // where each goes among the arguments
	Trouble string // "", missing1, missing2, dir1, dir2, one operand, no operand, three operands
	Same    bool   // both operands name the same file
	Fifo    [2]bool
}

func (c cmpCase) data() (string, string) {
	a := c.A.Bytes()
	b := c.B.Bytes()
	if !c.Indep {
		bs := []byte(a)
		for _, e := range c.Edits {
			p := e.Pos
			if p < 0 {
				p += len(bs)
			}
			if p >= 0 && p < len(bs) {
				bs[p] = byte(e.Val)
			}
		}
		cut := c.Cut
		if cut > len(bs) {
			cut = len(bs)
		}
		b = string(bs[:len(bs)-cut]) + string(c.Append)
	}
	if c.Swap {
		a, b = b, a
	}
	if c.Same {
		b = a
	}
	return a, b
}

func genCmp(t *rapid.T) cmpCase {
	c := cmpCase{A: vh.GenBlob(t, 140000, "a")}
	if vh.OneIn(t, 60, "large") {
		c.A = vh.Blob{{vh.S(vh.Pick(t, "unit", "a line\n", "x", "\n", "0123456789abcde\n")), vh.Pick(t, "times", 50000, 65536, 100000, 131072)}}
	}
	if vh.OneIn(t, 4, "long text") { // many short lines, so that line numbers get large
		c.A = vh.Blob{{vh.S(vh.Pick(t, "line", "\n", "a\n", "ab\r\n", "xyz\n\n")), vh.Int(t, 1, 9000, "lines")}}
	}
	n := len(c.A.Bytes())
	switch vh.Int(t, 0, 9, "relation") {
	case 0:
		c.Indep = true
		c.B = vh.GenBlob(t, 140000, "b")
	case 1: // equal
	case 2, 3:
		c.Cut = vh.Int(t, 0, min(n, 3), "cut")
		if vh.Bool(t, "cut deep") {
			c.Cut = vh.Int(t, 0, n, "cut far")
		}
	case 4:
		c.Append = vh.S(vh.AnyBytes(t, 5, "append"))
	default:
		k := vh.Int(t, 1, 4, "edits")
		for i := 0; i < k; i++ {
			p := 0
			if n > 0 {
				switch vh.Int(t, 0, 3, "where") {
				case 0:
					p = vh.Int(t, 0, n-1, "pos")
				case 1:
					p = -vh.Int(t, 1, min(n, 4), "from end")
				case 2:
					p = min(n-1, max(0, vh.Pick(t, "boundary", vh.Boundaries...)+vh.Int(t, -2, 2, "delta")))
				case 3:
					p = vh.Int(t, 0, min(n-1, 6), "start")
				}
			}
			c.Edits = append(c.Edits, cmpEdit{p, vh.Pick(t, "val", 0, 10, 13, 255, 97, 122, 8, 64, 128, 1)})
		}
		if vh.OneIn(t, 3, "also cut") {
			c.Cut = vh.Int(t, 0, min(n, 3), "cut")
		}
		if vh.OneIn(t, 4, "also append") {
			c.Append = vh.S(vh.AnyBytes(t, 4, "append"))
		}
	}
	c.Swap = vh.Bool(t, "swap")
	c.Names = [2]vh.S{vh.S(vh.Pick(t, "name1", "f", "a b", "100%d", "é", "./f", "./-", strings.Repeat("./", 140)+"f", strings.Repeat("n", 255))), vh.S(vh.Pick(t, "name2", "g", "b c", "%s", "x.txt", "sub/../g"))}
	c.Dash = vh.Pick(t, "dash", 0, 0, 0, 1, 2)
	c.AsFile = vh.Bool(t, "stdin is a file")
	c.Opts = vh.Ss(rapid.SliceOfN(rapid.SampledFrom([]string{"-l", "-s"}), 0, 2).Draw(t, "opts"))
	if vh.OneIn(t, 20, "many opts") {
		c.Opts = vh.Ss(rapid.SliceOfN(rapid.SampledFrom([]string{"-l", "-s"}), 0, 4).Draw(t, "opts"))
	}
	for range c.Opts {
		c.OptPos = append(c.OptPos, vh.Pick(t, "optpos", 0, 0, 0, 1, 2))
	}
	if vh.OneIn(t, 8, "trouble") {
		c.Trouble = vh.Pick(t, "what", "missing1", "missing2", "dir1", "dir2", "one operand", "no operand", "three operands", "both missing", "both directories")
		c.Dash = vh.Pick(t, "dash", 0, 0, 1, 2)
	}
	if vh.OneIn(t, 30, "same file") && c.Trouble == "" && c.Dash == 0 {
		c.Same = true
	}
	if c.Trouble == "" && !c.Same && vh.OneIn(t, 8, "FIFOs") {
		c.Fifo = [2]bool{c.Dash != 1 && vh.Bool(t, "FIFO"), c.Dash != 2 && vh.Bool(t, "FIFO")}
	}
	return c
}

func runCmp(e *vh.Env, c cmpCase) error {
	d := e.Dir()
	defer e.Drop(d)
	e.Mkdir(onDisk(d, "sub"), 0755)
	a, b := c.data()
	n1, n2 := string(c.Names[0]), string(c.Names[1])
	e.Write(onDisk(d, n1), a, 0644)
	if c.Same {
		n2 = n1
	} else {
		e.Write(onDisk(d, n2), b, 0644)
	}
	in := "unused"
	switch {
	case c.Dash == 1:
		n1, in = "-", a
	case c.Dash == 2:
		n2, in = "-", b
	}
	ops := []string{n1, n2}
	switch c.Trouble {
	case "missing1":
		ops[0] = "nothere"
	case "missing2":
		ops[1] = "nothere"
	case "both missing":
		ops = []string{"nothere", "nothereeither"}
	case "both directories":
		ops = []string{"sub", "sub"}
	case "dir1":
		ops[0] = "sub"
	case "dir2":
		ops[1] = "sub"
	case "one operand":
		ops = ops[:1]
	case "no operand":
		ops = nil
	case "three operands":
		ops = append(ops, vh.Strs(c.Names[:])[len(a)%2])
	}
	// Place the options
	var args []string
	for i := 0; i <= len(ops); i++ {
		for k, o := range c.Opts {
			if c.OptPos[k] == i || (i == len(ops) && c.OptPos[k] > i) {
				args = append(args, string(o))
			}
		}
		if i < len(ops) {
			args = append(args, ops[i])
		}
	}
	all, silent := false, false
	for _, o := range c.Opts {
		all = all || o == "-l"
		silent = silent || o == "-s"
	}
	cmd := vh.Cmd{Bin: "cmp", Args: args, Stdin: in, StdinFile: c.AsFile, Dir: d, Unpriv: true}
	r := runWith(e, cmd, d, []fset{{c.Names[0], vh.Blob{{vh.S(a), 1}}, c.Fifo[0]}, {c.Names[1], vh.Blob{{vh.S(b), 1}}, c.Fifo[1]}})
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if c.Trouble != "" {
		// A difference may be found before a directory is: it can't, reading it fails at once
		if r.Exit <= 1 {
			return bad("cmp %q (%s): should exit > 1: %v", args, c.Trouble, r)
		}
		return nil
	}
	// The oracle
	m := min(len(a), len(b))
	first := -1
	var diffs []int
	for i := 0; i < m; i++ {
		if a[i] != b[i] {
			if first < 0 {
				first = i
			}
			diffs = append(diffs, i)
		}
	}
	wantExit := 0
	if first >= 0 || len(a) != len(b) {
		wantExit = 1
	}
	if r.Exit != wantExit {
		return bad("cmp %q: exit %d, want %d: %v", args, r.Exit, wantExit, r)
	}
	shorter := ""
	if len(a) < len(b) {
		shorter = n1
	} else if len(b) < len(a) {
		shorter = n2
	}
	wantEOF := false
	switch {
	case silent:
		if r.Out != "" {
			return bad("cmp %q: -s prints something: %v", args, r)
		}
	case all:
		lines := vh.SplitLines(r.Out)
		if len(lines) != len(diffs) {
			return bad("cmp %q: %d lines for %d differences: %v", args, len(lines), len(diffs), r)
		}
		for i, p := range diffs {
			f := strings.Fields(lines[i])
			if len(f) != 3 {
				return bad("cmp %q: bad line %q", args, lines[i])
			}
			x, e1 := strconv.Atoi(f[0])
			y, e2 := strconv.ParseUint(f[1], 8, 8)
			z, e3 := strconv.ParseUint(f[2], 8, 8)
			if e1 != nil || e2 != nil || e3 != nil || x != p+1 || byte(y) != a[p] || byte(z) != b[p] {
				return bad("cmp %q: line %d is %q, want %d %o %o", args, i, lines[i], p+1, a[p], b[p])
			}
		}
		wantEOF = shorter != ""
	case first >= 0:
		want := fmt.Sprintf("%s %s differ: char %d, line %d\n", n1, n2, first+1, 1+strings.Count(a[:first], "\n"))
		if err := eq("stdout", cmd, r.Out, want, r); err != nil {
			return err
		}
	default:
		if r.Out != "" {
			return bad("cmp %q: prints to stdout without a difference: %v", args, r)
		}
		wantEOF = shorter != ""
	}
	if wantEOF {
		if !strings.HasPrefix(r.Err, "cmp: EOF on "+shorter) {
			return bad("cmp %q: should report EOF on %s: %v", args, shorter, r)
		}
	} else if r.Err != "" {
		return bad("cmp %q: unexpected stderr: %v", args, r)
	}
	return nil
}

func init() {
	vh.Register("C03", "pairs of byte strings made equal, prefix, or changed in chosen places, with options in any position and '-' as either operand; non-trivial: the operands differ or are larger than 4096 bytes, or an operand is unusable",
		genCmp, runCmp, func(c cmpCase) (bool, []string) {
			a, b := c.data()
			var l []string
			if c.Trouble != "" {
				return true, []string{"trouble"}
			}
			switch {
			case a == b:
				l = append(l, "equal")
			case strings.HasPrefix(a, b) || strings.HasPrefix(b, a):
				l = append(l, "prefix")
			default:
				l = append(l, "different")
			}
			for _, o := range c.Opts {
				l = append(l, string(o))
			}
			if c.Dash > 0 {
				l = append(l, "stdin")
			}
			l = append(l, sizeLabel(len(a)))
			return a != b || len(a) > 4096, l
		})
}
