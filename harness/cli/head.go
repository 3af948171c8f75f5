package main

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C04, C24 (head part)

type headCase struct {
	Files   []fset
	Stdin   vh.Blob
	AsFile  bool
	N       int // -1: default
	NPos    int // position of -n among the operands
	Operand []int
}

func genTextBlob(t *rapid.T, name string) vh.Blob {
	if vh.Int(t, 0, 2, name+" lines?") > 0 {
		n := vh.Int(t, 0, 16, name+" lines")
		lines := make([]string, n)
		for i := range lines {
			lines[i] = vh.GenLine(t, name+" line")
		}
		b := vh.Blob{}
		for _, l := range lines {
			b = append(b, vh.Seg{vh.S(l + "\n"), 1})
		}
		if vh.OneIn(t, 3, name+" no final newline") {
			b = append(b, vh.Seg{vh.S(vh.GenLine(t, name+" last")), 1})
		}
		if vh.OneIn(t, 6, name+" repeat") {
			b = append(b, vh.Seg{"line\n", vh.Pick(t, name+" count", 5, 20, 1000, 20000, 70000, 300000)})
		}
		return b
	}
	return vh.GenBlob(t, 200000, name)
}

func genHead(t *rapid.T) headCase {
	c := headCase{Files: genFiles(t, 0, 4, 100)}
	for i := range c.Files {
		c.Files[i].Data = genTextBlob(t, "data")
	}
	c.Stdin = genTextBlob(t, "stdin")
	c.AsFile = vh.Bool(t, "stdin is a file")
	c.N = vh.Pick(t, "n", -1, 0, 1, 2, 3, 5, 9, 10, 11, 15, 100, 19999, 20000, 65535, 65536, 65537, 250000, 1<<31-1, 1<<40, 1<<63-1)
	lo := -1
	used := false
	n := vh.Int(t, 0, 5, "operands")
	if len(c.Files) == 0 {
		n = min(n, 1)
	}
	for i := 0; i < n; i++ {
		if used && len(c.Files) > 0 {
			lo = 0
		}
		o := vh.Int(t, lo, len(c.Files)-1, "operand")
		if o == -1 {
			used = true
		}
		c.Operand = append(c.Operand, o)
	}
	lines := c.N
	if lines < 0 {
		lines = 10
	}
	if used && strings.Count(c.Stdin.Bytes(), "\n") < lines && vh.Bool(t, "- again") { // nothing is left then
		c.Operand = append(c.Operand, -1)
	}
	if len(c.Files) > 0 && vh.OneIn(t, 80, "many operands") {
		c.Operand = append(c.Operand, manyOperands(t, c.Files)...)
	}
	c.NPos = 0
	if vh.OneIn(t, 4, "n later") {
		c.NPos = vh.Int(t, 0, len(c.Operand), "npos")
	}
	someFifos(t, c.Files, c.Operand)
	return c
}

func headOf(s string, n int) string {
	end := 0
	for i := 0; i < n && end < len(s); i++ {
		k := strings.IndexByte(s[end:], '\n')
		if k < 0 {
			return s
		}
		end += k + 1
	}
	return s[:end]
}

func (c headCase) args() []string {
	var args []string
	for i := 0; i <= len(c.Operand); i++ {
		if i == c.NPos && c.N >= 0 {
			args = append(args, "-n", strconv.Itoa(c.N))
		}
		if i < len(c.Operand) {
			if o := c.Operand[i]; o == -1 {
				args = append(args, "-")
			} else {
				args = append(args, string(c.Files[o].Name))
			}
		}
	}
	return args
}

func runHead(e *vh.Env, c headCase) error {
	d := e.Dir()
	defer e.Drop(d)
	putAll(e, d, c.Files)
	in := c.Stdin.Bytes()
	n := c.N
	if n < 0 {
		n = 10
	}
	want, left := "", in
	ops := c.Operand
	if len(ops) == 0 {
		ops = []int{-1}
	}
	for i, o := range ops {
		name, data := "-", left
		if o < 0 {
			left = "" // the first one takes it all, if there are more
		} else {
			name, data = string(c.Files[o].Name), c.Files[o].Data.Bytes()
		}
		if len(ops) > 1 {
			if i > 0 {
				want += "\n"
			}
			want += "==> " + name + " <==\n"
		}
		want += headOf(data, n)
	}
	args := c.args()
	cmd := vh.Cmd{Bin: "head", Args: args, Stdin: in, StdinFile: c.AsFile, Dir: d, Unpriv: true, Prefix: fewFiles(len(c.Operand))}
	r := runWith(e, cmd, d, c.Files)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if err := eq("stdout", cmd, r.Out, want, r); err != nil {
		return err
	}
	if r.Exit != 0 || r.Err != "" {
		return bad("head %q: should exit 0 and write nothing to stderr: %v", args, r)
	}
	return nil
}

func init() {
	vh.Register("C04", "files and standard input of random lines (any bytes, up to 70000 characters each) or raw data, N around the number of lines, random operand lists; non-trivial: some input is cut, or an input has a line beyond 4096 bytes, or there are several operands",
		genHead, runHead, func(c headCase) (bool, []string) {
			n := c.N
			if n < 0 {
				n = 10
			}
			ops := c.Operand
			if len(ops) == 0 {
				ops = []int{-1}
			}
			var l []string
			nt := len(ops) > 1
			if nt {
				l = append(l, "several operands")
			}
			for _, o := range ops {
				data := ""
				if o < 0 {
					data = c.Stdin.Bytes()
					l = append(l, "stdin")
				} else {
					data = c.Files[o].Data.Bytes()
				}
				h := headOf(data, n)
				if h != data {
					nt = true
					l = append(l, "cut")
				} else {
					l = append(l, "whole")
				}
				for _, line := range strings.Split(h, "\n") {
					if len(line) > 4096 {
						nt = true
						l = append(l, "long line")
						break
					}
				}
			}
			return nt, l
		})
}
