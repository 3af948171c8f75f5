package main

import (
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C01

type catCase struct {
	Files   []fset
	Stdin   vh.Blob
	AsFile  bool  // standard input is a file, not a pipe
	Operand []int // index of a file, -1 for "-", -2 for -u
}

func genCat(t *rapid.T) catCase {
	c := catCase{Files: genFiles(t, 0, 4, 200000)}
	c.Stdin = vh.GenBlob(t, 200000, "stdin")
	c.AsFile = vh.Bool(t, "stdin is a file")
	c.Operand = rapid.SliceOfN(rapid.IntRange(-2, len(c.Files)-1), 0, 7).Draw(t, "operands")
	if vh.OneIn(t, 60, "large") {
		if len(c.Files) > 0 && vh.Bool(t, "large file") {
			c.Files[0].Data = largeBlob(t)
		} else {
			c.Stdin = largeBlob(t)
		}
		if vh.OneIn(t, 3, "standard input alone") {
			c.Operand = nil
		}
	}
	if len(c.Files) > 0 && vh.OneIn(t, 80, "many operands") {
		c.Operand = append(c.Operand, manyOperands(t, c.Files)...)
	}
	someFifos(t, c.Files, c.Operand)
	return c
}

// fewFiles limits how many files may be open at a time when there are many operands.
func fewFiles(operands int) []string {
	if operands < 60 {
		return nil
	}
	return []string{"prlimit", "--nofile=40"}
}

// largeBlob draws data of one to sixteen megabytes.
func largeBlob(t *rapid.T) vh.Blob {
	n := vh.Pick(t, "large", 1<<20, 1<<21, 1<<22, 5000000, 1<<23, 1<<24) + vh.Int(t, -2, 2, "large delta")
	unit := vh.Pick(t, "large unit", "a line of sixteen", "x", "\n", "\x00\xff", "ab\n")
	b := vh.Blob{{vh.S(unit), n / len(unit)}}
	return append(b, vh.Seg{vh.S(vh.AnyBytes(t, 6, "tail")), 1})
}

// manyOperands makes the last file small and names it many times.
func manyOperands(t *rapid.T, files []fset) []int {
	files[len(files)-1].Data = vh.Blob{{vh.S(vh.AnyBytes(t, 12, "small")), 1}}
	ops := make([]int, vh.Pick(t, "times", 20, 64, 100, 255, 256, 300, 1100))
	for i := range ops {
		ops[i] = len(files) - 1
	}
	return ops
}

func runCat(e *vh.Env, c catCase) error {
	d := e.Dir()
	defer e.Drop(d)
	putAll(e, d, c.Files)
	var args []string
	want := ""
	in := c.Stdin.Bytes()
	n := 0
	rest := in
	for _, o := range c.Operand {
		switch o {
		case -2:
			args = append(args, "-u")
			continue
		case -1:
			args = append(args, "-")
			want += rest
			rest = ""
		default:
			args = append(args, string(c.Files[o].Name))
			want += c.Files[o].Data.Bytes()
		}
		n++
	}
	if n == 0 {
		want = in
	}
	cmd := vh.Cmd{Bin: "cat", Args: args, Stdin: in, StdinFile: c.AsFile, Dir: d, Unpriv: true, Prefix: fewFiles(len(c.Operand))}
	r := runWith(e, cmd, d, c.Files)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if err := eq("stdout", cmd, r.Out, want, r); err != nil {
		return err
	}
	if r.Exit != 0 || r.Err != "" {
		return bad("cat %q: should exit 0 and write nothing to stderr: %v", args, r)
	}
	return nil
}

func init() {
	vh.Register("C01", "file sets, standard input and operand lists drawn at random (sizes biased to buffer boundaries); non-trivial: at least two operands or 4096 bytes, some of them non-empty",
		genCat, runCat, func(c catCase) (bool, []string) {
			total, n, dash := 0, 0, 0
			for _, o := range c.Operand {
				switch o {
				case -2:
				case -1:
					n++
					dash++
				default:
					n++
					total += len(c.Files[o].Data.Bytes())
				}
			}
			if dash > 0 || n == 0 {
				total += len(c.Stdin.Bytes())
			}
			l := []string{sizeLabel(total)}
			if dash > 0 {
				l = append(l, "dash")
			}
			if dash > 1 {
				l = append(l, "dash twice")
			}
			if n > 1 {
				l = append(l, "several operands")
			}
			return total > 0 && (n > 1 || total >= 4096), l
		})
}
