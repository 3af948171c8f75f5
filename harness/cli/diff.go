package main

import (
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C05

type diffCase struct {
	A, B    []vh.S
	Names   [2]vh.S
	Unterm  [2]bool // the last line lacks its newline
	Trouble string
	Fifo    [2]bool
	Same    bool // both operands name the first file
}

func genDiff(t *rapid.T) diffCase {
	c := diffCase{}
	rich := vh.Int(t, 0, 3, "alphabet")
	a, b := vh.GenPair(t, func(name string) string {
		if rich == 0 {
			return vh.Pick(t, name, "a", "b")
		}
		if rich == 1 {
			return vh.Pick(t, name, "", "a", "b", "c", "d", "---", "< a", "> a", "1d0", "a ", " a", "a\r")
		}
		if rich == 3 {
			return vh.Near(t, name)
		}
		return strings.ReplaceAll(vh.GenLine(t, name), "\x00", "0")
	})
	a, b = vh.WithRun(t, a, b, 2000)
	c.A, c.B = vh.Ss(a), vh.Ss(b)
	c.Names = [2]vh.S{vh.S(vh.Pick(t, "name1", "f", "a b", "100%d", "é", "./-", "sub/../f", strings.Repeat("n", 255))), vh.S(vh.Pick(t, "name2", "g", "b c", "%s", "x.txt"))}
	c.Unterm = [2]bool{vh.OneIn(t, 6, "unterminated"), vh.OneIn(t, 6, "unterminated")}
	if vh.OneIn(t, 15, "trouble") {
		c.Trouble = vh.Pick(t, "what", "missing1", "missing2", "dir1", "dir2", "one operand", "no operand", "three operands", "locked1", "locked2", "both missing", "both directories")
	} else if vh.OneIn(t, 8, "FIFOs") {
		c.Fifo = [2]bool{vh.Bool(t, "FIFO"), vh.Bool(t, "FIFO")}
	} else if vh.OneIn(t, 30, "same") {
		c.Same, c.B, c.Unterm[1] = true, c.A, c.Unterm[0]
	}
	return c
}

func diffText(lines []string, unterm bool) string {
	s := vh.JoinLines(lines, true)
	if n := len(lines); unterm && n > 0 && lines[n-1] != "" {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func runDiff(e *vh.Env, c diffCase) error {
	d := e.Dir()
	defer e.Drop(d)
	a, b := vh.Strs(c.A), vh.Strs(c.B)
	n1, n2 := string(c.Names[0]), string(c.Names[1])
	e.Mkdir(onDisk(d, "sub"), 0755)
	e.Write(onDisk(d, n1), diffText(a, c.Unterm[0]), 0644)
	e.Write(onDisk(d, n2), diffText(b, c.Unterm[1]), 0644)
	args := []string{n1, n2}
	if c.Same {
		args[1] = n1
	}
	switch c.Trouble {
	case "missing1":
		args[0] = "nothere"
	case "missing2":
		args[1] = "nothere"
	case "both missing":
		args = []string{"nothere", "nothere"}
	case "both directories":
		args = []string{"sub", "sub"}
	case "dir1":
		args[0] = "sub"
	case "dir2":
		args[1] = "sub"
	case "locked1":
		e.Write(onDisk(d, "locked"), "x\n", 0)
		args[0] = "locked"
	case "locked2":
		e.Write(onDisk(d, "locked"), "x\n", 0)
		args[1] = "locked"
	case "one operand":
		args = args[:1]
	case "no operand":
		args = nil
	case "three operands":
		args = append(args, n1)
	}
	if strings.HasPrefix(c.Trouble, "locked") && e.UID == 0 {
		return nil
	}
	cmd := vh.Cmd{Bin: "diff", Args: args, Dir: d, Unpriv: true}
	r := runWith(e, cmd, d, []fset{
		{c.Names[0], vh.Blob{{vh.S(diffText(a, c.Unterm[0])), 1}}, c.Fifo[0]},
		{c.Names[1], vh.Blob{{vh.S(diffText(b, c.Unterm[1])), 1}}, c.Fifo[1]}})
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if c.Trouble != "" {
		if r.Exit <= 1 || r.Out != "" || r.Err == "" {
			return bad("diff %q (%s): should exit > 1 with a diagnostic and no output: %v", args, c.Trouble, r)
		}
		return nil
	}
	same := len(a) == len(b)
	for i := 0; same && i < len(a); i++ {
		same = a[i] == b[i]
	}
	want := 1
	if same {
		want = 0
	}
	if same && c.Unterm[0] != c.Unterm[1] {
		// whether a missing newline counts as a difference is not stated
		return nil
	}
	if r.Exit != want {
		return bad("diff: exit %d, want %d: %v", r.Exit, want, r)
	}
	if same && r.Out != "" {
		return bad("diff of equal files prints something: %v", r)
	}
	if r.Err != "" {
		return bad("diff: unexpected stderr: %v", r)
	}
	if err := vh.CheckScript(r.Out, a, b); err != nil {
		return bad("diff: %v\n(%v)", err, r)
	}
	return nil
}

func init() {
	vh.Register("C05", "pairs of files made by inserting, deleting, changing, moving and repeating lines over small and large alphabets, and unusable operands; non-trivial: the files differ and share lines, or an operand is unusable",
		genDiff, runDiff, func(c diffCase) (bool, []string) {
			if c.Trouble != "" {
				return true, []string{"trouble"}
			}
			in := map[vh.S]bool{}
			for _, l := range c.A {
				in[l] = true
			}
			common := false
			for _, l := range c.B {
				common = common || in[l]
			}
			a, b := strings.Join(vh.Strs(c.A), "\n"), strings.Join(vh.Strs(c.B), "\n")
			same := a == b && len(c.A) == len(c.B)
			var l []string
			switch {
			case same:
				l = append(l, "equal")
			case common:
				l = append(l, "partly common")
			default:
				l = append(l, "nothing common")
			}
			if len(a) > 60000 {
				l = append(l, "long")
			}
			return common && !same, l
		})
}
