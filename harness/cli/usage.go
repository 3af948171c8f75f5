package main

import (
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C31: command lines that cannot be honoured

type usageCase struct {
	Tool  string
	Kind  string
	Args  []vh.S
	Stdin vh.S
}

// good operands; f and g exist in the working directory
var usageFiles = []string{"f", "g", "./f", "sub/../g"}

func genUsage(t *rapid.T) usageCase {
	c := usageCase{Tool: vh.Pick(t, "tool", "head", "head", "cat", "cksum", "tsort", "diff", "cmp", "locale", "cut"), Stdin: "a b\n"}
	file := func() string { return vh.Pick(t, "file", usageFiles...) }
	files := func(lo, hi int) (l []string) {
		for i := vh.Int(t, lo, hi, "operands"); i > 0; i-- {
			l = append(l, file())
		}
		return
	}
	unknown := func() []string {
		return []string{vh.Pick(t, "unknown option", "-x", "-Z", "--no-such-option", "-é", "-%d", "-zz", "-Y1", "---")}
	}
	// put inserts b into a somewhere
	put := func(a, b []string) []string {
		p := vh.Int(t, 0, len(a), "at")
		return append(a[:p:p], append(b, a[p:]...)...)
	}
	number := func() string {
		return vh.Pick(t, "number", "", " ", "abc", "1x", "x1", "1 ", " 1", "0x10", "1.5", "1e3", "1,2", "five", "1_000", "٣", "99999999999999999999", "--", "-", "+", "++1", "1\n", "1k", "f")
	}
	var args []string
	switch c.Tool {
	case "head":
		c.Kind = vh.Pick(t, "kind", "bad number", "bad number", "no number", "unknown option")
		switch c.Kind {
		case "bad number":
			n := number()
			if vh.OneIn(t, 4, "negative") {
				n = vh.Pick(t, "negative", "-1", "-2", "-10", "-9223372036854775808", "-99999999999999999999")
			}
			args = put(files(0, 3), []string{"-n", n})
		case "no number":
			args = append(files(0, 3), "-n")
		default:
			args = put(files(0, 3), unknown())
		}
	case "cat", "cksum":
		c.Kind = "unknown option"
		args = put(files(0, 3), unknown())
	case "tsort":
		c.Kind = vh.Pick(t, "kind", "unknown option", "too many operands")
		if c.Kind == "unknown option" {
			args = put(files(0, 1), unknown())
		} else {
			args = files(2, 5)
			if vh.OneIn(t, 3, "dash") {
				args = put(args, []string{"-"})
			}
		}
	case "cmp":
		c.Kind = vh.Pick(t, "kind", "unknown option", "too many operands", "too few operands")
		switch c.Kind {
		case "unknown option":
			args = put(files(0, 2), unknown())
		case "too many operands":
			args = files(3, 6)
		default:
			args = files(0, 1)
		}
		if vh.OneIn(t, 3, "options") {
			args = put(args, []string{vh.Pick(t, "option", "-l", "-s")})
		}
	case "diff":
		c.Kind = vh.Pick(t, "kind", "unknown option", "too many operands", "too few operands", "bad number", "no number")
		switch c.Kind {
		case "unknown option":
			args = put(files(0, 2), unknown())
		case "too many operands":
			args = files(3, 6)
		case "too few operands":
			args = files(0, 1)
		case "bad number":
			args = put(files(2, 2), []string{vh.Pick(t, "option", "-C", "-U"), number()})
		default:
			args = append(files(2, 2), vh.Pick(t, "option", "-C", "-U"))
		}
	case "locale":
		c.Kind = "arguments"
		args = rapid.SliceOfN(rapid.SampledFrom([]string{"-a", "-m", "-x", "charmap", "LC_ALL", "LANG", "", "f", "-", "--", "decimal_point"}), 1, 3).Draw(t, "arguments")
	case "cut":
		c.Kind = vh.Pick(t, "kind", "unknown option", "no list", "several lists")
		switch c.Kind {
		case "unknown option":
			args = append(unknown(), files(0, 2)...)
		case "no list":
			args = files(0, 2)
		default:
			args = append([]string{"-f", "1", vh.Pick(t, "other", "-b", "-c"), "1"}, files(0, 2)...)
		}
	}
	c.Args = vh.Ss(args)
	return c
}

func runUsage(e *vh.Env, c usageCase) error {
	d := e.Dir()
	defer e.Drop(d)
	e.Mkdir(onDisk(d, "sub"), 0755)
	e.Write(onDisk(d, "f"), "a b\nb c\n", 0644)
	e.Write(onDisk(d, "g"), "a b\nb c\n", 0644)
	cmd := vh.Cmd{Bin: c.Tool, Args: vh.Strs(c.Args), Stdin: string(c.Stdin), Dir: d, Unpriv: true}
	r := e.Run(cmd)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	least := 1
	if c.Tool == "cmp" || c.Tool == "diff" {
		least = 2
	}
	if r.Exit < least || r.Err == "" {
		return bad("%s %q (%s): should exit with at least %d and a diagnostic: %v", c.Tool, cmd.Args, c.Kind, least, r)
	}
	// where the bad argument is taken for a file, the others may be shown
	if r.Out != "" && !(c.Kind == "unknown option" && (c.Tool == "cat" || c.Tool == "cksum" || c.Tool == "head")) {
		return bad("%s %q (%s): should print nothing: %v", c.Tool, cmd.Args, c.Kind, r)
	}
	return nil
}

func init() {
	vh.Register("C31", "command lines of head, cat, cksum, tsort, cmp, diff, locale and cut with an unknown option, a missing or malformed number, superfluous or missing operands at any position among good ones; non-trivial: there are good operands too, or several bad arguments",
		genUsage, runUsage, func(c usageCase) (bool, []string) {
			return len(c.Args) > 1, []string{c.Tool + ": " + c.Kind}
		})
}
