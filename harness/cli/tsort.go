package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C07 and C08 at the command line

type tsortCase struct {
	Words []vh.S // all items, in input order
	Seps  []vh.S // separator before each word, and one at the end
	Mode  int    // 0 stdin, 1 file, 2 "-"
}

func (c tsortCase) text() string {
	var sb strings.Builder
	for i, w := range c.Words {
		sb.WriteString(string(c.Seps[i]))
		sb.WriteString(string(w))
	}
	sb.WriteString(string(c.Seps[len(c.Words)]))
	return sb.String()
}

func genItems(t *rapid.T, n int) []string {
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"}
	switch vh.Int(t, 0, 4, "names") {
	case 1:
		names = []string{"-", "--", "0", "1", "10", "%d", "%!s", "é", "世界", "A", "\xff", "ab", "abc", "#", "\"q\""}
		long := strings.Repeat("x", vh.Pick(t, "long", 10, 4096, 65535, 65536, 70000, 140000, 1<<20))
		names = append(names, long)
		if vh.Bool(t, "two long ones") { // of the same length
			names = append(names, long[1:]+vh.Pick(t, "end", "y", "X"), "y"+long[1:])
		}
	case 3: // easily taken for each other
		names = []string{"a", "A", "aa", "Aa", "AA", "a,", "a.", "a;", "1", "01", "1.0", "+1", "-1", "á", "a\u0301", "Á", "ß", "ss", "\xff", "\xfe", "\ufffd", "a\x00", "a\u200b", "\"a\""}
	case 2:
		names = nil
		for i := 0; i < max(60, n); i++ {
			names = append(names, fmt.Sprintf("n%02d", i))
		}
	}
	return rapid.Permutation(names).Draw(t, "order")[:min(n, len(names))]
}

func genSeps(t *rapid.T, words int) []vh.S {
	style := vh.Int(t, 0, 2, "layout")
	var out []vh.S
	for i := 0; i <= words; i++ {
		s := ""
		switch style {
		case 0: // a pair per line
			if i > 0 {
				s = " "
				if i%2 == 0 {
					s = "\n"
				}
			}
		case 1:
			if i > 0 {
				s = "\n"
			}
		default:
			s = vh.Pick(t, "sep", " ", "\n", "\t", "  ", "\n\n", "\r\n", " \n ", "\v", "\f")
		}
		if i == words && style < 2 && vh.OneIn(t, 4, "no final newline") {
			s = ""
		}
		out = append(out, vh.S(s))
	}
	return out
}

// genPairs draws an acyclic list of pairs over the items (which are in a valid order).
func genPairs(t *rapid.T, items []string) [][2]string {
	var pairs [][2]string
	n := len(items)
	k := vh.Int(t, 0, min(3*n, 40), "pairs")
	if n > 60 {
		// a chain of everything, an item before all others, one after all others,
		// or single items, besides
		switch vh.Int(t, 0, 3, "shape") {
		case 0:
			for i := 0; i+1 < n; i++ {
				pairs = append(pairs, [2]string{items[i], items[i+1]})
			}
		case 1:
			hub := vh.Int(t, 0, 2, "hub")
			for i := hub + 1; i < n; i++ {
				pairs = append(pairs, [2]string{items[hub], items[i]})
			}
			for i := hub + 1; hub > 0 && i < n; i += 2 {
				pairs = append(pairs, [2]string{items[0], items[i]})
			}
			for i := hub + 1; i+1 < n; i += 3 {
				pairs = append(pairs, [2]string{items[i], items[i+1]})
			}
		case 2:
			for i := 0; i+1 < n; i++ {
				pairs = append(pairs, [2]string{items[i], items[n-1]})
			}
		default:
			for _, x := range items {
				pairs = append(pairs, [2]string{x, x})
			}
		}
	}
	if n == 0 {
		return nil
	}
	for i := 0; i < k; i++ {
		switch vh.Int(t, 0, 5, "kind") {
		case 0:
			x := vh.Int(t, 0, n-1, "single")
			pairs = append(pairs, [2]string{items[x], items[x]})
		case 1:
			if len(pairs) > 0 {
				pairs = append(pairs, pairs[vh.Int(t, 0, len(pairs)-1, "repeat")])
			}
		case 2:
			if n > 1 {
				x := vh.Int(t, 0, n-2, "step")
				pairs = append(pairs, [2]string{items[x], items[x+1]})
			}
		default:
			if n > 1 {
				x := vh.Int(t, 0, n-2, "from")
				y := vh.Int(t, x+1, n-1, "to")
				pairs = append(pairs, [2]string{items[x], items[y]})
			}
		}
	}
	if len(pairs) > 1 && vh.Bool(t, "shuffle") {
		pairs = rapid.Permutation(pairs).Draw(t, "shuffled")
	}
	return pairs
}

func flat(pairs [][2]string) []vh.S {
	var out []vh.S
	for _, p := range pairs {
		out = append(out, vh.S(p[0]), vh.S(p[1]))
	}
	return out
}

func genTsort(t *rapid.T) tsortCase {
	n := vh.Int(t, 0, 10, "items")
	if vh.OneIn(t, 10, "many items") {
		n = vh.Int(t, 0, 60, "many")
		if vh.OneIn(t, 5, "very many") {
			n = vh.Pick(t, "very many", 64, 65, 100, 127, 129, 255, 257, 300, 500, 1100)
		}
	}
	c := tsortCase{Words: flat(genPairs(t, genItems(t, n)))}
	c.Seps = genSeps(t, len(c.Words))
	c.Mode = vh.Int(t, 0, 2, "mode")
	return c
}

func execTsort(e *vh.Env, c tsortCase) (vh.Cmd, vh.Result, error) {
	d := e.Dir()
	defer e.Drop(d)
	cmd := vh.Cmd{Bin: "tsort", Dir: d, Unpriv: true}
	switch c.Mode {
	case 0:
		cmd.Stdin = c.text()
	case 1:
		e.Write(onDisk(d, "in put"), c.text(), 0644)
		cmd.Args = []string{"in put"}
	case 2:
		cmd.Args = []string{"-"}
		cmd.Stdin = c.text()
	}
	r := e.Run(cmd)
	return cmd, r, cliTrouble(cmd, r)
}

func runTsort(e *vh.Env, c tsortCase) error {
	cmd, r, err := execTsort(e, c)
	if err != nil {
		return err
	}
	if r.Exit != 0 || r.Err != "" {
		return bad("tsort %q should exit 0 without diagnostics: %v", cmd.Args, r)
	}
	pos := map[string]int{}
	if r.Out != "" && !strings.HasSuffix(r.Out, "\n") {
		return bad("output does not end in a newline: %v", r)
	}
	for i, l := range vh.SplitLines(r.Out) {
		if _, ok := pos[l]; ok {
			return bad("item %s printed twice: %v", vh.Short(l), r)
		}
		pos[l] = i
	}
	items := map[string]bool{}
	for _, w := range c.Words {
		items[string(w)] = true
		if _, ok := pos[string(w)]; !ok {
			return bad("item %s is not printed: %v", vh.Short(string(w)), r)
		}
	}
	if len(items) != len(pos) {
		return bad("%d items printed, there are %d: %v", len(pos), len(items), r)
	}
	for i := 0; i+1 < len(c.Words); i += 2 {
		x, y := string(c.Words[i]), string(c.Words[i+1])
		if x != y && pos[x] > pos[y] {
			return bad("%s must come before %s: %v", vh.Short(x), vh.Short(y), r)
		}
	}
	return nil
}

type tsortBadCase struct {
	tsortCase
	Why string
}

func genTsortBad(t *rapid.T) tsortBadCase {
	n := vh.Int(t, 2, 10, "items")
	if vh.OneIn(t, 15, "many items") {
		n = vh.Pick(t, "many", 20, 60, 64, 100, 129, 257, 300, 1100)
	}
	items := genItems(t, n)
	pairs := genPairs(t, items)
	c := tsortBadCase{Why: vh.Pick(t, "why", "cycle", "cycle", "odd", "both")}
	if c.Why != "odd" {
		k := vh.Int(t, 2, len(items), "cycle length")
		if len(items) > 60 && vh.Bool(t, "short cycle") {
			k = vh.Int(t, 2, 4, "short")
		}
		at := vh.Int(t, 0, len(items)-k, "cycle start")
		cyc := items[at : at+k]
		var add [][2]string
		for i := range cyc {
			add = append(add, [2]string{cyc[i], cyc[(i+1)%k]})
		}
		pairs = append(pairs, add...)
		if vh.Bool(t, "shuffle") {
			pairs = rapid.Permutation(pairs).Draw(t, "shuffled")
		}
	}
	c.Words = flat(pairs)
	if c.Why != "cycle" {
		at := vh.Int(t, 0, len(c.Words), "odd at")
		w := vh.S(vh.Pick(t, "odd", append([]string{"new"}, items...)...))
		c.Words = append(c.Words[:at:at], append([]vh.S{w}, c.Words[at:]...)...)
	}
	c.Seps = genSeps(t, len(c.Words))
	c.Mode = vh.Int(t, 0, 2, "mode")
	return c
}

func runTsortBad(e *vh.Env, c tsortBadCase) error {
	cmd, r, err := execTsort(e, c.tsortCase)
	if err != nil {
		return err
	}
	if r.Exit == 0 || r.Err == "" || r.Out != "" {
		return bad("tsort %q (%s): should exit non-zero with a diagnostic and no output: %v", cmd.Args, c.Why, r)
	}
	return nil
}

func init() {
	vh.Register("C07", "acyclic pair lists over up to 60 items with repeated pairs, identical pairs and mixed white space; non-trivial: at least two different pairs of different items",
		genTsort, runTsort, func(c tsortCase) (bool, []string) {
			d := map[[2]vh.S]bool{}
			self := false
			for i := 0; i+1 < len(c.Words); i += 2 {
				if c.Words[i] != c.Words[i+1] {
					d[[2]vh.S{c.Words[i], c.Words[i+1]}] = true
				} else {
					self = true
				}
			}
			var l []string
			if self {
				l = append(l, "announced item")
			}
			if len(d) > 10 {
				l = append(l, "more than 10 pairs")
			}
			l = append(l, []string{"stdin", "file", "dash"}[c.Mode])
			return len(d) > 1, l
		})
	vh.Register("C08", "pair lists with a cycle of two or more items or an odd number of items, within any acyclic remainder; non-trivial: at least three items in the input",
		genTsortBad, runTsortBad, func(c tsortBadCase) (bool, []string) { return len(c.Words) > 2, []string{c.Why} })
}
