// Command libtsort checks the tsort library.
package main

import (
	"fmt"

	"github.com/fwip/posix-utils/pkg/tsort"
	"pgregory.net/rapid"
	"verifharness/vh"
)

type sortCase struct{ Adds [][]vh.S }

// near are names that are easily taken for each other.
var near = []string{"a", "A", "aa", "Aa", "AA", "a,", "a.", "a;", "1", "01", "1.0", "+1", "-1", "á", "a\u0301", "Á", "ß", "ss", "\xff", "\xfe", "\ufffd", "a\x00", "a\u200b", "\"a\"", "", " a", "a ", "a b", "%s", "0", "\x00", "b"}

func names(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("i%d", i))
	}
	return out
}

// pool draws the names to choose n items from.
func pool(t *rapid.T, n int) []string {
	if n <= len(near) && vh.OneIn(t, 3, "near names") {
		return near
	}
	return names(n)
}

// genAcyclic draws orderings that agree with a hidden order.
func genAcyclic(t *rapid.T) sortCase {
	n := vh.Int(t, 1, 9, "items")
	if vh.OneIn(t, 10, "many") {
		n = vh.Int(t, 1, 40, "items")
		if vh.OneIn(t, 5, "very many") {
			n = vh.Pick(t, "very many", 64, 65, 100, 129, 255, 257, 300)
			if vh.OneIn(t, 10, "huge") {
				n = 1100
			}
		}
	}
	items := rapid.Permutation(pool(t, n)).Draw(t, "order")[:n]
	c := sortCase{}
	k := vh.Int(t, 0, min(4*n, 40), "orderings")
	if n > 40 {
		switch vh.Int(t, 0, 3, "shape") {
		case 0:
			for i := 0; i+1 < n; i++ {
				c.Adds = append(c.Adds, vh.Ss(items[i:i+2]))
			}
		case 1: // one of the first before all others
			hub := vh.Int(t, 0, 2, "hub")
			for i := hub + 1; i < n; i++ {
				c.Adds = append(c.Adds, vh.Ss([]string{items[hub], items[i]}))
			}
			for i := hub + 1; hub > 0 && i < n; i += 2 {
				c.Adds = append(c.Adds, vh.Ss([]string{items[0], items[i]}))
			}
			for i := hub + 1; i+1 < n; i += 3 {
				c.Adds = append(c.Adds, vh.Ss(items[i:i+2]))
			}
		case 2: // the last after all others
			for i := 0; i+1 < n; i++ {
				c.Adds = append(c.Adds, vh.Ss([]string{items[i], items[n-1]}))
			}
		default:
			c.Adds = append(c.Adds, vh.Ss(items))
		}
	}
	for i := 0; i < k; i++ {
		var add []string
		switch vh.Int(t, 0, 5, "kind") {
		case 0: // one item, or none
			if vh.Bool(t, "single") {
				add = []string{items[vh.Int(t, 0, n-1, "item")]}
			}
		case 1: // again
			if len(c.Adds) > 0 {
				add = vh.Strs(c.Adds[vh.Int(t, 0, len(c.Adds)-1, "again")])
			}
		default:
			at := vh.Int(t, 0, n-1, "from")
			for len(add) < 6 && at < n {
				add = append(add, items[at])
				at += vh.Int(t, 1, 3, "step")
			}
			if len(add) > 2 && vh.Bool(t, "pair") {
				add = add[:2]
			}
		}
		c.Adds = append(c.Adds, vh.Ss(add))
	}
	return c
}

func genCyclic(t *rapid.T) sortCase {
	c := genAcyclic(t)
	n := vh.Int(t, 1, 6, "cycle length")
	names := pool(t, 9)
	if vh.OneIn(t, 20, "long cycle") {
		n = vh.Pick(t, "long cycle length", 10, 16, 17, 33, 64, 65, 100, 129, 257)
		names = pool(t, n)
	}
	cyc := rapid.Permutation(names).Draw(t, "cycle")[:n]
	var adds [][]vh.S
	if vh.Bool(t, "one ordering") {
		add := append(append([]string{}, cyc...), cyc[0])
		// with other items before and after
		if vh.Bool(t, "before") {
			add = append([]string{"before"}, add...)
		}
		if vh.Bool(t, "after") {
			add = append(add, "after")
		}
		adds = [][]vh.S{vh.Ss(add)}
	} else {
		for i := range cyc {
			adds = append(adds, []vh.S{vh.S(cyc[i]), vh.S(cyc[(i+1)%n])})
		}
	}
	for _, a := range adds {
		at := vh.Int(t, 0, len(c.Adds), "at")
		c.Adds = append(c.Adds[:at:at], append([][]vh.S{a}, c.Adds[at:]...)...)
	}
	return c
}

func order(c sortCase) (out []string, err error, panicked string) {
	panicked = vh.Catch(func() {
		var s tsort.Sorter
		for _, a := range c.Adds {
			s.Add(vh.Strs(a))
		}
		out, err = s.Order()
	})
	return
}

func cyclic(c sortCase) bool {
	next := map[string][]string{}
	for _, a := range c.Adds {
		for i := 0; i+1 < len(a); i++ {
			next[string(a[i])] = append(next[string(a[i])], string(a[i+1]))
		}
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, m := range next[n] {
			if visit(m) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range next {
		if visit(n) {
			return true
		}
	}
	return false
}

func runOrder(e *vh.Env, c sortCase) error {
	out, err, p := order(c)
	if p != "" {
		return fmt.Errorf("Order after %q: %s", c.Adds, p)
	}
	if err != nil {
		return fmt.Errorf("Order after %q fails: %v", c.Adds, err)
	}
	pos := map[string]int{}
	for i, o := range out {
		if _, ok := pos[o]; ok {
			return fmt.Errorf("Order after %q lists %q twice: %q", c.Adds, o, out)
		}
		pos[o] = i
	}
	all := map[string]bool{}
	for _, a := range c.Adds {
		for i := range a {
			all[string(a[i])] = true
			p, ok := pos[string(a[i])]
			if !ok {
				return fmt.Errorf("Order after %q omits %q: %q", c.Adds, a[i], out)
			}
			if i > 0 && pos[string(a[i-1])] >= p {
				return fmt.Errorf("Order after %q puts %q before %q: %q", c.Adds, a[i], a[i-1], out)
			}
		}
	}
	if len(all) != len(pos) {
		return fmt.Errorf("Order after %q invents items: %q", c.Adds, out)
	}
	return nil
}

func runCycle(e *vh.Env, c sortCase) error {
	if !cyclic(c) {
		return runOrder(e, c)
	}
	out, err, p := order(c)
	if p != "" {
		return fmt.Errorf("Order after %q: %s", c.Adds, p)
	}
	if err == nil {
		return fmt.Errorf("Order after the cyclic %q reports no error: %q", c.Adds, out)
	}
	return nil
}

func class(c sortCase) (bool, []string) {
	n := 0
	for _, a := range c.Adds {
		if len(a) > 1 {
			n++
		}
	}
	l := "acyclic"
	if cyclic(c) {
		l = "cyclic"
	}
	return n > 1, []string{l}
}

func main() {
	vh.Register("C07", "library: sequences of Add with orderings of zero to six items that agree with a hidden order, then Order; non-trivial: at least two orderings of two or more items", genAcyclic, runOrder, class)
	vh.Register("C08", "library: the same with the edges of a cycle inserted anywhere (or none), then Order; non-trivial: at least two orderings of two or more items", func(t *rapid.T) sortCase {
		if vh.OneIn(t, 4, "no cycle") {
			return genAcyclic(t)
		}
		return genCyclic(t)
	}, runCycle, class)
	vh.Main()
}
