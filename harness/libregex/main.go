// Command libregex checks the basic regular expressions.
package main

import (
	"fmt"
	"strings"

	"github.com/fwip/posix-utils/pkg/regexes"
	"pgregory.net/rapid"
	"verifharness/vh"
)

type elem struct {
	Kind  string // lit, any, set
	Chars string // the character, or the members of the list
	Rep   string // "", "*", "{m}", "{m,}", "{m,n}"
	Min   int
	Max   int // -1: no limit
}

func (e elem) src() string {
	switch e.Kind {
	case "any":
		return "." + e.Rep
	case "set":
		return "[" + e.Chars + "]" + e.Rep
	}
	return e.Chars + e.Rep
}

func (e elem) matches(r rune) bool {
	return e.Kind == "any" || strings.ContainsRune(e.Chars, r)
}

type reCase struct {
	Left, Right bool
	Elems       []elem
	Subject     string
}

func (c reCase) src() string {
	s := ""
	if c.Left {
		s = "^"
	}
	for _, e := range c.Elems {
		s += e.src()
	}
	if c.Right {
		s += "$"
	}
	return s
}

var litChars = []string{"a", "b", "c", "a", "b", "x", "0", " ", "é", "世", ",", "-", "+", "?", "|", "/", "\t", "A", "1", "\n", "B", "É", "\u0301", "🙂", "\ufffd", "\x00", "\r", "\x7f", "ß", "\u200b", "=", "<", "&", "%", "_", "~", "\"", "'", "#", "]"}
var setChars = []string{"a", "b", "c", "x", "0", "é", "世", ".", "*", "{", ",", "}", " ", "A", "B", "É", "\u0301", "🙂", "\ufffd", "\x00", "\r", "\t", "\n", "\x7f", "$", "?", "+", "|", "/", "&", "_", "("}

func genElem(t *rapid.T, big bool) elem {
	e := elem{Min: 1, Max: 1}
	switch vh.Int(t, 0, 5, "element") {
	case 0:
		e.Kind = "any"
	case 1, 2:
		e.Kind = "set"
		e.Chars = strings.Join(rapid.SliceOfN(rapid.SampledFrom(setChars), 1, 4).Draw(t, "set"), "")
		if vh.OneIn(t, 40, "large set") {
			e.Chars = strings.Join(rapid.SliceOfN(rapid.SampledFrom(setChars), 5, 70).Draw(t, "large set"), "")
		}
		if vh.OneIn(t, 12, "plain here") { // not the first, and last: nothing special
			r := []rune(e.Chars)
			at := vh.Int(t, 1, len(r), "^ at")
			e.Chars = string(r[:at]) + "^" + string(r[at:])
			if vh.Bool(t, "hyphen") {
				e.Chars += "-"
			}
		}
	default:
		e.Kind = "lit"
		e.Chars = vh.Pick(t, "char", litChars...)
	}
	count := func(name string) int {
		if big {
			return vh.Pick(t, name, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257)
		}
		return vh.Int(t, 0, 4, name)
	}
	switch vh.Int(t, 0, 7, "repetition") {
	case 0, 1:
		e.Rep, e.Min, e.Max = "*", 0, -1
	case 2:
		m := count("m")
		e.Rep, e.Min, e.Max = fmt.Sprintf("{%d}", m), m, m
	case 3:
		m := count("m")
		e.Rep, e.Min, e.Max = fmt.Sprintf("{%d,}", m), m, -1
	case 4:
		m := count("m")
		n := m + vh.Int(t, 0, 3, "n-m")
		e.Rep, e.Min, e.Max = fmt.Sprintf("{%d,%d}", m, n), m, n
	}
	return e
}

func genElems(t *rapid.T) []elem {
	n := vh.Int(t, 0, 5, "elements")
	big := vh.OneIn(t, 10, "big counts")
	if big {
		n = vh.Int(t, 1, 2, "elements")
	}
	var es []elem
	for i := 0; i < n; i++ {
		es = append(es, genElem(t, big))
	}
	for i := 1; i+1 < len(es); i++ {
		// an anchor neither first nor last is an ordinary character
		if es[i].Kind == "lit" && vh.OneIn(t, 20, "ordinary here") {
			es[i].Chars = vh.Pick(t, "character", "^", "$")
		}
	}
	if !big && vh.OneIn(t, 40, "many elements") {
		// plain ones: repetitions could make backtracking take very long
		for k := vh.Pick(t, "more elements", 8, 16, 17, 31, 33, 64, 65, 100, 257); k > 0; k-- {
			e := elem{Kind: "lit", Min: 1, Max: 1, Chars: vh.Pick(t, "char", litChars...)}
			if vh.OneIn(t, 4, "set") {
				e.Kind, e.Chars = "set", vh.Pick(t, "set", "ab", "a.", "é*", "x")
			}
			es = append(es, e)
		}
	}
	return es
}

// genSubject draws a string near the language of the pattern.
func genSubject(t *rapid.T, c reCase) string {
	if vh.OneIn(t, 6, "unrelated") {
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(litChars), 0, 10).Draw(t, "subject"), "")
	}
	var sb []rune
	pick := func(e elem) rune {
		if e.Kind == "any" {
			return []rune(vh.Pick(t, "any", litChars...))[0]
		}
		rs := []rune(e.Chars)
		return rs[vh.Int(t, 0, len(rs)-1, "member")]
	}
	for _, e := range c.Elems {
		k := 0
		switch {
		case e.Max < 0:
			k = e.Min + vh.Int(t, 0, 3, "extra")
			// backtracking may cost the length to the power of the number of elements
			if len(c.Elems) == 1 && vh.OneIn(t, 25, "long run") {
				k += vh.Pick(t, "run", 60, 130, 250, 254, 255, 256, 300, 513, 1000, 1025)
			}
			if len(c.Elems) == 2 && vh.OneIn(t, 50, "run") {
				k += vh.Pick(t, "run", 60, 130, 255, 256, 300)
			}
		case e.Max > e.Min:
			k = vh.Int(t, e.Min, e.Max, "times")
		default:
			k = e.Min
		}
		if e.Rep != "" && vh.OneIn(t, 5, "off by one") {
			k = max(0, k+vh.Pick(t, "off", -1, 1))
		}
		r := pick(e)
		for i := 0; i < k; i++ {
			if i < 6 && vh.Bool(t, "other member") {
				r = pick(e)
			}
			sb = append(sb, r)
		}
	}
	// Damage and surroundings
	for i := vh.Int(t, 0, 2, "damage"); i > 0; i-- {
		if len(sb) == 0 {
			break
		}
		p := vh.Int(t, 0, len(sb)-1, "at")
		switch vh.Int(t, 0, 2, "how") {
		case 0:
			sb = append(sb[:p:p], sb[p+1:]...)
		case 1:
			sb[p] = []rune(vh.Pick(t, "char", litChars...))[0]
		case 2:
			sb = append(sb[:p:p], append([]rune(vh.Pick(t, "char", litChars...)), sb[p:]...)...)
		}
	}
	s := string(sb)
	if vh.OneIn(t, 3, "before") {
		s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(litChars), 1, 3).Draw(t, "prefix"), "") + s
	}
	if vh.OneIn(t, 3, "after") {
		s += strings.Join(rapid.SliceOfN(rapid.SampledFrom(litChars), 1, 3).Draw(t, "suffix"), "")
	}
	return s
}

func genMatch(t *rapid.T) reCase {
	c := reCase{Left: vh.OneIn(t, 3, "^"), Right: vh.OneIn(t, 3, "$"), Elems: genElems(t)}
	if n := len(c.Elems); n > 0 { // next to an anchor the same character is an ordinary one
		if c.Left && c.Elems[0].Kind == "lit" && vh.OneIn(t, 20, "^ after ^") {
			c.Elems[0].Chars = "^"
		}
		if c.Right && c.Elems[n-1].Kind == "lit" && vh.OneIn(t, 20, "$ before $") {
			c.Elems[n-1].Chars = "$"
		}
	}
	c.Subject = genSubject(t, c)
	return c
}

// inLanguage is the reference: the set of positions reachable after each element.
func inLanguage(c reCase) bool {
	rs := []rune(c.Subject)
	cur := make([]bool, len(rs)+1)
	for i := range cur {
		cur[i] = i == 0 || !c.Left
	}
	for _, e := range c.Elems {
		next := make([]bool, len(rs)+1)
		for i := range cur {
			if !cur[i] {
				continue
			}
			for k := 0; ; k++ {
				if k >= e.Min {
					next[i+k] = true
				}
				if (e.Max >= 0 && k == e.Max) || i+k >= len(rs) || !e.matches(rs[i+k]) {
					break
				}
			}
		}
		cur = next
	}
	if c.Right {
		return cur[len(rs)]
	}
	for _, b := range cur {
		if b {
			return true
		}
	}
	return false
}

func runMatch(e *vh.Env, c reCase) error {
	var b *regexes.Bre
	var err error
	got := false
	if p := vh.Catch(func() {
		b, err = regexes.ParseBre(c.src())
		if err == nil {
			got = b.Matches(c.Subject)
		}
	}); p != "" {
		return fmt.Errorf("pattern %q, subject %q: %s", c.src(), c.Subject, p)
	}
	if err != nil {
		return fmt.Errorf("pattern %q is rejected: %v", c.src(), err)
	}
	if want := inLanguage(c); got != want {
		return fmt.Errorf("pattern %q, subject %q: matches %v, want %v", c.src(), c.Subject, got, want)
	}
	return nil
}

// C15

type badCase struct {
	Left, Right   bool
	Before, After []elem
	Damage        string // what stands between them; "" for a well-formed pattern
}

var badCounts = []string{"{}", "{,}", "{,3}", "{a}", "{1,2,3}", "{1;2}", "{-1}", "{ 1}", "{1 }", "{1,a}", "{+1}", "{1,,2}", "{1.5}", "{1,2", "{1,", "{1", "{", "{é}", "{1,-2}", "{1x}", "{x,1}"}
var badSets = []string{"[abc", "[", "[a", "[é世", "[.", "[a-"}

func genBad(t *rapid.T) badCase {
	c := badCase{Left: vh.OneIn(t, 3, "^"), Right: vh.OneIn(t, 3, "$"), Before: genElems(t), After: genElems(t)}
	switch vh.Int(t, 0, 4, "damage") {
	case 0:
	case 1, 2:
		c.Damage = vh.Pick(t, "element", "a", ".", "[ab]", "é") + vh.Pick(t, "count", badCounts...)
		if !strings.Contains(c.Damage, "}") { // nothing after it may end the count
			c.After = strip(c.After, "}")
		}
	case 3, 4:
		c.Damage = vh.Pick(t, "list", badSets...)
		c.After = strip(c.After, "]")
	}
	return c
}

func strip(es []elem, s string) []elem {
	var out []elem
	for _, e := range es {
		if !strings.Contains(e.src(), s) {
			out = append(out, e)
		}
	}
	return out
}

func (c badCase) src() string {
	return reCase{Left: c.Left, Elems: c.Before}.src() + c.Damage + reCase{Right: c.Right, Elems: c.After}.src()
}

func runBad(e *vh.Env, c badCase) error {
	var b *regexes.Bre
	var err error
	p := vh.Catch(func() { b, err = regexes.ParseBre(c.src()) })
	rejected := p != "" || err != nil
	if c.Damage == "" && (rejected || b == nil) {
		return fmt.Errorf("well-formed pattern %q is rejected: %v %s", c.src(), err, p)
	}
	if c.Damage != "" && !rejected {
		return fmt.Errorf("malformed pattern %q is accepted", c.src())
	}
	return nil
}

func main() {
	vh.Register("C14", "patterns of up to five elements with repetitions and anchors, and subjects made from the pattern, then damaged; non-trivial: at least two elements or a repetition",
		genMatch, runMatch, func(c reCase) (bool, []string) {
			nt := len(c.Elems) > 1
			l := []string{"no match"}
			if inLanguage(c) {
				l = []string{"match"}
			}
			for _, e := range c.Elems {
				if e.Rep != "" {
					nt = true
					l = append(l, "repetition")
					break
				}
			}
			if c.Left {
				l = append(l, "^")
			}
			if c.Right {
				l = append(l, "$")
			}
			return nt, l
		})
	vh.Register("C15", "well-formed patterns with a damaged count or bracket list put between elements, or none; non-trivial: damaged, or at least two elements",
		genBad, runBad, func(c badCase) (bool, []string) {
			l := "well-formed"
			if c.Damage != "" {
				l = "malformed"
			}
			return c.Damage != "" || len(c.Before)+len(c.After) > 1, []string{l}
		})
	vh.Main()
}
