// Command libdiff checks the diff library.
package main

import (
	"fmt"
	"strings"

	"github.com/fwip/posix-utils/pkg/diff"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C06

type pairCase struct{ A, B []vh.S }

func gen(t *rapid.T) pairCase {
	rich := vh.Int(t, 0, 4, "alphabet")
	a, b := vh.GenPair(t, func(name string) string {
		switch rich {
		case 0:
			return vh.Pick(t, name, "a", "b")
		case 1:
			return vh.Pick(t, name, "a", "b", "c")
		case 2:
			return vh.Pick(t, name, "", "a", "b", " a", "+ a", "- a", "  a", "---", "> a", "< a", "1d0", "a\r", "%s")
		}
		if rich == 4 {
			return vh.Near(t, name)
		}
		return vh.GenLine(t, name)
	})
	a, b = vh.WithRun(t, a, b, 20000)
	return pairCase{vh.Ss(a), vh.Ss(b)}
}

type entry struct {
	kind byte
	text string
}

func run(e *vh.Env, c pairCase) (err error) {
	a, b := vh.Strs(c.A), vh.Strs(c.B)
	a0, b0 := append([]string{}, a...), append([]string{}, b...)
	var entries []entry
	format := ""
	if p := vh.Catch(func() {
		changes := diff.Diff(a, b)
		format = diff.Format(changes)
		for _, ch := range changes {
			s := fmt.Sprint(ch)
			if s == "" {
				continue // no lines
			}
			for _, l := range strings.Split(s, "\n") {
				if len(l) < 2 || !strings.Contains(" +-", l[:1]) || l[1] != ' ' {
					err = fmt.Errorf("change %q is not a kept, removed or added line", l)
					return
				}
				entries = append(entries, entry{l[0], l[2:]})
			}
		}
	}); p != "" {
		return fmt.Errorf("diff of %q and %q: %s", a0, b0, p)
	}
	if err != nil {
		return err
	}
	var old, new, removed, added []string
	gone := map[string]bool{}
	come := map[string]bool{}
	for _, en := range entries {
		switch en.kind {
		case ' ':
			old = append(old, en.text)
			new = append(new, en.text)
			gone, come = map[string]bool{}, map[string]bool{}
		case '-':
			old = append(old, en.text)
			removed = append(removed, en.text)
			gone[en.text] = true
		case '+':
			new = append(new, en.text)
			added = append(added, en.text)
			come[en.text] = true
		}
		if en.kind != ' ' && gone[en.text] && come[en.text] {
			return fmt.Errorf("diff of %q and %q: line %q is both removed and added between kept lines: %v", a0, b0, en.text, entries)
		}
	}
	if !same(old, a0) {
		return fmt.Errorf("diff of %q and %q: kept and removed lines make %q", a0, b0, old)
	}
	if !same(new, b0) {
		return fmt.Errorf("diff of %q and %q: kept and added lines make %q", a0, b0, new)
	}
	if same(a0, b0) && (len(removed)+len(added) > 0 || format != "") {
		return fmt.Errorf("diff of %q with itself reports a change: %q", a0, format)
	}
	if !same(a, a0) || !same(b, b0) {
		return fmt.Errorf("diff of %q and %q changes its inputs", a0, b0)
	}
	out := format
	if out != "" {
		out += "\n"
	}
	if err := vh.CheckScript(out, a0, b0); err != nil {
		return fmt.Errorf("format of diff of %q and %q: %v\n%s", a0, b0, err, vh.Short(format))
	}
	// The formatted changes are the ones of the list
	var r2, a2 []string
	for _, l := range strings.Split(format, "\n") {
		if strings.HasPrefix(l, "< ") {
			r2 = append(r2, l[2:])
		}
		if strings.HasPrefix(l, "> ") {
			a2 = append(a2, l[2:])
		}
	}
	if !same(r2, removed) || !same(a2, added) {
		return fmt.Errorf("format of diff of %q and %q shows other changes than the list: %s", a0, b0, vh.Short(format))
	}
	return nil
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func main() {
	vh.Register("C06", "pairs of line sequences made by inserting, deleting, changing, moving and repeating blocks over alphabets of 2, 3 and many lines; non-trivial: the sequences differ and share a line",
		gen, run, func(c pairCase) (bool, []string) {
			in := map[vh.S]bool{}
			for _, l := range c.A {
				in[l] = true
			}
			common := false
			for _, l := range c.B {
				common = common || in[l]
			}
			eq := same(vh.Strs(c.A), vh.Strs(c.B))
			l := "nothing common"
			if eq {
				l = "equal"
			} else if common {
				l = "partly common"
			}
			return common && !eq, []string{l}
		})
	vh.Main()
}
