package vh

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// GenPair draws two line lists that share lines, by editing one into the other.
func GenPair(t *rapid.T, line func(string) string) (a, b []string) {
	n := Int(t, 0, 14, "lines")
	if OneIn(t, 12, "many") {
		n = Int(t, 0, 120, "many lines")
	}
	for i := 0; i < n; i++ {
		a = append(a, line("line"))
	}
	switch Int(t, 0, 5, "relation") {
	case 0:
		k := Int(t, 0, 14, "other lines")
		for i := 0; i < k; i++ {
			b = append(b, line("line"))
		}
		return
	case 1:
		return a, append(b, a...)
	}
	b = append(b, a...)
	k := Int(t, 1, 6, "edits")
	for i := 0; i < k; i++ {
		p := Int(t, 0, len(b), "at")
		switch Int(t, 0, 4, "edit") {
		case 0: // insert
			b = append(b[:p:p], append([]string{line("line")}, b[p:]...)...)
		case 1: // delete
			if p < len(b) {
				q := Int(t, p+1, min(len(b), p+4), "to")
				b = append(b[:p:p], b[q:]...)
			}
		case 2: // change
			if p < len(b) {
				b = append(b[:p:p], append([]string{line("line")}, b[p+1:]...)...)
			}
		case 3: // move a block
			if p < len(b) {
				q := Int(t, p+1, min(len(b), p+4), "to")
				block := append([]string{}, b[p:q]...)
				rest := append(append([]string{}, b[:p]...), b[q:]...)
				at := Int(t, 0, len(rest), "dest")
				b = append(rest[:at:at], append(block, rest[at:]...)...)
			}
		case 4: // repeat a block
			if p < len(b) {
				q := Int(t, p+1, min(len(b), p+4), "to")
				block := append([]string{}, b[p:q]...)
				b = append(b[:q:q], append(block, b[q:]...)...)
			}
		}
	}
	return
}

var hunkRe = regexp.MustCompile(`^(\d+)(?:,(\d+))?([acd])(\d+)(?:,(\d+))?$`)

// Near draws a line from ones that are easily taken for each other.
func Near(t *rapid.T, name string) string {
	return Pick(t, name, "a", "A", "a ", " a", "a\t", "a\xff", "a\xfe", "a?", "a\ufffd", "a\r", "é", "e\u0301", "É", "\xe9", "a\u200b", "\ufeffa", "1", "01", "1.0", "+1", "a  b", "a b", "a\tb", "<a", "&lt;a", "a\\n", "a\\", "a\\\\")
}

// sparse draws many lines, of which single ones scattered about are common.
func sparse(t *rapid.T) (a, b []string) {
	n := Pick(t, "sparse", 300, 400, 513, 700)
	m := n + Int(t, -50, 50, "more in the other")
	for i := 0; i < n; i++ {
		a = append(a, fmt.Sprintf("old %d", i))
	}
	for i := 0; i < m; i++ {
		b = append(b, fmt.Sprintf("new %d", i))
	}
	k := Int(t, 1, 12, "common")
	for i := 0; i < k; i++ {
		l := fmt.Sprintf("common %d", i)
		a[(i*2+1)*n/(2*k+2)] = l
		b[(i*2+1)*m/(2*k+2)+Int(t, 0, 3, "shift")] = l
	}
	return
}

// WithRun puts the same long run of different lines somewhere into both, now and then.
// Once in odds cases, what differs is long instead.
func WithRun(t *rapid.T, a, b []string, odds int) ([]string, []string) {
	if OneIn(t, 80, "scattered") {
		return sparse(t)
	}
	if OneIn(t, max(odds/10, 150), "popular") { // one line many times, among others
		k := Pick(t, "times", 30, 65, 129, 257, 300, 520)
		l := Pick(t, "popular", "", "}", "a", "line")
		var x, y []string
		for i := 0; i < k; i++ {
			x, y = append(x, l), append(y, l)
			if i%50 == 7 {
				x, y = append(x, fmt.Sprintf("old %d", i)), append(y, fmt.Sprintf("new %d", i))
			}
		}
		return append(x, a...), append(y, b...)
	}
	if OneIn(t, odds, "long change") {
		n, m := Pick(t, "removed", 0, 1, 1000, 10000, 33000, 70000), Pick(t, "added", 0, 1, 1000, 10000, 33000, 70000)
		for i := 0; i < n; i++ {
			a = append(a, fmt.Sprintf("old %d", i))
		}
		for i := 0; i < m; i++ {
			b = append(b, fmt.Sprintf("new %d", i))
		}
		if Bool(t, "end alike") {
			a, b = append(a, "end", ""), append(b, "end", "")
		}
		return a, b
	}
	if !OneIn(t, 40, "long run") {
		return a, b
	}
	n := Pick(t, "run", 99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1024, 3000)
	run := make([]string, n)
	for i := range run {
		run[i] = fmt.Sprintf("line %d", i)
	}
	p, q := Int(t, 0, len(a), "run at"), Int(t, 0, len(b), "run at")
	a = append(a[:p:p], append(run, a[p:]...)...)
	if OneIn(t, 4, "twice") { // a changed line in the middle
		run = append([]string{}, run...)
		run[n/2] = "changed"
	}
	return a, append(b[:q:q], append(run, b[q:]...)...)
}

// CheckScript checks that out is an edit script from a to b.
func CheckScript(out string, a, b []string) error {
	if out == "" {
		if strings.Join(a, "\n") != strings.Join(b, "\n") || len(a) != len(b) {
			return fmt.Errorf("no script, but the files differ")
		}
		return nil
	}
	if !strings.HasSuffix(out, "\n") {
		return fmt.Errorf("script does not end in a newline")
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	var built []string // the new file, made from the script
	oi := 0            // lines of a used
	i := 0
	take := func(n int, mark string) ([]string, error) {
		if i+n > len(lines) {
			return nil, fmt.Errorf("script ends within a hunk")
		}
		var got []string
		for k := 0; k < n; k++ {
			if !strings.HasPrefix(lines[i+k], mark) {
				return nil, fmt.Errorf("line %q of the script should start with %q", lines[i+k], mark)
			}
			got = append(got, lines[i+k][len(mark):])
		}
		i += n
		return got, nil
	}
	for i < len(lines) {
		m := hunkRe.FindStringSubmatch(lines[i])
		if m == nil {
			return fmt.Errorf("line %q of the script should be a change command", lines[i])
		}
		head := lines[i]
		i++
		num := func(s string, def int) int {
			if s == "" {
				return def
			}
			n, _ := strconv.Atoi(s)
			return n
		}
		a1 := num(m[1], 0)
		a2 := num(m[2], a1)
		b1 := num(m[4], 0)
		b2 := num(m[5], b1)
		if a2 < a1 || b2 < b1 {
			return fmt.Errorf("reversed range in %q", head)
		}
		oldN, newN := a2-a1+1, b2-b1+1
		start := a1 - 1 // lines of a before the hunk
		switch m[3] {
		case "a":
			if m[2] != "" {
				return fmt.Errorf("range before 'a' in %q", head)
			}
			oldN, start = 0, a1
		case "d":
			if m[5] != "" {
				return fmt.Errorf("range after 'd' in %q", head)
			}
			newN = 0
		}
		if start < oi || start+oldN > len(a) {
			return fmt.Errorf("%q is out of order or beyond the end of file1", head)
		}
		built = append(built, a[oi:start]...)
		oi = start
		wantB := len(built) + 1
		if m[3] == "d" {
			wantB = len(built)
		}
		if b1 != wantB {
			return fmt.Errorf("%q: line number of file2 should be %d", head, wantB)
		}
		if oldN > 0 {
			got, err := take(oldN, "< ")
			if err != nil {
				return err
			}
			for k := range got {
				if got[k] != a[oi+k] {
					return fmt.Errorf("%q: removed line %s is not line %d of file1 %s", head, Short(got[k]), oi+k+1, Short(a[oi+k]))
				}
			}
			oi += oldN
		}
		if m[3] == "c" {
			if i >= len(lines) || lines[i] != "---" {
				return fmt.Errorf("%q: no --- between removed and added lines", head)
			}
			i++
		}
		if newN > 0 {
			got, err := take(newN, "> ")
			if err != nil {
				return err
			}
			built = append(built, got...)
		}
	}
	built = append(built, a[oi:]...)
	if len(built) != len(b) {
		return fmt.Errorf("the script makes %d lines of file1, file2 has %d", len(built), len(b))
	}
	for k := range b {
		if b[k] != built[k] {
			return fmt.Errorf("the script makes line %d %s, in file2 it is %s", k+1, Short(built[k]), Short(b[k]))
		}
	}
	return nil
}
