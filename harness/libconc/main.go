// Command libconc checks that uses of the libraries do not influence each other.
// It is built with the race detector.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/fwip/posix-utils/pkg/diff"
	"github.com/fwip/posix-utils/pkg/ed"
	"github.com/fwip/posix-utils/pkg/flag"
	"github.com/fwip/posix-utils/pkg/locale"
	"github.com/fwip/posix-utils/pkg/regexes"
	"github.com/fwip/posix-utils/pkg/tsort"
	"github.com/fwip/posix-utils/pkg/txt"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C32

type job struct {
	Kind string // diff, bre, flag, tsort, piece, ed, era
	A    []vh.S
	B    []vh.S
	N    []int
}

type concCase struct {
	Jobs []job
}

func strs(t *rapid.T, name string, lo, hi int, from ...string) []vh.S {
	return vh.Ss(rapid.SliceOfN(rapid.SampledFrom(from), lo, hi).Draw(t, name))
}

var breParts = []string{"a", "b", "c", ".", "[ab]", "[bc]", "a*", "b*", ".*", "[ab]*", "a{2}", "b{1,}", "c{0,2}", "é", "[é世]"}

func genJob(t *rapid.T) job {
	j := job{Kind: vh.Pick(t, "kind", "diff", "bre", "flag", "tsort", "piece", "ed", "era")}
	switch j.Kind {
	case "diff":
		j.A = strs(t, "old", 0, 8, "a", "b", "c", "d", "")
		j.B = strs(t, "new", 0, 8, "a", "b", "c", "d", "")
	case "bre":
		j.A = strs(t, "pattern", 0, 4, breParts...)
		if vh.OneIn(t, 3, "^") {
			j.A = append([]vh.S{"^"}, j.A...)
		}
		if vh.OneIn(t, 3, "$") {
			j.A = append(j.A, "$")
		}
		j.B = strs(t, "subject", 0, 8, "a", "b", "c", "é", "世", "aab", "bbb")
	case "flag":
		j.A = strs(t, "arguments", 0, 6, "-a", "-b", "-ab", "-s", "-sx", "-n", "-n5", "7", "x", "--", "-", "-bn3", "-z", "12")
	case "tsort":
		j.A = strs(t, "items", 0, 12, "a", "b", "c", "d", "e", "f")
	case "piece":
		j.A = strs(t, "texts", 1, 6, "", "hello", "x", "line\n", "é", "0123456789")
		j.N = rapid.SliceOfN(rapid.IntRange(0, 30), 0, 12).Draw(t, "positions")
	case "ed":
		j.A = strs(t, "file", 0, 6, "a", "b", "", "foo", "x y", "é")
		j.B = strs(t, "commands", 1, 8, ".=\n", "p\n", ",n\n", "1d\n", "$a\nnew\n.\n", "1c\nx\ny\n.\n", "/a/p\n", "?o?n\n", "0a\n\n.\n", "$d\n", "1,2p\n", "w\n", "zz\n", "\n", "2i\nq\n.\n", "e\n")
	case "era":
		j.A = strs(t, "fields", 4, 7, "+", "-", "2", "1990/01/01", "+*", "name", "%EC", "", "x")
	}
	return j
}

func gen(t *rapid.T) concCase {
	c := concCase{}
	n := vh.Int(t, 2, 5, "jobs")
	for i := 0; i < n; i++ {
		j := genJob(t)
		if i > 0 && vh.Bool(t, "same kind") { // more likely to meet
			for k := 0; k < 20 && j.Kind != c.Jobs[0].Kind; k++ {
				j = genJob(t)
			}
		}
		c.Jobs = append(c.Jobs, j)
	}
	return c
}

// do runs a job and describes its result. shared is a pattern parsed before.
func do(j job, dir string, shared *regexes.Bre) (res string) {
	a, b := vh.Strs(j.A), vh.Strs(j.B)
	keptA, keptB := fmt.Sprintf("%q", a), fmt.Sprintf("%q", b)
	if p := vh.Catch(func() { res = doJob(j, a, b, dir, shared) }); p != "" {
		res = p
	}
	if fmt.Sprintf("%q", a) != keptA || fmt.Sprintf("%q", b) != keptB {
		res += fmt.Sprintf(" and the arguments %s %s became %q %q", keptA, keptB, a, b)
	}
	return
}

func doJob(j job, a, b []string, dir string, shared *regexes.Bre) string {
	switch j.Kind {
	case "diff":
		d := diff.Diff(a, b)
		return fmt.Sprintf("%v | %s", d, diff.Format(d))
	case "bre":
		re, err := regexes.ParseBre(strings.Join(a, ""))
		if err != nil {
			return "error"
		}
		s := strings.Join(b, "")
		r := fmt.Sprint(re.Matches(s))
		if shared != nil {
			if q := fmt.Sprint(shared.Matches(s)); q != r {
				return "the shared pattern says " + q
			}
		}
		return r
	case "flag":
		var x, y bool
		var s string
		var n int64
		p := flag.Parser{Input: a}
		p.BoolVar(&x, 'a')
		p.BoolVar(&y, 'b')
		p.StringVar(&s, 's')
		p.IntVar(&n, 'n')
		rest, err := p.Parse()
		return fmt.Sprintf("%v %v %q %d %q %v", x, y, s, n, rest, err != nil)
	case "tsort":
		var s tsort.Sorter
		for i := 0; i+1 < len(a); i += 2 {
			s.Add(a[i : i+2])
		}
		out, err := s.Order()
		if err != nil {
			return "error"
		}
		for i := 0; i+1 < len(a); i += 2 { // any valid order will do
			if at(out, a[i]) >= at(out, a[i+1]) {
				return fmt.Sprintf("%q in the wrong order", out)
			}
		}
		sort.Strings(out)
		return fmt.Sprintf("%q", out)
	case "piece":
		pt := txt.NewPieceTable(strings.NewReader(a[0]), len(a[0]))
		n := len(a[0])
		res := ""
		for i, p := range j.N {
			if i%3 == 2 && n > 0 {
				at := p % n
				l := min(n-at, 1+p/3)
				pt.Delete(l, at)
				n -= l
			} else {
				ins := a[i%len(a)]
				if ins == "" {
					continue
				}
				pt.Insert([]byte(ins), p%(n+1))
				n += len(ins)
			}
			res += pt.String() + "|"
		}
		return res
	case "ed":
		f := filepath.Join(dir, "file")
		text := strings.Join(a, "\n")
		if len(a) > 0 {
			text += "\n"
		}
		if err := os.WriteFile(f, []byte(text), 0644); err != nil {
			vh.Infra("%v", err)
		}
		e := ed.NewEditor(strings.NewReader(""), &bytes.Buffer{})
		if err := e.Edit(f, false); err != nil {
			return "cannot edit"
		}
		var out bytes.Buffer
		e.ProcessCommands(strings.NewReader(strings.Join(b, "")), &out)
		data, err := os.ReadFile(f)
		return fmt.Sprintf("%q %q %q %v", strings.ReplaceAll(out.String(), dir, "DIR"), e.String(), data, err)
	case "era":
		era, err := locale.NewEra(strings.Join(a, ":"))
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%+v", era)
	}
	return ""
}

func at(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func run(e *vh.Env, c concCase) error {
	n := len(c.Jobs)
	d := e.Dir()
	defer e.Drop(d)
	dirs := make([]string, 2*n)
	for i := range dirs {
		dirs[i] = filepath.Join(d, fmt.Sprint(i))
		if err := os.Mkdir(dirs[i], 0755); err != nil {
			vh.Infra("%v", err)
		}
	}
	want := make([]string, n)
	shared := make([]*regexes.Bre, n)
	for i, j := range c.Jobs {
		if j.Kind == "bre" {
			vh.Catch(func() { shared[i], _ = regexes.ParseBre(strings.Join(vh.Strs(j.A), "")) })
		}
	}
	for i, j := range c.Jobs {
		want[i] = do(j, dirs[i], nil)
	}
	for i := n - 1; i >= 0; i-- {
		if got := do(c.Jobs[i], dirs[i], shared[i]); got != want[i] {
			return fmt.Errorf("%s %q %q %v gives %s, and after other uses %s", c.Jobs[i].Kind, c.Jobs[i].A, c.Jobs[i].B, c.Jobs[i].N, vh.Short(want[i]), vh.Short(got))
		}
	}
	got := make([]string, 2*n)
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 3; k++ {
				got[i] = do(c.Jobs[i%n], dirs[i], shared[i%n])
				if got[i] != want[i%n] {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range got {
		if got[i] != want[i%n] {
			j := c.Jobs[i%n]
			return fmt.Errorf("%s %q %q %v gives %s, and beside other uses %s", j.Kind, j.A, j.B, j.N, vh.Short(want[i%n]), vh.Short(got[i]))
		}
	}
	return nil
}

func init() {
	vh.Register("C32", "sets of 2 to 5 uses of diff, regular expressions, option parser, sorter, piece table, editor and era descriptions, done one after another, in reverse order, and by two goroutines each at the same time under the race detector; non-trivial: two uses of the same package, or three uses",
		gen, run, func(c concCase) (bool, []string) {
			seen := map[string]int{}
			var l []string
			twice := false
			for _, j := range c.Jobs {
				if seen[j.Kind]++; seen[j.Kind] == 1 {
					l = append(l, j.Kind)
				} else {
					twice = true
				}
			}
			return twice || len(c.Jobs) > 2, l
		})
}

func main() {
	runtime.GOMAXPROCS(4)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		vh.Infra("%v", err)
	}
	os.Stderr = null // the editor's debugging output; the race detector writes to the descriptor
	vh.Main()
}
