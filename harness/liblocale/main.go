// Command liblocale checks the parser of locale definitions.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/fwip/posix-utils/pkg/locale"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// ---- the child that parses ----

// child parses the texts on standard input, in order, and reports each result
// on descriptor 3. It ends at the first text that is rejected.
func child() {
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			var size, rss int
			b, _ := os.ReadFile("/proc/self/statm")
			fmt.Sscan(string(b), &size, &rss)
			if rss*os.Getpagesize() > 2<<30 {
				os.Exit(77)
			}
		}
	}()
	out := os.NewFile(3, "results")
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(78)
	}
	var texts []vh.S
	if json.Unmarshal(in, &texts) != nil {
		os.Exit(78)
	}
	for _, t := range texts {
		r := locale.VerifParse(string(t))
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		if r.Status != 0 {
			os.Exit(1)
		}
	}
	os.Exit(0)
}

// parse parses the texts in a fresh process. The result has an entry for every
// text that was accepted or rejected by status; a crash gives none.
func parse(texts []vh.S) (res []locale.VerifDef, note string, err error) {
	for try, limit := range []time.Duration{20 * time.Second, 45 * time.Second} {
		res, note, err = parseOnce(texts, limit)
		if _, ok := err.(*vh.Hang); !ok || try == 1 {
			return
		}
	}
	return
}

func parseOnce(texts []vh.S, limit time.Duration) ([]locale.VerifDef, string, error) {
	in, _ := json.Marshal(texts)
	r, w, err := os.Pipe()
	if err != nil {
		vh.Infra("%v", err)
	}
	defer r.Close()
	cmd := exec.Command(os.Args[0], "-child")
	cmd.Stdin = bytes.NewReader(in)
	var stderr limited
	cmd.Stderr = &stderr
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		vh.Infra("%v", err)
	}
	w.Close()
	killed := make(chan bool, 1)
	timer := time.AfterFunc(limit, func() { killed <- true; cmd.Process.Kill() })
	data, _ := io.ReadAll(r)
	cmd.Wait()
	timer.Stop()
	select {
	case <-killed:
		return nil, "", &vh.Hang{Msg: fmt.Sprintf("parsing does not end within %v: %s", limit, vh.Short(string(texts[len(texts)-1])))}
	default:
	}
	switch cmd.ProcessState.ExitCode() {
	case 77:
		return nil, "", &vh.Hang{Msg: fmt.Sprintf("parsing takes more than 2 GB: %s", vh.Short(string(texts[len(texts)-1])))}
	case 78, -1:
		vh.Infra("the parsing process failed: %s %s", cmd.ProcessState, stderr.b.String())
	}
	var res []locale.VerifDef
	for _, l := range strings.Split(string(data), "\n") {
		if l == "" {
			continue
		}
		var d locale.VerifDef
		if err := json.Unmarshal([]byte(l), &d); err != nil {
			vh.Infra("%v in %q", err, l)
		}
		res = append(res, d)
	}
	note := stderr.b.String()
	if i := strings.Index(note, "\n\n"); i >= 0 {
		note = note[:i]
	}
	return res, note, nil
}

type limited struct{ b bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 4096 {
		l.b.Write(p)
	}
	return len(p), nil
}

// ---- documents ----

type stmt struct {
	Key  string
	Kind string // str int ints strs chars pairs msg order
	Vals []string
	Raw  string // a damaged line, used as it is
}

type cat struct {
	Name, End string
	Body      []stmt
	NoEnd     bool
}

type keyword struct {
	key, kind string
	n         int // required number of values, 0 for any
}

var categories = map[string][]keyword{
	"LC_CTYPE": {{"upper", "chars", 0}, {"lower", "chars", 0}, {"alpha", "chars", 0}, {"digit", "chars", 0}, {"alnum", "chars", 0},
		{"space", "chars", 0}, {"cntrl", "chars", 0}, {"punct", "chars", 0}, {"graph", "chars", 0}, {"print", "chars", 0},
		{"xdigit", "chars", 0}, {"blank", "chars", 0}, {"toupper", "pairs", 0}, {"tolower", "pairs", 0}},
	"LC_MONETARY": {{"int_curr_symbol", "str", 1}, {"currency_symbol", "str", 1}, {"mon_decimal_point", "str", 1},
		{"mon_thousands_sep", "str", 1}, {"mon_grouping", "ints", 0}, {"positive_sign", "str", 1}, {"negative_sign", "str", 1},
		{"int_frac_digits", "int", 1}, {"frac_digits", "int", 1}, {"p_cs_precedes", "int", 1}, {"p_sep_by_space", "int", 1},
		{"n_cs_precedes", "int", 1}, {"n_sep_by_space", "int", 1}, {"p_sign_posn", "int", 1}, {"n_sign_posn", "int", 1},
		{"int_p_cs_precedes", "int", 1}, {"int_p_sep_by_space", "int", 1}, {"int_n_cs_precedes", "int", 1},
		{"int_n_sep_by_space", "int", 1}, {"int_p_sign_posn", "int", 1}, {"int_n_sign_posn", "int", 1}},
	"LC_NUMERIC": {{"decimal_point", "str", 1}, {"thousands_sep", "str", 1}, {"grouping", "ints", 0}},
	"LC_TIME": {{"abday", "strs", 7}, {"day", "strs", 7}, {"abmon", "strs", 12}, {"mon", "strs", 12}, {"am_pm", "strs", 2},
		{"d_t_fmt", "strs", 1}, {"d_fmt", "strs", 1}, {"t_fmt", "strs", 1}, {"t_fmt_ampm", "strs", 1}, {"era", "eras", 0},
		{"era_d_fmt", "strs", 1}, {"era_t_fmt", "strs", 1}, {"era_d_t_fmt", "strs", 1}, {"alt_digits", "strs", 0}},
	"LC_MESSAGES": {{"yesexpr", "msg", 1}, {"noexpr", "msg", 1}},
	"LC_COLLATE":  {{"order_start", "order", 0}},
}

var catNames = []string{"LC_MONETARY", "LC_CTYPE", "LC_COLLATE", "LC_NUMERIC", "LC_TIME", "LC_MESSAGES"}

type doc struct {
	Com, Esc string // redefined characters; empty if not redefined
	EscFirst bool
	Cats     []cat
}

func genText(t *rapid.T, min int, avoid string, name string) string {
	if vh.OneIn(t, 3, name+" kind") {
		s := vh.Pick(t, name+" known", "USD ", "$", ".", ",", "-", "%H:%M:%S", "%a, %d %b; %Y", "é", "平成", "€ ", " ", "a b", "LC_TIME", "END LC_MONETARY", "3;3", "#", "# x", "order_end", "1")
		for _, r := range avoid {
			s = strings.ReplaceAll(s, string(r), "_")
		}
		return s
	}
	alphabet := []rune("abcXYZ019 _-.,;:!?=()[]{}|^~&'`#%$@*+/é月€\t")
	var b strings.Builder
	n := vh.Int(t, min, 6, name+" length")
	if vh.OneIn(t, 100, name+" long") {
		n = vh.Pick(t, name+" length", 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000)
	}
	for i := 0; i < n; i++ {
		r := rapid.SampledFrom(alphabet).Draw(t, name)
		if strings.ContainsRune(avoid, r) {
			r = 'q'
		}
		b.WriteRune(r)
	}
	return b.String()
}

func genChar(t *rapid.T, name string) string {
	return "<" + vh.Pick(t, name, "A", "B", "z", "a", "space", "vertical-tab", "NUL", "left-curly-bracket", "U0041", "a_b", "IS4", "zero", "one", "A-acute", "U00E9", "e", "Z", "asterisk", "U0001F642", "x1", "a-long-name-of-a-character") + ">"
}

// withEscape puts an escaped character into a string, now and then.
func withEscape(t *rapid.T, d *doc, v string) string {
	if d.Esc != "" || !vh.OneIn(t, 10, "escaped") {
		return v
	}
	r := []rune(v)
	at := vh.Int(t, 1, len(r)-1, "escape at")
	if vh.Bool(t, "at the end") {
		at = len(r) - 1
	}
	e := vh.Pick(t, "escape", `\d65`, `\d065`, `\d122`, `\x41`, `\x7a`, `\101`, `\060`, `\,`, `\;`, `\<`, `\>`, `\\`)
	return string(r[:at]) + e + string(r[at:])
}

func genStmt(t *rapid.T, k keyword, d *doc) stmt {
	s := stmt{Key: k.key, Kind: k.kind}
	esc := d.Esc
	if esc == "" {
		esc = "\\"
	}
	n := k.n
	if n == 0 {
		n = vh.Int(t, 1, 4, k.key+" values")
		if vh.OneIn(t, 60, k.key+" many values") {
			n = vh.Pick(t, k.key+" values", 5, 8, 10, 16, 17, 26, 32, 33, 64, 65, 100, 128, 129, 256, 257)
		}
	}
	for i := 0; i < n; i++ {
		var v string
		switch k.kind {
		case "str":
			v = `"` + genText(t, 0, esc, k.key) + `"`
			if k.key != "int_curr_symbol" { // which value that stands for is not recorded
				v = withEscape(t, d, v)
			}
		case "strs":
			v = withEscape(t, d, `"`+genText(t, 1, esc, k.key)+`"`)
		case "eras":
			v = `"` + vh.Pick(t, "era", "+:2:1990/01/01:+*:H:%EC%Ey", "-:1:-0001/12/31:-*:紀元前:%EC年", "+:6:1873/01/01:1912/07/29:m:%H:%M") + `"`
			for _, r := range esc {
				v = strings.ReplaceAll(v, string(r), ".")
			}
		case "msg":
			v = `"` + genText(t, 1, esc, k.key) + `"`
		case "int":
			v = strconv.Itoa(vh.Pick(t, k.key, 2, 0, 1, -1, 3, 4, 10, 127, 5, 6, 7, 8, 9, 128, 255, 256, 1000))
		case "ints":
			v = strconv.Itoa(vh.Pick(t, k.key, 3, 2, 0, 1, -1, 4, 12, 127, 5, 6, 7, 8, 9, 10, 30, 128, 255, 256, 1000))
		case "chars":
			v = genChar(t, k.key)
		case "pairs":
			v = "(" + genChar(t, k.key) + "," + genChar(t, k.key) + ")"
		case "order":
			v = genChar(t, k.key)
		}
		s.Vals = append(s.Vals, v)
	}
	if k.kind == "order" { // the first value is the option
		s.Vals = append([]string{vh.Pick(t, "order option", "", "forward", "backward", "position")}, s.Vals...)
	}
	return s
}

func genDoc(t *rapid.T) doc {
	var d doc
	if vh.OneIn(t, 3, "comment_char") {
		d.Com = vh.Pick(t, "comment character", "%", "$", "!", "@", "*")
	}
	if vh.OneIn(t, 3, "escape_char") {
		d.Esc = vh.Pick(t, "escape character", "/", "@", "+")
		if d.Esc == d.Com {
			d.Esc = "/"
		}
	}
	d.EscFirst = vh.Bool(t, "escape_char first")
	names := rapid.Permutation(catNames).Draw(t, "categories")[:vh.Int(t, 1, vh.Pick(t, "most categories", 4, 4, 4, 6), "number of categories")]
	for _, n := range names {
		c := cat{Name: n, End: n}
		kws := rapid.Permutation(categories[n]).Draw(t, "keywords")
		m := vh.Int(t, 1, min(len(kws), 6), "number of keywords")
		if vh.OneIn(t, 30, "all keywords") {
			m = len(kws)
		}
		for _, k := range kws[:m] {
			c.Body = append(c.Body, genStmt(t, k, &d))
		}
		d.Cats = append(d.Cats, c)
	}
	if len(d.Cats) == 1 && d.Cats[0].Name == "LC_COLLATE" && vh.OneIn(t, 2, "not only collation") {
		d.Cats = append(d.Cats, cat{Name: "LC_NUMERIC", End: "LC_NUMERIC", Body: []stmt{{Key: "grouping", Kind: "ints", Vals: []string{"3"}}}})
	}
	return d
}

// renderer writes a document with decorations.
type renderer struct {
	t        *rapid.T
	b        strings.Builder
	com, esc string
	deco     bool
	spans    [][2]int // of every category: from the header to the end of its END line
}

func (r *renderer) chance(n int, name string) bool { return r.deco && vh.OneIn(r.t, n, name) }

func (r *renderer) ws() string {
	if r.deco {
		return vh.Pick(r.t, "whitespace", " ", "   ", "\t", " \t ")
	}
	return " "
}

func (r *renderer) noise() {
	if !r.chance(4, "noise") {
		return
	}
	for i := vh.Int(r.t, 1, 3, "noise lines"); i > 0; i-- {
		switch vh.Int(r.t, 0, 2, "noise kind") {
		case 0:
			text := vh.Pick(r.t, "comment", "", " a comment", "LC_TIME", " END LC_TIME", ` int_curr_symbol "X"`, " \"", "# %", "\tπ", "<A>", " escape_char !", "0")
			text = strings.ReplaceAll(text, r.esc, ".")
			r.b.WriteString(r.com + text + "\n")
		case 1:
			r.b.WriteString("\n")
		case 2:
			r.b.WriteString(vh.Pick(r.t, "blank line", " ", "\t", "  \t") + "\n")
		}
	}
}

func (r *renderer) list(vals []string) string {
	var b strings.Builder
	for i, v := range vals {
		if i > 0 {
			b.WriteString(";")
			if r.chance(4, "continuation") {
				b.WriteString(r.esc + "\n" + vh.Pick(r.t, "indent", "", " ", "\t", "      "))
			}
		}
		b.WriteString(v)
	}
	return b.String()
}

func render(t *rapid.T, d doc, deco bool) (string, [][2]int) {
	r := &renderer{t: t, com: "#", esc: "\\", deco: deco}
	r.noise()
	redef := func(word, c string, dst *string) {
		if c != "" {
			r.b.WriteString(word + r.ws() + c + "\n")
			*dst = c
			r.noise()
		}
	}
	if d.EscFirst {
		redef("escape_char", d.Esc, &r.esc)
	}
	redef("comment_char", d.Com, &r.com)
	if !d.EscFirst {
		redef("escape_char", d.Esc, &r.esc)
	}
	for i, c := range d.Cats {
		r.noise()
		start := r.b.Len()
		r.b.WriteString(c.Name)
		if r.chance(6, "space after the header") {
			r.b.WriteString(r.ws())
		}
		r.b.WriteString("\n")
		for _, s := range c.Body {
			r.noise()
			if s.Raw != "" {
				r.b.WriteString(s.Raw + "\n")
				continue
			}
			if s.Kind == "order" {
				r.b.WriteString(s.Key)
				if s.Vals[0] != "" {
					r.b.WriteString(r.ws() + s.Vals[0])
				}
				r.b.WriteString("\n")
				for _, v := range s.Vals[1:] {
					r.noise()
					r.b.WriteString(v + "\n")
				}
				r.noise()
				r.b.WriteString("order_end\n")
				continue
			}
			if r.chance(5, "indented keyword") {
				r.b.WriteString(r.ws())
			}
			r.b.WriteString(s.Key + r.ws() + r.list(s.Vals) + "\n")
		}
		r.noise()
		if !c.NoEnd {
			r.b.WriteString("END ")
			if r.chance(6, "continuation after END") {
				r.b.WriteString(r.esc + "\n")
			}
			r.b.WriteString(c.End)
			r.spans = append(r.spans, [2]int{start, r.b.Len()})
			if c.Name != "LC_COLLATE" && r.chance(6, "space after END") {
				r.b.WriteString(r.ws())
			}
			if i < len(d.Cats)-1 || !r.chance(4, "no final newline") {
				r.b.WriteString("\n")
			}
		}
	}
	if s := r.b.String(); strings.HasSuffix(s, "\n") {
		r.noise()
	}
	return r.b.String(), r.spans
}

// ---- C21 ----

type def struct {
	Text  vh.S
	Sym   *vh.S
	Frac  *int
	Group []int
	Deco  bool
}

type goodCase struct{ Defs []def }

func genGood(t *rapid.T) goodCase {
	var c goodCase
	for i := vh.Pick(t, "definitions", 1, 1, 1, 2, 3); i > 0; i-- {
		d := genDoc(t)
		f := def{Deco: !vh.OneIn(t, 4, "plain")}
		text, _ := render(t, d, f.Deco)
		f.Text = vh.S(text)
		for _, c := range d.Cats {
			for _, s := range c.Body {
				switch s.Key {
				case "int_curr_symbol":
					v := vh.S(s.Vals[0][1 : len(s.Vals[0])-1])
					f.Sym = &v
				case "int_frac_digits":
					n, _ := strconv.Atoi(s.Vals[0])
					f.Frac = &n
				case "mon_grouping":
					for _, v := range s.Vals {
						n, _ := strconv.Atoi(v)
						f.Group = append(f.Group, n)
					}
				}
			}
		}
		c.Defs = append(c.Defs, f)
	}
	return c
}

func runGood(e *vh.Env, c goodCase) error {
	err := tryGood(c)
	if _, hang := err.(*vh.Hang); err == nil || hang {
		return err
	}
	return tryGood(c)
}

func tryGood(c goodCase) error {
	var texts []vh.S
	for _, d := range c.Defs {
		texts = append(texts, d.Text)
	}
	res, note, err := parse(texts)
	if err != nil {
		return err
	}
	for i, d := range c.Defs {
		if i >= len(res) {
			return fmt.Errorf("definition %d is not accepted (%s): %s", i, note, vh.Short(string(d.Text)))
		}
		g := res[i]
		if g.Status != 0 {
			return fmt.Errorf("definition %d is not accepted (status %d): %s", i, g.Status, vh.Short(string(d.Text)))
		}
		if d.Sym != nil && g.HasSym && g.Sym != string(*d.Sym) {
			return fmt.Errorf("int_curr_symbol is recorded as %q, given %q: %s", g.Sym, *d.Sym, vh.Short(string(d.Text)))
		}
		if d.Frac != nil && g.HasInt && g.Frac != int64(*d.Frac) {
			return fmt.Errorf("int_frac_digits is recorded as %d, given %d: %s", g.Frac, *d.Frac, vh.Short(string(d.Text)))
		}
		if d.Group != nil && g.HasGroup {
			var got []int
			for _, n := range g.Group {
				got = append(got, int(n))
			}
			if !reflect.DeepEqual(got, d.Group) {
				return fmt.Errorf("mon_grouping is recorded as %v, given %v: %s", got, d.Group, vh.Short(string(d.Text)))
			}
		}
		if (d.Sym != nil && !g.HasSym) || (d.Frac != nil && !g.HasInt) || (d.Group != nil && !g.HasGroup) {
			vh.Count("recorded values that could not be looked up", 1)
		}
	}
	return nil
}

// ---- C22 ----

type badCase struct {
	Before []vh.S // well-formed definitions parsed first
	Text   vh.S
	What   string // what is wrong; empty if only termination is required
}

func isKeyword(cat, w string) bool {
	if w == "END" {
		return true
	}
	for _, k := range categories[cat] {
		if k.key == w {
			return true
		}
	}
	return false
}

func one[T any](t *rapid.T, xs []T, name string) int { return vh.Int(t, 0, len(xs)-1, name) }

// damage makes the text malformed in one way.
func damage(t *rapid.T) (string, string) {
	d := genDoc(t)
	deco := vh.Bool(t, "decorated")
	what := vh.Pick(t, "damage", "category", "keyword", "foreign keyword", "no END", "wrong END", "quote", "int", "ints",
		"trailing text", "truncated", "value", "chars", "pairs", "collation", "stray line", "broken string", "indented comment", "broken escape")
	ci := one(t, d.Cats, "damaged category")
	c := &d.Cats[ci]
	// find or make a statement of the kinds given, in a category that may hold it
	ensure := func(cat0 string, kinds ...string) *stmt {
		var kws []keyword
		for _, k := range categories[cat0] {
			for _, kind := range kinds {
				if k.kind == kind {
					kws = append(kws, k)
				}
			}
		}
		found := -1
		for i := range d.Cats {
			if d.Cats[i].Name == cat0 {
				found = i
			}
		}
		if found < 0 {
			d.Cats = append(d.Cats, cat{Name: cat0, End: cat0})
			found = len(d.Cats) - 1
			if vh.Bool(t, "first category") {
				d.Cats[0], d.Cats[found] = d.Cats[found], d.Cats[0]
				found = 0
			}
		}
		c = &d.Cats[found]
		k := kws[one(t, kws, "keyword to damage")]
		for i := range c.Body {
			if c.Body[i].Key == k.key {
				return &c.Body[i]
			}
		}
		c.Body = append(c.Body, genStmt(t, k, &d))
		if vh.Bool(t, "first keyword") {
			n := len(c.Body) - 1
			c.Body[0], c.Body[n] = c.Body[n], c.Body[0]
			return &c.Body[0]
		}
		return &c.Body[len(c.Body)-1]
	}
	trailing := ""
	if what == "broken escape" && d.Esc != "" { // the escape character is another one
		what = "broken string"
	}
	switch what {
	case "category":
		c.Name = vh.Pick(t, "bad category", "LC_BUTT", "LC_TIM", "LC_TIMES", "lc_time", "LC_ADDRESS", "XLC_TIME", "LC_", "LC_ALL", "LC", "LCTIME", "LC_COLLAT")
		if vh.Bool(t, "END too") {
			c.End = c.Name
		}
	case "keyword":
		s := &c.Body[one(t, c.Body, "keyword")]
		bad := vh.Pick(t, "misspelling", s.Key+"x", s.Key[:len(s.Key)-1], strings.ToUpper(s.Key), "x"+s.Key, s.Key[1:], s.Key+"_", s.Key+"_"+s.Key, "foo")
		if isKeyword(c.Name, bad) {
			bad = "foo"
		}
		s.Key = bad
	case "foreign keyword":
		other := vh.Pick(t, "other category", catNames...)
		if other == c.Name {
			other = "LC_NUMERIC"
			if c.Name == "LC_NUMERIC" {
				other = "LC_TIME"
			}
		}
		s := genStmt(t, categories[other][one(t, categories[other], "foreign keyword")], &d)
		i := vh.Int(t, 0, len(c.Body), "position")
		c.Body = append(c.Body[:i:i], append([]stmt{s}, c.Body[i:]...)...)
	case "no END":
		c.NoEnd = true
	case "wrong END":
		if vh.OneIn(t, 3, "shape") {
			c.NoEnd = true
			c.Body = append(c.Body, stmt{Raw: vh.Pick(t, "bad END", "END", "END ", "END"+c.Name, "end "+c.Name, "END "+strings.ToLower(c.Name), "EN "+c.Name, "ENDING "+c.Name, "END "+c.Name+" "+c.Name, "END "+c.Name+"x", "END "+c.Name+`"`, "END "+c.Name+" 1")})
			break
		}
		c.End = vh.Pick(t, "wrong END", append([]string{"LC_FOO", "LC_", c.Name + "X", c.Name[:len(c.Name)-1]}, catNames...)...)
		if c.End == c.Name {
			c.End = "LC_FOO"
		}
	case "quote":
		s := ensure(vh.Pick(t, "where", "LC_MONETARY", "LC_NUMERIC", "LC_TIME", "LC_MESSAGES"), "str", "strs", "msg", "eras")
		i := one(t, s.Vals, "string to damage")
		if vh.Bool(t, "opening quote") {
			s.Vals[i] = s.Vals[i][1:]
		} else {
			s.Vals[i] = s.Vals[i][:len(s.Vals[i])-1]
		}
	case "int":
		s := ensure("LC_MONETARY", "int")
		s.Vals = []string{vh.Pick(t, "bad int", "2x", "--2", "2-", "a", "1.5", "-", "2 3", "0x1", "2;3", `"2"`, "+", "2,", "- 1", "1-1", "2;", "<A>", `""`)}
	case "ints":
		s := ensure(vh.Pick(t, "where", "LC_MONETARY", "LC_NUMERIC"), "ints")
		s.Vals = []string{vh.Pick(t, "bad list", "3;;3", "3;", ";3", "3,3", "3;x", "x", "3 3", "3; 3", "3;-", "--1;3", "3;3-3", `"3"`, `"3;3"`, ";", "3;3;", "3;3x", "-;3", "3.3")}
	case "trailing text":
		trailing = vh.Pick(t, "trailing text", "garbage", "END", `"x"`, "LC_", "END LC_TIME", "LC_TIME", "1", "<A>", ";", "x y", "int_curr_symbol \"X\"", "order_end", "é", "abday \"a\"")
		if trailing == "LC_TIME" && false {
			break
		}
	case "value":
		if vh.Bool(t, "a string") {
			s := ensure(vh.Pick(t, "where", "LC_MONETARY", "LC_NUMERIC", "LC_TIME", "LC_MESSAGES"), "str", "strs", "msg", "eras")
			switch vh.Int(t, 0, 5, "how") {
			case 0:
				s.Raw = s.Key
			case 1:
				s.Raw = s.Key + strings.Join(s.Vals, ";")
			case 2:
				s.Vals = append(s.Vals[:len(s.Vals)-1:len(s.Vals)-1], s.Vals[len(s.Vals)-1]+` "x"`)
			case 3:
				s.Vals = []string{"x"}
			case 4:
				s.Vals = []string{"2"}
			case 5:
				s.Vals = append(s.Vals[:len(s.Vals)-1:len(s.Vals)-1], s.Vals[len(s.Vals)-1]+vh.Pick(t, "after the string", "x", ",", ";", ";;", " 1", "\"\""))
			}
			break
		}
		s := ensure("LC_MONETARY", "int", "ints")
		switch vh.Int(t, 0, 2, "how") {
		case 0:
			s.Raw = s.Key
		case 1:
			s.Raw = s.Key + strings.Join(s.Vals, ";")
		case 2:
			s.Vals = append(s.Vals, "x")
		}
	case "chars":
		s := ensure("LC_CTYPE", "chars")
		s.Vals = []string{vh.Pick(t, "bad list", "<A", "A>", "A", "<A>,<B>", "<A>;;<B>", "<A>;<B", "<A>;B", ";<A>", "<A> <B>", "<A><B>", "(<A>,<B>)", `"A"`, "<A>;<B>;", "<A B>", "<A>;<B>x", "1", "<A>>", "<<A>")}
	case "pairs":
		s := ensure("LC_CTYPE", "pairs")
		s.Vals = []string{vh.Pick(t, "bad list", "(<a>,<A>", "<a>,<A>", "<a>,<A>)", "(<a>;<A>)", "(<a>)", "(<a>,)", "(,<A>)", "()", "(<a>,<A>);", "(<a>,<A>),(<b>,<B>)", "(<a>,<A>)(<b>,<B>)", "(<a>,<A>);<b>", "(<a>,<A>,<B>)", "<a>", "(a,A)", "(<a>,<A>) (<b>,<B>)", "(<a>,<A);(<b>,<B>)")}
	case "collation":
		s := ensure("LC_COLLATE", "order")
		switch vh.Int(t, 0, 3, "how") {
		case 0:
			s.Vals[0] = vh.Pick(t, "bad option", "sideways", "forwards", "FORWARD", "1", "<A>", "forward,", "\"forward\"", "order_end")
		case 1: // no order_end
			c.Body = []stmt{{Raw: "order_start\n" + strings.Join(s.Vals[1:], "\n")}}
		case 2:
			s.Vals[1+one(t, s.Vals[1:], "symbol")] = vh.Pick(t, "bad symbol", "<A", "A>", "A", "<>>", "<A B>", "<A>x", "order_start", "\"A\"", "order_ends", "end")
		case 3:
			c.Body = []stmt{{Raw: strings.Join(s.Vals[1:], "\n") + "\norder_end"}}
		}
	case "broken string":
		s := ensure(vh.Pick(t, "where", "LC_MONETARY", "LC_NUMERIC", "LC_TIME", "LC_MESSAGES"), "str", "strs", "msg", "eras")
		i := one(t, s.Vals, "string to damage")
		v := s.Vals[i]
		p := vh.Int(t, 1, len(v)-1, "break")
		for p > 1 && !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", rune(v[p-1])) { // no continuation line
			p--
		}
		s.Vals[i] = v[:p] + "\n" + v[p:]
	case "broken escape":
		s := ensure(vh.Pick(t, "where", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"), "str", "strs")
		i := one(t, s.Vals, "string to damage")
		if strings.Contains(s.Vals[i], `\`) { // nothing that could swallow the escape
			s.Vals[i] = `"ab"`
		}
		r := []rune(s.Vals[i])
		p := vh.Int(t, 1, len(r)-1, "escape at")
		e := vh.Pick(t, "bad escape", `\d6z`, `\dz5`, `\d`+"\n"+`65`, `\xg1`, `\x4g`, `\x`+"\n"+`4`, `\1z0`, `\10`+"\n", `\q`, `\ `, `\A`)
		s.Vals[i] = string(r[:p]) + e + "z" + string(r[p:])
	case "indented comment":
		i := vh.Int(t, 0, len(c.Body), "position")
		s := stmt{Raw: vh.Pick(t, "comment", " # note", "\t#", "  # abday", " #")}
		c.Body = append(c.Body[:i:i], append([]stmt{s}, c.Body[i:]...)...)
	case "stray line":
		i := vh.Int(t, 0, len(c.Body), "position")
		s := stmt{Raw: vh.Pick(t, "stray line", "garbage", "LC_TIME", "LC_MONETARY", `"x"`, "1", ";", "é", "=", "(", "x \"y\"", "-1", "_", "order_end", "copyy \"POSIX\"")}
		c.Body = append(c.Body[:i:i], append([]stmt{s}, c.Body[i:]...)...)
	}
	text, spans := render(t, d, deco)
	if what == "truncated" {
		sp := spans[one(t, spans, "category to cut")]
		text = text[:vh.Int(t, sp[0]+1, sp[1]-1, "cut")]
	}
	if trailing != "" {
		if !strings.HasSuffix(text, "\n") {
			text += "\n"
		}
		text += trailing
		if vh.Bool(t, "newline") {
			text += "\n"
		}
	}
	return text, what
}

func genBad(t *rapid.T) badCase {
	var c badCase
	if vh.OneIn(t, 4, "parse another first") {
		s, _ := render(t, genDoc(t), true)
		c.Before = append(c.Before, vh.S(s))
	}
	if !vh.OneIn(t, 4, "arbitrary") {
		text, what := damage(t)
		c.Text, c.What = vh.S(text), what
		return c
	}
	var text string
	switch vh.Int(t, 0, 2, "source") {
	case 0:
		text = vh.AnyBytes(t, 60, "bytes")
	case 1:
		toks := []string{"LC_TIME", "LC_CTYPE", "LC_COLLATE", "LC_MONETARY", "LC_NUMERIC", "LC_MESSAGES", "END", "\n", "\n", " ", " ", "\"", "<A>", "<", ">", ";", "\\", "#", "upper", "toupper", "abday", "order_start", "order_end", "forward", "int_curr_symbol", "mon_grouping", "3", "-1", "(", ")", ",", "comment_char", "escape_char", "collating-element", "collating-symbol", "copy", "\\\n", "\r", "...", "yesexpr", "\xff", "charclass"}
		for i := vh.Int(t, 0, 20, "tokens"); i > 0; i-- {
			text += rapid.SampledFrom(toks).Draw(t, "token")
		}
	case 2:
		text, _ = render(t, genDoc(t), true)
		for i := vh.Int(t, 1, 3, "mutations"); i > 0 && len(text) > 0; i-- {
			p := vh.Int(t, 0, len(text)-1, "position")
			q := min(len(text), p+vh.Int(t, 1, 8, "length"))
			switch vh.Int(t, 0, 3, "mutation") {
			case 0:
				text = text[:p] + text[q:]
			case 1:
				text = text[:q] + text[p:]
			case 2:
				text = text[:p] + vh.AnyBytes(t, 3, "inserted") + text[p:]
			case 3:
				text = text[:p]
			}
		}
	}
	c.Text = vh.S(text)
	return c
}

func runBad(e *vh.Env, c badCase) error {
	texts := append(append([]vh.S{}, c.Before...), c.Text)
	res, _, err := parse(texts)
	if err != nil {
		return err
	}
	if c.What == "" {
		return nil
	}
	if len(res) == len(texts) && res[len(texts)-1].Status == 0 {
		return fmt.Errorf("a malformed definition (%s) is accepted: %s", c.What, vh.Short(string(c.Text)))
	}
	if len(res) < len(c.Before) {
		vh.Count("malformed definitions not reached", 1)
	}
	return nil
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-child" {
		child()
	}
	vh.Register("C21", "one to three definitions of 1-5 categories parsed in one process; non-trivial: comments, blank lines or continuations, or more than one category, or a recorded value",
		genGood, runGood, func(c goodCase) (bool, []string) {
			var labels []string
			nt := false
			for _, d := range c.Defs {
				if d.Deco {
					labels = append(labels, "decorated")
				}
				if d.Sym != nil || d.Frac != nil || d.Group != nil {
					labels = append(labels, "recorded value")
				}
				nt = nt || d.Deco || d.Sym != nil || d.Frac != nil || d.Group != nil || strings.Count(string(d.Text), "END ") > 1
			}
			if len(c.Defs) > 1 {
				labels = append(labels, "several definitions")
			}
			return nt, labels
		})
	vh.Register("C22", "definitions damaged in one of fifteen ways, mutated definitions, token soup and arbitrary bytes; non-trivial: a damaged definition, or arbitrary text of five bytes or more",
		genBad, runBad, func(c badCase) (bool, []string) {
			l := c.What
			if l == "" {
				l = "arbitrary text"
			}
			return c.What != "" || len(c.Text) >= 5, []string{l}
		})
	vh.Main()
}
