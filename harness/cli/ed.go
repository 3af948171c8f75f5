package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C17, C18, C19 and the histories of C20

type edStart struct {
	Name vh.S
	Data vh.S
	Mode int
}

type edCase struct {
	Files  []edStart
	Links  [][2]vh.S `json:",omitempty"` // name and target
	Arg    vh.S      // file operand; "" for none
	Script []edOpJ
	Quit   string // "q", "Q" or ""
	NoEnd  bool   // the last line of the script has no newline
	Procs  int
	AsFile bool
	Modes  bool // check permission bits
}

// edOpJ is edOp with an exact JSON form.
type edOpJ edOp

type edOpWire struct {
	Cmd        string
	A1, A2     *edAddr `json:",omitempty"`
	Sep        string  `json:",omitempty"`
	Space      int     `json:",omitempty"`
	Text       []vh.S  `json:",omitempty"`
	File, Raw  vh.S    `json:",omitempty"`
	Pat1, Pat2 vh.S    `json:",omitempty"`
	Typed      vh.S
}

func (o edOpJ) MarshalJSON() ([]byte, error) {
	op := edOp(o)
	w := edOpWire{Cmd: o.Cmd, A1: o.A1, A2: o.A2, Sep: o.Sep, Space: o.Space, File: vh.S(o.File), Raw: vh.S(o.Raw), Typed: vh.S(op.source())}
	if o.Text != nil {
		w.Text = vh.Ss(o.Text)
	}
	return json.Marshal(w)
}

func (o *edOpJ) UnmarshalJSON(b []byte) error {
	var w edOpWire
	if err := json.Unmarshal(b, &w); err != nil {
		return err
	}
	*o = edOpJ{Cmd: w.Cmd, A1: w.A1, A2: w.A2, Sep: w.Sep, Space: w.Space, File: string(w.File), Raw: string(w.Raw)}
	if w.Text != nil {
		o.Text = vh.Strs(w.Text)
	}
	return nil
}

// newModel makes the model at the start of a case, and its first responses.
func (c *edCase) newModel() (*edModel, []string) {
	m := &edModel{files: map[string]*edFile{}, links: map[string]string{}}
	for _, l := range c.Links {
		m.links[string(l[0])] = string(l[1])
	}
	for _, f := range c.Files {
		data := string(f.Data)
		m.files[string(f.Name)] = &edFile{Lines: vh.SplitLines(data), Unterm: data != "" && !strings.HasSuffix(data, "\n"), Raw: &data, Mode: f.Mode}
	}
	var out []string
	if c.Arg != "" {
		out = append(out, m.apply(&edOp{Cmd: "e", File: string(c.Arg)}))
	}
	return m, out
}

func genEdLine(t *rapid.T, name string, file bool) string {
	switch vh.Int(t, 0, 13, name+" kind") {
	case 0:
		return ""
	case 1, 2, 3, 4, 5:
		return vh.Pick(t, name, "a", "b", "c", "d", "ab", "abc", "foo", "bar", "a b")
	case 6:
		s := vh.Pick(t, name, "..", ".x", " ", "\t", "$", "?", "q", "w", "1,2d", "p", "%d%s", "\\", "0", ". ", " .", ".\r", ".\t", "\r.", ".\x00", "Q", "a/b", "/", "e f", "/a/")
		if file && vh.OneIn(t, 4, name+" dot") {
			s = "."
		}
		return s
	case 7:
		return vh.Pick(t, name, "héllo", "世界", "ñ", "\u2028x", "🙂", "é")
	case 8:
		s := vh.Pick(t, name, "a\r", "\r", "\x00", "a\x00b", "\x0c", "\u0085", "x\ty", "\ufeff", "\ufeffa", "a\ufeff", "\x1a", "a\x1ab", "\x0b", "\x1b[A", "\x7f", "\x04", "a ", " a", "a\t")
		if vh.Bool(t, name+" bytes") {
			s = vh.Pick(t, name+" raw", "\xff", "a\xfe\xffb", "\x80abc", "\xc3")
		}
		return s
	case 9:
		if vh.OneIn(t, 4, name+" long?") {
			return strings.Repeat(vh.Pick(t, name+" unit", "x", "ab", "é"), vh.Pick(t, name+" len", 50, 2047, 2048, 32768, 35000))
		}
		return "longer line of text"
	default:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", " ", "foo", "bar", "é", "1", "/"}), 0, 6).Draw(t, name), "")
	}
}

func genEdFile(t *rapid.T, maxLines int) string {
	n := vh.Int(t, 0, maxLines, "file lines")
	if vh.OneIn(t, 40, "large file") {
		return genLargeFile(t)
	}
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, genEdLine(t, "file line", true))
	}
	s := vh.JoinLines(lines, true)
	if n > 0 && lines[n-1] != "" && vh.OneIn(t, 5, "no final newline") {
		s = s[:len(s)-1]
	}
	return s
}

// genLargeFile draws a file with many lines, a few of them special.
func genLargeFile(t *rapid.T) string {
	n := vh.Pick(t, "lines", 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 600, 1023, 1024, 1025)
	unit := vh.Pick(t, "unit", "line ", "é", "", "a b ")
	lines := make([]string, n)
	for i := range lines {
		lines[i] = unit
		if i%7 != 3 {
			lines[i] += fmt.Sprint(i + 1)
		}
	}
	for i := vh.Int(t, 0, 4, "special lines"); i > 0; i-- {
		lines[vh.Int(t, 0, n-1, "at")] = genEdLine(t, "file line", true)
	}
	return vh.JoinLines(lines, true)
}

func offText(t *rapid.T, n int) string {
	if n == 0 {
		if vh.OneIn(t, 8, "zero offset") {
			return vh.Pick(t, "zero", "+0", "-0", "+00")
		}
		return ""
	}
	if vh.OneIn(t, 12, "leading zeros") {
		return fmt.Sprintf("%+0*d", vh.Int(t, 3, 6, "digits"), n)
	}
	if (n == 1 || n == -1) && vh.Bool(t, "bare sign") {
		if n > 0 {
			return "+"
		}
		return "-"
	}
	return fmt.Sprintf("%+d", n)
}

const safeChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 /"

// genSearch draws a search that finds something from cur, or nil.
func genSearch(t *rapid.T, m *edModel, cur int) (*edAddr, int) {
	if m.last() == 0 {
		return nil, 0
	}
	l := []rune(m.lines[vh.Int(t, 0, m.last()-1, "line to find")])
	if len(l) == 0 && !vh.OneIn(t, 3, "empty line") {
		return nil, 0
	}
	i, n := 0, 0
	if len(l) > 0 {
		i = vh.Int(t, 0, min(len(l)-1, 30), "from")
		n = vh.Int(t, 1, min(4, len(l)-i), "length")
	}
	pat, src := "", ""
	back := vh.Bool(t, "backwards")
	add := func(s string) { pat += s; src += s }
	if i == 0 && (len(l) == 0 || vh.OneIn(t, 4, "^")) {
		add("^")
	}
	for _, r := range l[i : i+n] {
		special := vh.Int(t, 0, 11, "element")
		literal := strings.ContainsRune(safeChars, r) || r >= 128 && unicode.IsLetter(r) || r == '🙂'
		if !literal || special < 2 {
			add(".")
			if special == 0 {
				add("*")
			}
			continue
		}
		if special == 2 && r != '/' {
			add("[" + vh.Pick(t, "bracket", "", "x", "9Z") + string(r) + vh.Pick(t, "bracket", "", "q", "b0") + "]")
			continue
		}
		pat += string(r)
		if r == '/' && (!back || vh.Bool(t, "escape")) {
			src += "\\"
		}
		src += string(r)
		if special == 3 {
			add("*")
		}
		if special == 4 {
			add("z*")
		}
	}
	if i+n == len(l) && (n == 0 || vh.OneIn(t, 4, "$")) {
		add("$")
	}
	a := &edAddr{Pat: pat, Back: back, Base: "/" + src + "/"}
	if back {
		a.Base = "?" + src + "?"
	}
	line, ok := m.resolve(a, cur)
	if !ok {
		vh.Infra("the model does not find %q", pat)
	}
	return a, line
}

// genAddrTo draws an address of a given line, valid or not (it must be >= 0).
func genAddrTo(t *rapid.T, m *edModel, cur, target int, searches bool) *edAddr {
	k := vh.Int(t, 0, 9, "address form")
	switch {
	case k < 3:
		if vh.OneIn(t, 12, "leading zeros") {
			return &edAddr{Base: fmt.Sprintf("%0*d", vh.Int(t, 2, 5, "digits"), target)}
		}
		return &edAddr{Base: fmt.Sprint(target)}
	case k < 5:
		return &edAddr{Base: ".", Off: offText(t, target-cur)}
	case k < 7:
		return &edAddr{Base: "$", Off: offText(t, target-m.last())}
	case k < 9 && searches:
		if a, line := genSearch(t, m, cur); a != nil {
			a.Off = offText(t, target-line)
			return a
		}
	}
	b := vh.Int(t, 0, m.last()+1, "base")
	return &edAddr{Base: fmt.Sprint(b), Off: offText(t, target-b)}
}

// genRange fills in valid addresses: none, one or a range within [first, last].
// It returns false if the buffer has no such line.
func genRange(t *rapid.T, m *edModel, op *edOp, first int, ranges, searches bool) bool {
	if m.last() < first {
		return false
	}
	k := vh.Int(t, 0, 9, "addresses")
	line := func(lo int) int { return vh.Int(t, lo, m.last(), "line") }
	switch {
	case k < 2 && m.cur >= first: // default
		return true
	case k < 5 || !ranges:
		op.A1 = genAddrTo(t, m, m.cur, line(first), searches)
		return true
	case k == 5: // open forms
		if m.last() < 1 {
			return false
		}
		switch vh.Int(t, 0, 5, "open") {
		case 0:
			op.Sep = ","
		case 1:
			if m.cur < 1 {
				return false
			}
			op.Sep = ";"
		case 2:
			op.Sep = ","
			op.A2 = genAddrTo(t, m, m.cur, line(1), searches)
		case 3:
			if m.cur < 1 {
				return false
			}
			op.Sep = ";"
			op.A2 = genAddrTo(t, m, m.cur, line(m.cur), searches)
		default:
			op.Sep = vh.Pick(t, "sep", ",", ";")
			op.A1 = genAddrTo(t, m, m.cur, line(max(1, first)), searches)
		}
		return true
	}
	s := line(max(1, first))
	e := line(s)
	op.Sep = vh.Pick(t, "sep", ",", ",", ";")
	op.A1 = genAddrTo(t, m, m.cur, s, searches)
	cur := m.cur
	if op.Sep == ";" {
		cur = s
	}
	op.A2 = genAddrTo(t, m, cur, e, searches)
	return true
}

func genSpace(t *rapid.T, op *edOp) {
	if !vh.OneIn(t, 10, "spaces") {
		return
	}
	switch op.Cmd {
	case "p", "n", "d":
		op.Space = vh.Int(t, 1, 3, "where")
	case "=", "null":
		op.Space = vh.Pick(t, "where", 1, 3)
	}
}

// genEdit draws a valid a, i, c or d.
func genEdit(t *rapid.T, m *edModel, searches bool) edOp {
	for {
		op := edOp{Cmd: vh.Pick(t, "edit", "a", "i", "c", "d", "d")}
		ok := false
		switch op.Cmd {
		case "a", "i":
			ok = genRange(t, m, &op, 0, false, searches)
		default:
			ok = genRange(t, m, &op, 1, true, searches)
		}
		if !ok {
			op = edOp{Cmd: "a"}
			if m.cur > m.last() {
				continue
			}
		}
		if op.Cmd != "d" {
			n := vh.Int(t, 1, 3, "text lines")
			if vh.OneIn(t, 25, "much text") {
				n = vh.Int(t, 1, 40, "text lines")
			}
			if vh.OneIn(t, 12, "no text") {
				n = 0
				// what the current line is after '0i' without text is not stated
				if s, _, ok := m.rng(&op, m.cur, m.cur); op.Cmd == "i" && ok && s == 0 {
					n = 1
				}
			}
			for i := 0; i < n; i++ {
				op.Text = append(op.Text, genEdLine(t, "text", false))
			}
			if vh.OneIn(t, 150, "long text") {
				unit := vh.Pick(t, "unit", "x", "", "ab é", strings.Repeat("long ", 200))
				for k := vh.Pick(t, "more lines", 254, 255, 256, 257, 300, 1030); k > 0; k-- {
					op.Text = append(op.Text, unit)
				}
			}
		}
		genSpace(t, &op)
		return op
	}
}

// genShow draws a valid p, n, = or null; the null command may run off the end.
func genShow(t *rapid.T, m *edModel) (edOp, bool) {
	op := edOp{Cmd: vh.Pick(t, "show", "p", "p", "n", "=", "null")}
	switch op.Cmd {
	case "=":
		if !genRange(t, m, &op, 0, false, true) {
			return op, false
		}
	case "null":
		if m.cur < m.last() && vh.Bool(t, "next line") {
			break
		}
		if m.last() < 1 {
			return op, false
		}
		op.A1 = genAddrTo(t, m, m.cur, vh.Int(t, 1, m.last(), "line"), true)
	default:
		if !genRange(t, m, &op, 1, true, true) {
			return op, false
		}
	}
	genSpace(t, &op)
	return op, true
}

var rawBad = []string{"x", "z", "y", "b", "o", "h", "H", "P", "u", "j", "l", "m1", "t1", "ka", "r f", "f", "f name", "!true", "E f", "s/a/b/", "g/a/p", "v/a/p", "G/a/", "V/a/",
	"'ap", "'zd", "1,2,3p", "pp", "p p", "dd", "1p2", "/abc", "?abc", "/[/p", "/a(/p", "99999999999999999999p", "1,99999999999999999999d", "@", "#", "{", "}", "~", "*", "=p", "a b", "d1", "c x", "+-", "1++p", "w/", "q q", "Q1", "e/f", "e nothere", "e sub", "e no/such", "w no/such/dir", "w sub", "1,2", "é", "\x01", "%p", ":p", "1:2p", "'", "//", "/", "?", "??", "-", "+", "++", "p\r", "1 2p", ".$p", "$$p", "1.p", ",,p", ";;p", "p,", ",1,p"}

// genBad draws an invalid command, with valid or invalid syntax.
func genBad(t *rapid.T, m *edModel) edOp {
	switch vh.Int(t, 0, 6, "bad kind") {
	case 0, 1:
		return edOp{Cmd: "raw", Raw: vh.Pick(t, "bad", rawBad...)}
	case 2:
		s := strings.ReplaceAll(vh.AnyBytes(t, 8, "junk"), "\n", " ")
		if vh.OneIn(t, 8, "long") {
			s = strings.Repeat(vh.Pick(t, "unit", "x", "1", "p ", "q"), vh.Pick(t, "length", 1000, 4000, 5000, 33000, 66000))
		}
		return edOp{Cmd: "raw", Raw: vh.Pick(t, "junk start", "x", "z", "@", "\x00", "\xff", "y", "]", "{") + s}
	case 3: // a search that fails
		op := edOp{Cmd: vh.Pick(t, "cmd", "p", "n", "d", "c", "=", "a", "i", "null", "w")}
		pat := vh.Pick(t, "no match", "QQQ", "zzz9", "Q.Q", "~~", "never here")
		back := vh.Bool(t, "back")
		a := &edAddr{Pat: pat, Back: back, Base: "/" + pat + "/"}
		if back {
			a.Base = "?" + pat + "?"
		}
		if vh.OneIn(t, 3, "offset") {
			a.Off = vh.Pick(t, "off", "+1", "-", "+0")
		}
		if _, ok := m.resolve(a, m.cur); ok { // not in this buffer
			a = &edAddr{Base: fmt.Sprint(m.last() + 1)}
		}
		op.A1 = a
		if vh.OneIn(t, 3, "as second") && strings.Contains("pndc", op.Cmd) && m.last() > 0 {
			op.A1, op.A2, op.Sep = &edAddr{Base: "1"}, a, vh.Pick(t, "sep", ",", ";")
		}
		fillText(t, &op)
		return op
	case 4: // reversed
		if m.last() > 1 {
			op := edOp{Cmd: vh.Pick(t, "cmd", "p", "n", "d", "c", "w")}
			s := vh.Int(t, 2, m.last(), "start")
			e := vh.Int(t, 1, s-1, "end")
			op.Sep = vh.Pick(t, "sep", ",", ";")
			op.A1 = genAddrTo(t, m, m.cur, s, true)
			cur := m.cur
			if op.Sep == ";" {
				cur = s
			}
			op.A2 = genAddrTo(t, m, cur, e, true)
			fillText(t, &op)
			return op
		}
	}
	// beyond the buffer
	op := edOp{Cmd: vh.Pick(t, "cmd", "p", "n", "d", "c", "=", "a", "i", "null", "w")}
	hi := m.last() + vh.Pick(t, "beyond", 1, 1, 2, 10, 1000000)
	bad := genAddrTo(t, m, m.cur, hi, true)
	if strings.Contains("pndc", op.Cmd) || op.Cmd == "null" {
		if vh.OneIn(t, 3, "zero") {
			bad = genAddrTo(t, m, m.cur, 0, false)
		}
	}
	if vh.OneIn(t, 8, "negative") {
		k := vh.Int(t, 1, 3, "how far")
		bad = &edAddr{Base: ".", Off: fmt.Sprintf("-%d", m.cur+k)}
	}
	op.A1 = bad
	if strings.Contains("pndcw", op.Cmd) && m.last() > 0 && vh.OneIn(t, 2, "range") {
		s := vh.Int(t, 1, m.last(), "start")
		op.A1, op.A2, op.Sep = &edAddr{Base: fmt.Sprint(s)}, &edAddr{Base: fmt.Sprint(hi)}, vh.Pick(t, "sep", ",", ";")
	}
	fillText(t, &op)
	return op
}

func fillText(t *rapid.T, op *edOp) {
	if op.Cmd == "a" || op.Cmd == "i" || op.Cmd == "c" {
		op.Text = []string{genEdLine(t, "text", false)}
		if vh.OneIn(t, 3, "looks like a command") {
			op.Text = append(op.Text, vh.Pick(t, "text", "1d", "w", "q", "1,$d", ",d"))
		}
	}
}

var edNames = []string{"f", "out", "a b", "100%d", "é", "x.swp", "new", "f.swp", "f.swp1", "out.swp", "caf\xe9", "\xff\xc3\xa9"}

// Names that only ed's operand can give.
var oddOperands = []vh.S{" lead", "trail ", "n\n1d", "x\nw out", "\n", "-s", "!echo", "\tq", "a\\b", "%", "\"q\"", "'f'", "f\r", "\xff", "+1", "*"}

// genHistory draws a script with the given weights of edits, prints, bad commands and file commands.
func genHistory(t *rapid.T, c *edCase, lenMax int, wEdit, wShow, wBad, wFile int) {
	m, _ := c.newModel()
	n := vh.Int(t, 1, lenMax, "commands")
	if vh.OneIn(t, 30, "long history") {
		n = vh.Int(t, lenMax, 6*lenMax, "commands")
	}
	for i := 0; i < n; i++ {
		k := vh.Int(t, 0, wEdit+wShow+wBad+wFile-1, "command kind")
		var op edOp
		switch {
		case k < wEdit:
			op = genEdit(t, m, true)
		case k < wEdit+wShow:
			var ok bool
			if op, ok = genShow(t, m); !ok {
				op = genEdit(t, m, true)
			}
		case k < wEdit+wShow+wFile:
			op = genFileOp(t, m)
		default:
			op = genBad(t, m)
		}
		m.apply(&op)
		c.Script = append(c.Script, edOpJ(op))
	}
}

// genFileOp draws w, w name, m,nw name, e, e name; some of them fail.
func genFileOp(t *rapid.T, m *edModel) edOp {
	switch vh.Int(t, 0, 9, "file command") {
	case 0, 1, 2:
		return edOp{Cmd: "w"}
	case 3, 4:
		op := edOp{Cmd: "w", File: vh.Pick(t, "name", edNames...)}
		if len(m.links) > 0 && vh.Bool(t, "to a link") {
			op.File = "ln"
		}
		return op
	case 5, 6:
		op := edOp{Cmd: "w"}
		if !genRange(t, m, &op, 1, true, true) {
			return edOp{Cmd: "w"}
		}
		if vh.Int(t, 0, 3, "named?") > 0 {
			op.File = vh.Pick(t, "name", edNames...)
		}
		return op
	case 7:
		return edOp{Cmd: "e"}
	case 8:
		var have []string
		for n := range m.files {
			if strings.TrimSpace(n) == n && !strings.Contains(n, "\n") { // e cannot name the others
				have = append(have, n)
			}
		}
		for n := range m.links {
			have = append(have, n)
		}
		sort.Strings(have)
		if len(have) == 0 {
			return edOp{Cmd: "e"}
		}
		return edOp{Cmd: "e", File: vh.Pick(t, "name", have...)}
	default:
		return edOp{Cmd: vh.Pick(t, "failing", "w", "w", "e"), File: vh.Pick(t, "bad name", "no/such", "sub", "nodir/x/y")}
	}
}

func genEdBase(t *rapid.T, maxLines int) edCase {
	c := edCase{Procs: vh.Pick(t, "GOMAXPROCS", 4, 1, 2, 8), AsFile: vh.OneIn(t, 4, "stdin is a file"), Quit: vh.Pick(t, "quit", "q", "", "Q")}
	if vh.Int(t, 0, 5, "start") > 0 {
		c.Files = []edStart{{"f", vh.S(genEdFile(t, maxLines)), 0644}}
		c.Arg = "f"
	}
	if c.Quit == "" && vh.OneIn(t, 3, "no newline at the end") {
		c.NoEnd = true
	}
	return c
}

func finish(c *edCase, ops ...edOp) {
	for _, o := range ops {
		c.Script = append(c.Script, edOpJ(o))
	}
}

func genC17(t *rapid.T) edCase {
	c := genEdBase(t, 10)
	genHistory(t, &c, 12, 8, 2, 0, 0)
	if vh.Bool(t, "where") {
		finish(&c, edOp{Cmd: "=", A1: &edAddr{Base: "."}})
	}
	finish(&c, edOp{Cmd: "w", File: "out"})
	return c
}

func genC18(t *rapid.T) edCase {
	c := genEdBase(t, 12)
	genHistory(t, &c, 15, 2, 10, 0, 0)
	finish(&c, edOp{Cmd: "w", File: "out"})
	return c
}

func genC19(t *rapid.T) edCase {
	c := genEdBase(t, 8)
	genHistory(t, &c, 12, 3, 3, 6, 1)
	finish(&c, edOp{Cmd: "=", A1: &edAddr{Base: "."}}, edOp{Cmd: "w", File: "out"})
	return c
}

func genC20(t *rapid.T) edCase {
	c := genEdBase(t, 8)
	c.Modes = true
	for i := range c.Files {
		c.Files[i].Mode = vh.Pick(t, "mode", 0644, 0600, 0640, 0755, 0666, 0664, 0700)
	}
	for _, n := range edNames[1:] {
		if vh.OneIn(t, 5, "have "+n) {
			c.Files = append(c.Files, edStart{vh.S(n), vh.S(genEdFile(t, 5)), vh.Pick(t, "mode", 0644, 0600, 0755, 0666)})
		}
	}
	if c.Arg == "f" && vh.OneIn(t, 5, "odd operand") {
		c.Arg = vh.Pick[vh.S](t, "operand", oddOperands...)
		c.Files[0].Name = c.Arg
	}
	if vh.OneIn(t, 4, "links") {
		c.Files = append(c.Files, edStart{"d2/t", vh.S(genEdFile(t, 5)), vh.Pick(t, "mode", 0644, 0600, 0755)})
		c.Links = append(c.Links, [2]vh.S{"ln", "d2/t"})
		if c.Arg == "f" {
			c.Links = append(c.Links, [2]vh.S{"lf", "f"})
			c.Arg = vh.Pick[vh.S](t, "edit", "f", "lf", "ln")
		}
	}
	genHistory(t, &c, 12, 4, 1, 0, 6)
	if vh.Bool(t, "write at the end") {
		finish(&c, edOp{Cmd: "w"})
	}
	return c
}

// runEd runs a history and compares responses, files and modes with the model.
func runEd(e *vh.Env, c edCase) error {
	d := e.Dir()
	defer e.Drop(d)
	e.Mkdir(filepath.Join(d, "sub"), 0755)
	if len(c.Links) > 0 {
		e.Mkdir(filepath.Join(d, "d2"), 0755)
	}
	for _, f := range c.Files {
		e.Write(filepath.Join(d, string(f.Name)), string(f.Data), os.FileMode(f.Mode))
	}
	for _, l := range c.Links {
		if err := os.Symlink(string(l[1]), filepath.Join(d, string(l[0]))); err != nil {
			vh.Infra("%v", err)
		}
	}
	m, want := c.newModel()
	input := ""
	for i := range c.Script {
		op := edOp(c.Script[i])
		input += op.source()
		want = append(want, m.apply(&op))
	}
	if c.Quit != "" {
		input += c.Quit + "\n"
		if len(input)%3 == 0 {
			input += "1,$d\nw\n" // not reached
		}
	} else if s := strings.TrimSuffix(input, "\n"); c.NoEnd && s != "" && !strings.HasSuffix(s, "\n") {
		input = s // a null command does need its newline
	}
	cmd := vh.Cmd{Bin: "ed", Dir: d, Stdin: input, StdinFile: c.AsFile, Unpriv: true,
		Env: []string{"PATH=/usr/bin", "HOME=/nonexistent", "TMPDIR=/nonexistent", fmt.Sprintf("GOMAXPROCS=%d", c.Procs)}}
	if c.Arg != "" {
		cmd.Args = []string{string(c.Arg)}
	}
	r := e.Run(cmd)
	typed := vh.Short(input)
	if err := cliTrouble(cmd, r); err != nil {
		if h, ok := err.(*vh.Hang); ok {
			return h
		}
		return bad("ed with input %s crashed: %v", typed, r)
	}
	if r.Exit != 0 {
		return bad("ed with input %s: exit %d: %v", typed, r.Exit, r)
	}
	if err := matchOutput(r.Out, want); err != nil {
		return bad("ed with input %s: %v\noutput %s", typed, err, vh.Short(r.Out))
	}
	return checkFiles(d, m, typed, c.Modes)
}

// checkFiles compares the directory with the model's files.
func checkFiles(d string, m *edModel, typed string, modes bool) error {
	files := m.files
	ents, err := os.ReadDir(d)
	if err != nil {
		vh.Infra("%v", err)
	}
	for _, ent := range ents {
		if ent.Name() == "sub" {
			if l, _ := os.ReadDir(filepath.Join(d, "sub")); len(l) > 0 {
				return bad("ed with input %s left %q in sub", typed, l[0].Name())
			}
			continue
		}
		if ent.Name() == "d2" {
			for _, l := range dirNames(filepath.Join(d, "d2")) {
				if files["d2/"+l] == nil {
					return bad("ed with input %s left a file d2/%s", typed, l)
				}
			}
			continue
		}
		if t, ok := m.links[ent.Name()]; ok {
			if got, err := os.Readlink(filepath.Join(d, ent.Name())); err != nil || got != t {
				return bad("ed with input %s replaced the symbolic link %s", typed, ent.Name())
			}
			continue
		}
		if files[ent.Name()] == nil {
			return bad("ed with input %s left a file %q", typed, ent.Name())
		}
	}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := files[n]
		data, err := os.ReadFile(filepath.Join(d, n))
		if err != nil {
			return bad("ed with input %s: file %q is gone: %v", typed, n, err)
		}
		if !f.matches(string(data)) {
			return bad("ed with input %s: file %q is %s, should have lines %s", typed, n, vh.Short(string(data)), vh.Short(strings.Join(f.Lines, "\n")))
		}
		if modes && f.Mode >= 0 {
			fi, err := os.Stat(filepath.Join(d, n))
			if err != nil {
				vh.Infra("%v", err)
			}
			if int(fi.Mode().Perm()) != f.Mode {
				return bad("ed with input %s: mode of %q is %o, was %o", typed, n, fi.Mode().Perm(), f.Mode)
			}
		}
	}
	return nil
}

func dirNames(d string) (names []string) {
	l, err := os.ReadDir(d)
	if err != nil {
		vh.Infra("%v", err)
	}
	for _, e := range l {
		names = append(names, e.Name())
	}
	return
}

// classEd describes a history by its effects on the model.
func classEd(want map[string]bool, min int) func(c edCase) (bool, []string) {
	return func(c edCase) (bool, []string) {
		m, _ := c.newModel()
		set := map[string]bool{}
		n := 0
		for i := range c.Script {
			op := edOp(c.Script[i])
			res := m.apply(&op)
			kind := op.Cmd
			if res == edError {
				kind = "error"
			} else if op.Cmd == "w" && op.File != "" {
				kind = "w name"
			}
			if kind == "w" && (op.A1 != nil || op.Sep != "") {
				kind = "m,nw"
			}
			set[kind] = true
			if want[kind] {
				n++
			}
			if op.A1 != nil && op.A1.Pat != "" {
				set["search"] = true
			}
			if op.Sep == ";" {
				set["semicolon"] = true
			}
			if m.last() == 0 {
				set["empty buffer"] = true
			}
			if len(c.Links) > 0 {
				set["symbolic links"] = true
			}
			if m.unterm {
				set["unterminated last line"] = true
			}
		}
		var l []string
		for k := range set {
			l = append(l, k)
		}
		return n >= min, l
	}
}

func kinds(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range s {
		m[k] = true
	}
	return m
}

func init() {
	vh.Register("C17", "histories of up to 12 a, i, c, d commands with valid addresses of all forms over generated files, compared with a list-of-lines model; non-trivial: at least two edits take effect",
		genC17, runEd, classEd(kinds("a", "i", "c", "d"), 2))
	vh.Register("C18", "histories of up to 15 p, n, = and null commands (some edits between) with all address forms, compared with the model's output; non-trivial: at least two prints",
		genC18, runEd, classEd(kinds("p", "n", "=", "null"), 2))
	vh.Register("C19", "histories mixing invalid, out-of-range, reversed, non-matching and unsupported commands with valid ones; non-trivial: at least one error response among other commands",
		genC19, runEd, classEd(kinds("error"), 1))
}
