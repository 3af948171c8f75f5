package main

import (
	"fmt"
	"regexp"
	"strings"
)

// A model of ed: a list of lines, the current line and the files.

type edAddr struct {
	Base string `json:",omitempty"` // number, ".", "$", "/re/" or "?re?"
	Pat  string `json:",omitempty"` // the pattern itself, unescaped
	Back bool   `json:",omitempty"`
	Off  string `json:",omitempty"` // "", "+", "-", "+N", "-N"
}

func (a *edAddr) text() string { return a.Base + a.Off }

type edFile struct {
	Lines  []string
	Unterm bool    // the last line may lack its newline
	Raw    *string // exact contents, when known
	Mode   int
}

type edModel struct {
	lines  []string
	unterm bool // the last line came without a newline and is still there
	cur    int
	name   string
	files  map[string]*edFile
	links  map[string]string // symbolic links and the files behind them
}

// real is the name of the file that a name stands for.
func (m *edModel) real(name string) string {
	if t, ok := m.links[name]; ok {
		return t
	}
	return name
}

func (m *edModel) last() int { return len(m.lines) }

var patCache = map[string]*regexp.Regexp{}

// patMatch matches a pattern of letters, digits, '.', '*', bracket lists and anchors.
func patMatch(pat, line string) bool {
	re := patCache[pat]
	if re == nil {
		if len(patCache) > 10000 {
			patCache = map[string]*regexp.Regexp{}
		}
		re = regexp.MustCompile(pat)
		patCache[pat] = re
	}
	return re.MatchString(line)
}

// resolve finds the line of an address; ok is false if a search fails or the number is absurd.
func (m *edModel) resolve(a *edAddr, cur int) (line int, ok bool) {
	switch {
	case a.Pat != "":
		found := 0
		for k := 1; k <= m.last(); k++ {
			n := cur + k
			if a.Back {
				n = cur - k
				if cur == 0 { // before the first line comes the last
					n++
				}
			}
			n = ((n-1)%m.last() + m.last()) % m.last()
			if patMatch(a.Pat, m.lines[n]) {
				found = n + 1
				break
			}
		}
		if found == 0 {
			return 0, false
		}
		line = found
	case a.Base == ".":
		line = cur
	case a.Base == "$":
		line = m.last()
	default:
		if len(a.Base) > 15 {
			return 0, false
		}
		if _, err := fmt.Sscanf(a.Base, "%d", &line); err != nil {
			return 0, false
		}
	}
	switch a.Off {
	case "":
	case "+":
		line++
	case "-":
		line--
	default:
		n := 0
		fmt.Sscanf(a.Off[1:], "%d", &n)
		if a.Off[0] == '-' {
			n = -n
		}
		line += n
	}
	return line, true
}

type edOp struct {
	Cmd    string // p n = null a i c d w e raw
	A1, A2 *edAddr
	Sep    string // "", "," or ";"
	Space  int    // 0 none, 1 leading, 2 around the separator, 3 trailing
	Text   []string
	File   string
	Raw    string
}

// rng resolves the addresses of an op. For a range, end may be before start.
func (m *edModel) rng(op *edOp, def1, def2 int) (s, e int, ok bool) {
	switch {
	case op.Sep == "" && op.A1 == nil:
		return def1, def2, true
	case op.Sep == "":
		s, ok = m.resolve(op.A1, m.cur)
		return s, s, ok
	}
	switch {
	case op.A1 != nil:
		s, ok = m.resolve(op.A1, m.cur)
		if !ok {
			return
		}
		e = s
	case op.A2 == nil && op.Sep == ",":
		return 1, m.last(), true
	case op.A2 == nil:
		return m.cur, m.last(), true
	case op.Sep == ",":
		s = 1
	default:
		s = m.cur
	}
	if op.A2 != nil {
		cur := m.cur
		if op.Sep == ";" {
			cur = s
		}
		e, ok = m.resolve(op.A2, cur)
		return s, e, ok
	}
	return s, e, true
}

// hasText tells whether lines of text follow the command; there may be none.
func (op *edOp) hasText() bool { return op.Cmd == "a" || op.Cmd == "i" || op.Cmd == "c" }

// source is what is typed for an op.
func (op *edOp) source() string {
	if op.Cmd == "raw" {
		return op.Raw + "\n"
	}
	s := ""
	if op.Space == 1 {
		s += " "
	}
	if op.A1 != nil {
		s += op.A1.text()
	}
	if op.Sep != "" {
		if op.Space == 2 && op.A1 != nil {
			s += " "
		}
		s += op.Sep
		if op.Space == 2 && op.A2 != nil {
			s += " "
		}
	}
	if op.A2 != nil {
		s += op.A2.text()
	}
	if op.Cmd != "null" {
		s += op.Cmd
	}
	if op.File != "" {
		s += " " + op.File
	}
	if op.Space == 3 {
		s += " "
	}
	s += "\n"
	if op.hasText() {
		for _, l := range op.Text {
			s += l + "\n"
		}
		s += ".\n"
	}
	return s
}

const edError = "\x00?"

// apply runs an op and returns the response, or edError.
func (m *edModel) apply(op *edOp) string {
	in := func(s, e, first int) bool { return s >= first && e >= s && e <= m.last() }
	switch op.Cmd {
	case "raw":
		return edError
	case "p", "n", "null":
		d := m.cur
		if op.Cmd == "null" {
			d++
		}
		s, e, ok := m.rng(op, d, d)
		if !ok || !in(s, e, 1) {
			return edError
		}
		m.cur = e
		var out strings.Builder
		for i := s; i <= e; i++ {
			if op.Cmd == "n" {
				fmt.Fprintf(&out, "%d\t", i)
			}
			out.WriteString(m.lines[i-1] + "\n")
		}
		if op.Cmd == "n" {
			out.WriteString("\n")
		}
		return out.String()
	case "=":
		s, e, ok := m.rng(op, m.last(), m.last())
		if !ok || !in(s, e, 0) {
			return edError
		}
		return fmt.Sprintf("%d\n", s)
	case "d", "c":
		s, e, ok := m.rng(op, m.cur, m.cur)
		if !ok || !in(s, e, 1) {
			return edError
		}
		if e == m.last() {
			m.unterm = false
		}
		rest := append([]string{}, m.lines[e:]...)
		m.lines = append(append(m.lines[:s-1:s-1], op.Text...), rest...)
		if len(op.Text) > 0 {
			m.cur = s + len(op.Text) - 1
		} else {
			m.cur = min(s, m.last())
		}
		return "\n"
	case "a", "i":
		s, e, ok := m.rng(op, m.cur, m.cur)
		if !ok || !in(s, e, 0) {
			return edError
		}
		at := s // lines before the text
		if op.Cmd == "i" {
			at = max(0, s-1)
		}
		if len(op.Text) == 0 {
			m.cur = s
			return "\n"
		}
		if at == m.last() {
			m.unterm = false
		}
		rest := append([]string{}, m.lines[at:]...)
		m.lines = append(append(m.lines[:at:at], op.Text...), rest...)
		m.cur = at + len(op.Text)
		return "\n"
	case "w":
		s, e := 1, m.last()
		if op.A1 != nil || op.Sep != "" {
			var ok bool
			s, e, ok = m.rng(op, 0, 0)
			if !ok || !in(s, e, 1) {
				return edError
			}
		}
		name := op.File
		if name == "" {
			name = m.name
		}
		if name == "" || !m.writable(name) {
			return edError
		}
		f := m.files[m.real(name)]
		if f == nil {
			f = &edFile{Mode: -1}
			m.files[m.real(name)] = f
		}
		f.Lines = append([]string{}, m.lines[s-1:e]...)
		f.Unterm = m.unterm && e == m.last() && s <= e
		f.Raw = nil
		if m.name == "" {
			m.name = name
		}
		return "\n"
	case "e":
		name := op.File
		if name == "" {
			name = m.name
		}
		f := m.files[m.real(name)]
		if name == "" || f == nil {
			return edError
		}
		m.lines = append([]string{}, f.Lines...)
		m.unterm = f.Unterm
		m.cur = m.last()
		m.name = name
		return "\n"
	}
	panic("op " + op.Cmd)
}

// writable: which names can be written. Names with a slash or of a directory cannot.
func (m *edModel) writable(name string) bool {
	return (!strings.Contains(name, "/") || m.files[name] != nil) && name != "sub"
}

// acceptable contents of a file
func (f *edFile) matches(data string) bool {
	if f.Raw != nil {
		return data == *f.Raw
	}
	want := strings.Join(f.Lines, "\n")
	if len(f.Lines) == 0 {
		return data == ""
	}
	if data == want+"\n" {
		return true
	}
	return f.Unterm && data == want && want != ""
}

// matchOutput compares ed's output with the expected responses. An error
// response starts with '?' and may have more lines.
func matchOutput(out string, want []string) error {
	type key struct{ i, pos int }
	deadEnd := map[key]bool{}
	bestI, bestPos := 0, 0
	var rec func(i, pos int) bool
	rec = func(i, pos int) bool {
		for i < len(want) && want[i] != edError {
			if !strings.HasPrefix(out[pos:], want[i]) {
				if i > bestI {
					bestI, bestPos = i, pos
				}
				return false
			}
			pos += len(want[i])
			i++
		}
		if i > bestI {
			bestI, bestPos = i, pos
		}
		if i == len(want) {
			return pos == len(out)
		}
		if pos >= len(out) || out[pos] != '?' || deadEnd[key{i, pos}] {
			return false
		}
		// The shortest error text first
		for p := pos; ; {
			k := strings.IndexByte(out[p:], '\n')
			if k < 0 {
				break
			}
			p += k + 1
			if rec(i+1, p) {
				return true
			}
			if p-pos > 20000 {
				break
			}
		}
		deadEnd[key{i, pos}] = true
		return false
	}
	if rec(0, 0) {
		return nil
	}
	w := "end of output"
	if bestI < len(want) {
		w = want[bestI]
		if w == edError {
			w = "?…"
		}
	}
	got := out[bestPos:]
	return fmt.Errorf("response %d (or an error before it) is wrong: got %.300q, want %.300q", bestI, got, w)
}
