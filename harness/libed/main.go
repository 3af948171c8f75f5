// Command libed checks the exported operations of the editor package.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/fwip/posix-utils/pkg/ed"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C30

type op struct {
	Ed   int    // which editor
	Kind string // edit, editmissing, delete, print, string, write, append, insert, change, remove, show, bad
	A, B int    // lines
	Text []vh.S `json:",omitempty"`
	File int    `json:",omitempty"`
}

type libCase struct {
	Files []vh.S
	New   bool // made by NewEditor
	Ops   []op
}

// model of one editor
type model struct {
	lines  []string
	unterm bool
	file   int // -1: none
}

type world struct {
	eds   [2]model
	files []string
	alt   []string // another acceptable content of each file
}

func newWorld(c libCase) *world {
	w := &world{files: vh.Strs(c.Files), alt: vh.Strs(c.Files)}
	for i := range w.eds {
		w.eds[i].file = -1
	}
	return w
}

func join(lines []string) string {
	if len(lines) == 0 {
		return ""
	}
	return strings.Join(lines, "\n") + "\n"
}

// apply runs an operation on the model; the answer is what print, string and show give.
func (w *world) apply(o op) (answer string) {
	m := &w.eds[o.Ed]
	splice := func(s, e int, text []string) { // replaces lines s..e
		if e == len(m.lines) {
			m.unterm = false
		}
		m.lines = append(append(append([]string{}, m.lines[:s-1]...), text...), m.lines[e:]...)
	}
	text := vh.Strs(o.Text)
	switch o.Kind {
	case "edit":
		m.lines = vh.SplitLines(w.files[o.File])
		m.unterm = w.files[o.File] != "" && !strings.HasSuffix(w.files[o.File], "\n")
		m.file = o.File
	case "delete", "remove":
		splice(o.A, o.B, nil)
	case "append":
		splice(o.A+1, o.A, text)
	case "insert":
		splice(o.A, o.A-1, text)
	case "change":
		splice(o.A, o.B, text)
	case "print":
		return strings.Join(m.lines[o.A-1:o.B], "\n")
	case "show":
		return strings.Join(m.lines[o.A-1:o.B], "\n") + "\n"
	case "string":
		return join(m.lines)
	case "write":
		w.files[m.file] = join(m.lines)
		w.alt[m.file] = w.files[m.file]
		if m.unterm {
			w.alt[m.file] = strings.TrimSuffix(w.files[m.file], "\n")
		}
	}
	return ""
}

func line(t *rapid.T) string {
	return vh.Pick(t, "line", "a", "b", "", "c", "a b", "é世", "x\r", "..", ".x", "1,$d", "\t", "foo", "bar", strings.Repeat("xy", 3000), "%d", "\\", "q")
}

func gen(t *rapid.T) libCase {
	c := libCase{New: vh.Bool(t, "NewEditor")}
	for i := 0; i < 3; i++ {
		n := vh.Int(t, 0, 8, "file lines")
		if vh.OneIn(t, 20, "many lines") {
			n = vh.Int(t, 0, 150, "file lines")
		}
		var lines []string
		for k := 0; k < n; k++ {
			lines = append(lines, line(t))
		}
		s := join(lines)
		if n > 0 && lines[n-1] != "" && vh.OneIn(t, 5, "no final newline") {
			s = s[:len(s)-1]
		}
		c.Files = append(c.Files, vh.S(s))
	}
	w := newWorld(c)
	n := vh.Int(t, 1, 16, "operations")
	for i := 0; i < n; i++ {
		o := op{Ed: vh.Pick(t, "editor", 0, 0, 0, 1)}
		m := &w.eds[o.Ed]
		last := len(m.lines)
		o.Kind = vh.Pick(t, "operation", "edit", "delete", "print", "append", "insert", "change", "remove", "show", "string", "write", "editmissing", "bad")
		rng := func() {
			o.A = vh.Int(t, 1, last, "from")
			o.B = vh.Int(t, o.A, last, "to")
		}
		switch o.Kind {
		case "edit":
			o.File = vh.Int(t, 0, len(c.Files)-1, "file")
			if w.alt[o.File] != w.files[o.File] {
				o.Kind = "string" // which of two contents is open
			}
		case "delete", "print", "change", "remove", "show":
			if last == 0 {
				o.Kind = "append"
				break
			}
			rng()
		case "insert":
			if last == 0 {
				o.Kind = "append"
				break
			}
			o.A = vh.Int(t, 1, last, "line")
		case "write":
			if m.file < 0 {
				o.Kind = "string"
			}
		}
		if o.Kind == "append" {
			o.A = vh.Int(t, 0, last, "line")
		}
		switch o.Kind {
		case "append", "insert", "change":
			k := vh.Int(t, 1, 3, "text lines")
			for j := 0; j < k; j++ {
				o.Text = append(o.Text, vh.S(line(t)))
			}
		}
		w.apply(o)
		c.Ops = append(c.Ops, o)
	}
	return c
}

func run(e *vh.Env, c libCase) error {
	// the package's debugging output
	stderr := os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		vh.Infra("%v", err)
	}
	os.Stderr = null
	defer func() { os.Stderr = stderr; null.Close() }()
	d := e.Dir()
	defer e.Drop(d)
	name := func(i int) string { return filepath.Join(d, fmt.Sprintf("file%d", i)) }
	for i, f := range c.Files {
		e.Write(name(i), string(f), 0644)
	}
	var eds [2]*ed.Itor
	for i := range eds {
		eds[i] = &ed.Itor{}
		if c.New {
			eds[i] = ed.NewEditor(strings.NewReader(""), &bytes.Buffer{})
		}
	}
	w := newWorld(c)
	for i, o := range c.Ops {
		it := eds[o.Ed]
		want := w.apply(o)
		got, checkAnswer := "", false
		var opErr error
		commands := func(s string) string {
			var out bytes.Buffer
			it.ProcessCommands(strings.NewReader(s), &out)
			return out.String()
		}
		text := join(vh.Strs(o.Text)) + ".\n"
		p := vh.Catch(func() {
			switch o.Kind {
			case "edit":
				opErr = it.Edit(name(o.File), i%2 == 0)
			case "editmissing":
				if it.Edit(filepath.Join(d, "none"), false) == nil {
					opErr = fmt.Errorf("no error for a missing file")
				}
			case "delete":
				opErr = it.Delete(o.A, o.B)
			case "print":
				got, checkAnswer = it.Print(o.A, o.B), true
			case "string":
				got, checkAnswer = it.String(), true
			case "write":
				opErr = it.Write()
			case "append":
				got, want, checkAnswer = commands(fmt.Sprintf("%da\n%s", o.A, text)), "\n", true
			case "insert":
				got, want, checkAnswer = commands(fmt.Sprintf("%di\n%s", o.A, text)), "\n", true
			case "change":
				got, want, checkAnswer = commands(fmt.Sprintf("%d,%dc\n%s", o.A, o.B, text)), "\n", true
			case "remove":
				got, want, checkAnswer = commands(fmt.Sprintf("%d,%dd\n", o.A, o.B)), "\n", true
			case "show":
				got, checkAnswer = commands(fmt.Sprintf("%d,%dp\n", o.A, o.B)), true
			case "bad":
				if s := commands("1,99999p\n"); !strings.HasPrefix(s, "?") {
					opErr = fmt.Errorf("answers %q", s)
				}
			}
		})
		where := fmt.Sprintf("operation %d of %+v on %q", i, c.Ops, c.Files)
		if len(where) > 3000 {
			where = where[:3000] + "…"
		}
		if p != "" {
			return fmt.Errorf("%s: %s", where, p)
		}
		if opErr != nil {
			return fmt.Errorf("%s: %v", where, opErr)
		}
		if checkAnswer && got != want {
			return fmt.Errorf("%s: got %s, want %s", where, vh.Short(got), vh.Short(want))
		}
		// both editors' buffers and all files
		for k, x := range eds {
			var s string
			if p := vh.Catch(func() { s = x.String() }); p != "" {
				return fmt.Errorf("%s: String of editor %d: %s", where, k, p)
			}
			if s != join(w.eds[k].lines) {
				return fmt.Errorf("%s: then editor %d holds %s, want %s", where, k, vh.Short(s), vh.Short(join(w.eds[k].lines)))
			}
		}
		for k := range c.Files {
			data, err := os.ReadFile(name(k))
			if err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			if string(data) != w.files[k] && string(data) != w.alt[k] {
				return fmt.Errorf("%s: then file %d holds %s, want %s", where, k, vh.Short(string(data)), vh.Short(w.files[k]))
			}
		}
	}
	ents, err := os.ReadDir(d)
	if err != nil {
		vh.Infra("%v", err)
	}
	if len(ents) != len(c.Files) {
		return fmt.Errorf("%+v on %q left a file behind", c.Ops, c.Files)
	}
	return nil
}

func main() {
	vh.Register("C30", "sequences of up to 16 operations (Edit, Delete, Print, String, Write, and a, i, c, d, p through ProcessCommands) on two editors over three files, compared after every step with lists of lines; non-trivial: at least two operations change a buffer",
		gen, run, func(c libCase) (bool, []string) {
			n := 0
			var l []string
			both := [2]bool{}
			for _, o := range c.Ops {
				switch o.Kind {
				case "edit", "delete", "remove", "append", "insert", "change":
					n++
				}
				both[o.Ed] = true
			}
			if both[0] && both[1] {
				l = append(l, "two editors")
			}
			return n > 1, l
		})
	vh.Main()
}
