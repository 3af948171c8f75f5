// Command libtxt checks the piece table.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/fwip/posix-utils/pkg/txt"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C16

type edit struct {
	Insert bool
	Text   vh.S
	At     int
	Len    int
	Look   bool // read the contents before the caller's slice changes
}

type txtCase struct {
	Initial vh.Blob
	Source  string // bytes, strings, section, file, eof, longer, zero
	Edits   []edit
}

func gen(t *rapid.T) txtCase {
	c := txtCase{Source: vh.Pick(t, "source", "bytes", "strings", "section", "file", "eof", "longer", "zero")}
	if c.Source != "zero" {
		c.Initial = vh.Blob{{B: vh.S(vh.AnyBytes(t, 20, "initial")), N: 1}}
		if vh.OneIn(t, 20, "large") {
			c.Initial = vh.GenBlob(t, 70000, "initial")
		}
	}
	length := len(c.Initial.Bytes())
	// places of interest: ends of earlier edits
	marks := []int{0, length}
	pos := func(max int, name string) int {
		if vh.Bool(t, name+" at a boundary") {
			m := marks[vh.Int(t, 0, len(marks)-1, name+" mark")] + vh.Int(t, -1, 1, name+" delta")
			if m >= 0 && m <= max {
				return m
			}
		}
		return vh.Int(t, 0, max, name)
	}
	n := vh.Int(t, 1, 14, "edits")
	grow := false // many pieces
	if vh.OneIn(t, 15, "long history") {
		n = vh.Int(t, 1, 80, "edits")
		if vh.OneIn(t, 20, "very long history") {
			n = vh.Pick(t, "edits", 130, 260, 600)
			grow = vh.Bool(t, "grow")
		}
	}
	for i := 0; i < n; i++ {
		e := edit{Insert: vh.Bool(t, "insert"), Look: vh.Bool(t, "look")}
		if grow {
			e.Insert = !vh.OneIn(t, 5, "delete")
			e.Look = false
		}
		if e.Insert {
			e.At = pos(length, "at")
			if vh.OneIn(t, 12, "bigger") {
				e.Text = vh.S(strings.Repeat("xy", vh.Pick(t, "size", 16, 32, 64, 256, 600, 600, 2048, 2049, 32768, 35000)))
			} else {
				e.Text = vh.S(vh.AnyBytes(t, 6, "text"))
			}
			length += len(e.Text)
			marks = append(marks, e.At, e.At+len(e.Text))
		} else {
			e.At = pos(length, "at")
			e.Len = vh.Int(t, 0, length-e.At, "length")
			if vh.Bool(t, "to a boundary") {
				if m := marks[vh.Int(t, 0, len(marks)-1, "mark")]; m >= e.At && m <= length {
					e.Len = m - e.At
				}
			}
			if grow {
				e.Len = min(e.Len, 3)
			}
			length -= e.Len
			marks = append(marks, e.At)
		}
		c.Edits = append(c.Edits, e)
	}
	return c
}

// eofReader returns io.EOF together with the last bytes, as io.ReaderAt may.
type eofReader string

func (r eofReader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r)) {
		return 0, io.EOF
	}
	n := copy(p, r[off:])
	if off+int64(n) == int64(len(r)) {
		return n, io.EOF
	}
	return n, nil
}

func run(e *vh.Env, c txtCase) error {
	initial := c.Initial.Bytes()
	var pt txt.PieceTable
	var src io.ReaderAt
	n := len(initial)
	switch c.Source {
	case "bytes":
		src = bytes.NewReader([]byte(initial))
	case "strings":
		src = strings.NewReader(initial)
	case "section":
		src = io.NewSectionReader(strings.NewReader("junk"+initial+"junk"), 4, int64(n))
	case "longer":
		src = strings.NewReader(initial + "not part of it")
	case "eof":
		src = eofReader(initial)
	case "file":
		p := filepath.Join(e.Scratch, "source")
		if err := os.WriteFile(p, []byte(initial), 0644); err != nil {
			vh.Infra("%v", err)
		}
		f, err := os.Open(p)
		if err != nil {
			vh.Infra("%v", err)
		}
		defer f.Close()
		src = f
	}
	model := initial
	var fail error
	check := func(i int, what string) bool {
		if got := pt.String(); got != model && fail == nil {
			fail = fmt.Errorf("source %s, initial %s, after edit %d of %+v (%s): contents %s, want %s", c.Source, vh.Short(initial), i, c.Edits, what, vh.Short(got), vh.Short(model))
		}
		return fail == nil
	}
	step := 0
	p := vh.Catch(func() {
		if c.Source != "zero" {
			pt = txt.NewPieceTable(src, n)
		}
		if !check(-1, "start") {
			return
		}
		for i, ed := range c.Edits {
			step = i
			if ed.Insert {
				b := []byte(ed.Text)
				pt.Insert(b, ed.At)
				model = model[:ed.At] + string(ed.Text) + model[ed.At:]
				if ed.Look && !check(i, "insert") {
					return
				}
				for k := range b {
					b[k] = '!'
				}
				if !check(i, "insert, and the caller's slice changed") {
					return
				}
				continue
			}
			pt.Delete(ed.Len, ed.At)
			model = model[:ed.At] + model[ed.At+ed.Len:]
			if !check(i, "delete") {
				return
			}
		}
	})
	if p != "" {
		return fmt.Errorf("source %s, initial %s, edit %d of %+v: %s", c.Source, vh.Short(initial), step, c.Edits, p)
	}
	return fail
}

func main() {
	vh.Register("C16", "histories of up to 80 insertions and deletions at positions biased to ends of earlier edits, over sources of six kinds and the zero value; non-trivial: at least two edits that change something",
		gen, run, func(c txtCase) (bool, []string) {
			n := 0
			for _, e := range c.Edits {
				if (e.Insert && e.Text != "") || e.Len > 0 {
					n++
				}
			}
			l := []string{c.Source}
			if n > 10 {
				l = append(l, "more than 10 edits")
			}
			return n > 1, l
		})
	vh.Main()
}
