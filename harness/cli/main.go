// Command cli checks the properties of the command-line tools.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/vh"

	"pgregory.net/rapid"
)

func main() { vh.Main() }

// fileNames are names of files in the directory of a case: none starts with a dash.
var fileNames = []string{"f", "g", "a b", "100%d", "é", "x.txt", "./f", "sub/../g", "UPPER", "a\tb", "'q'", "[z]", "*", "n=1", "./-", "sub/../-", "./-u", strings.Repeat("./", 140) + "deep", strings.Repeat("n", 255), strings.Repeat("sub/../", 100) + "g"}

// onDisk is the file behind a name.
func onDisk(dir, name string) string { return filepath.Join(dir, filepath.Clean(name)) }

// bad says that a run broke the property.
func bad(format string, args ...any) error { return fmt.Errorf(format, args...) }

// cliTrouble is the part of every check that no tool may crash or hang.
func cliTrouble(c vh.Cmd, r vh.Result) error {
	if r.TimedOut {
		return &vh.Hang{Msg: fmt.Sprintf("%s %q did not end (%v)", c.Bin, c.Args, r)}
	}
	if r.Crashed() {
		return bad("%s %q crashed: %v", c.Bin, c.Args, r)
	}
	return nil
}

// eq compares an output with what it should be.
func eq(what string, c vh.Cmd, got, want string, r vh.Result) error {
	if got == want {
		return nil
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return bad("%s of %s %q: first difference at byte %d\n got %s\nwant %s\n(%v)", what, c.Bin, c.Args, i, vh.Short(got), vh.Short(want), r)
}

// fset is a set of generated files: name and contents.
type fset struct {
	Name vh.S
	Data vh.Blob
	Fifo bool `json:",omitempty"` // a FIFO that can be read once
}

// someFifos makes FIFOs of files that are named once among the operands.
func someFifos(t *rapid.T, files []fset, operands []int) {
	if !vh.OneIn(t, 8, "FIFOs") {
		return
	}
	uses := make([]int, len(files))
	for _, o := range operands {
		if o >= 0 {
			uses[o]++
		}
	}
	for i := range files {
		files[i].Fifo = uses[i] == 1 && vh.Bool(t, "FIFO")
	}
}

// serve puts FIFOs in place of files and delivers their data to whoever opens
// them, until stop is called.
func serve(dir string, fs []fset) (n int, stop func()) {
	done := make(chan bool)
	var wg sync.WaitGroup
	for _, f := range fs {
		if !f.Fifo {
			continue
		}
		n++
		path, data := onDisk(dir, string(f.Name)), f.Data.Bytes()
		if err := os.Remove(path); err != nil {
			vh.Infra("%v", err)
		}
		if err := syscall.Mkfifo(path, 0644); err != nil {
			vh.Infra("mkfifo: %v", err)
		}
		os.Chmod(path, 0644)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				fd, err := syscall.Open(path, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err == nil {
					syscall.SetNonblock(fd, false)
					w := os.NewFile(uintptr(fd), path)
					w.WriteString(data) // fails when the reader has seen enough
					w.Close()
					return
				}
				select {
				case <-done:
					return
				case <-time.After(50 * time.Microsecond):
				}
			}
		}()
	}
	return n, func() {
		close(done)
		wg.Wait()
	}
}

// runWith runs a command on files some of which may be FIFOs.
func runWith(e *vh.Env, c vh.Cmd, dir string, fs []fset) vh.Result {
	n, stop := serve(dir, fs)
	defer stop()
	if n > 0 {
		vh.Count("runs with FIFOs", 1)
		c.Timeout = 60 * time.Second
		return e.Once(c)
	}
	return e.Run(c)
}

// genFiles draws distinct files (distinct also on disk).
func genFiles(t *rapid.T, lo, hi, big int) []fset {
	n := vh.Int(t, lo, hi, "files")
	var out []fset
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := vh.Pick(t, "name", fileNames...)
		if used[filepath.Clean(name)] {
			name = fmt.Sprintf("file%d", i)
		}
		used[filepath.Clean(name)] = true
		out = append(out, fset{vh.S(name), vh.GenBlob(t, big, "data"), false})
	}
	return out
}

func (f fset) put(e *vh.Env, dir string) { e.Write(onDisk(dir, string(f.Name)), f.Data.Bytes(), 0644) }

func putAll(e *vh.Env, dir string, fs []fset) {
	e.Mkdir(filepath.Join(dir, "sub"), 0755)
	for _, f := range fs {
		f.put(e, dir)
	}
}

func sizeLabel(n int) string {
	switch {
	case n == 0:
		return "empty"
	case n < 4096:
		return "small"
	case n < 65536:
		return "over 4K"
	case n < 1<<24:
		return "over 64K"
	}
	return "over 16M"
}

func isText(s string) bool { return !strings.ContainsAny(s, "\x00") }
