package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// work is an ordinary run of a tool on some inputs, for C26 and C27.
type work struct {
	Tool  string
	Opts  []vh.S
	Files []fset // the file operands, in order; the one named "-" is standard input
	Env   []vh.S `json:",omitempty"`
}

func (w work) args() []string {
	a := vh.Strs(w.Opts)
	for _, f := range w.Files {
		if f.Name != "" {
			a = append(a, string(f.Name))
		}
	}
	return a
}

// stdin is the index of the file that is standard input, or -1.
func (w work) stdin() int {
	for i, f := range w.Files {
		if f.Name == "-" || f.Name == "" {
			return i
		}
	}
	return -1
}

// genWork draws a run that reads at least one byte or prints something, most of the time.
func genWork(t *rapid.T, tools ...string) work {
	w := work{Tool: vh.Pick(t, "tool", tools...)}
	data := func(name string) vh.Blob {
		if vh.Bool(t, name+" is text") {
			return genTextBlob(t, name)
		}
		return vh.GenBlob(t, 140000, name)
	}
	add := func(name string, b vh.Blob) { w.Files = append(w.Files, fset{vh.S(name), b, false}) }
	switch w.Tool {
	case "cat", "cksum", "head":
		n := vh.Int(t, 1, 3, "files")
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("file%d", i), data("data"))
		}
		switch vh.Int(t, 0, 5, "stdin") {
		case 0:
			w.Files[vh.Int(t, 0, n-1, "which")].Name = "-"
		case 1:
			w.Files = w.Files[:1]
			w.Files[0].Name = ""
		}
		if w.Tool == "head" && vh.Int(t, 0, 3, "n?") > 0 {
			w.Opts = vh.Ss([]string{"-n", strconv.Itoa(vh.Pick(t, "n", 1, 2, 3, 20, 1000, 100000))})
		}
	case "cmp":
		c := genCmp(t)
		a, b := c.data()
		w.Opts = vh.Ss([][]string{nil, {"-l"}, {"-s"}}[vh.Int(t, 0, 2, "option")])
		add("file0", vh.Blob{{B: vh.S(a), N: 1}})
		add("file1", vh.Blob{{B: vh.S(b), N: 1}})
		if vh.OneIn(t, 4, "stdin") {
			w.Files[vh.Int(t, 0, 1, "which")].Name = "-"
		}
	case "diff":
		a, b := vh.GenPair(t, func(n string) string { return vh.GenLine(t, n) })
		add("file0", vh.Blob{{B: vh.S(vh.JoinLines(a, true)), N: 1}})
		add("file1", vh.Blob{{B: vh.S(vh.JoinLines(b, true)), N: 1}})
	case "tsort":
		c := genTsort(t)
		add(vh.Pick(t, "input", "file0", "-", ""), vh.Blob{{B: vh.S(c.text()), N: 1}})
	case "locale":
		w.Env = vh.Ss([]string{"LANG=" + vh.Pick(t, "LANG", "C", "en_US.UTF-8", "x")})
		if vh.Bool(t, "LC_ALL") {
			w.Env = append(w.Env, "LC_ALL=POSIX")
		}
	}
	return w
}

// cmd makes the files and the command.
func (w work) cmd(e *vh.Env, d string) vh.Cmd {
	c := vh.Cmd{Bin: w.Tool, Args: w.args(), Dir: d, Unpriv: true}
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=all", "GOMAXPROCS=2"}, vh.Strs(w.Env)...)
	for i, f := range w.Files {
		if i == w.stdin() {
			c.Stdin, c.StdinFile = f.Data.Bytes(), true
			continue
		}
		f.put(e, d)
	}
	return c
}

// sameOut compares the outputs of two runs; tsort may choose another order.
func (w work) sameOut(a, b string) bool {
	if w.Tool == "tsort" {
		x, y := strings.SplitAfter(a, "\n"), strings.SplitAfter(b, "\n")
		sort.Strings(x)
		sort.Strings(y)
		a, b = strings.Join(x, ""), strings.Join(y, "")
	}
	return a == b
}

// failed tells whether a run says that it failed.
func (w work) failed(r vh.Result) bool {
	if r.Exit < 0 {
		return true
	}
	least := 1
	if w.Tool == "cmp" || w.Tool == "diff" {
		least = 2
	}
	return r.Exit >= least && r.Err != ""
}
