// Command libflag checks the option parser.
package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/fwip/posix-utils/pkg/flag"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C13

type opt struct {
	Name string // one character
	Kind string // bool, string, int
	Init vh.S
}

type flagCase struct {
	Opts []opt
	Args []vh.S
}

var optNames = []string{"a", "b", "v", "x", "n", "p", "0", "1", "é", "世", "🙂", "?", "A", "=", ".", "%"}

func gen(t *rapid.T) flagCase {
	c := flagCase{}
	k := vh.Int(t, 0, 6, "options")
	perm := rapid.Permutation(optNames).Draw(t, "names")
	for i := 0; i < k; i++ {
		o := opt{Name: perm[i], Kind: vh.Pick(t, "kind", "bool", "string", "int", "bool")}
		switch o.Kind {
		case "bool":
			o.Init = vh.S(vh.Pick(t, "init", "false", "false", "true"))
		case "string":
			o.Init = vh.S(vh.Pick(t, "init", "", "default"))
		case "int":
			o.Init = vh.S(vh.Pick(t, "init", "0", "42", "-7"))
		}
		c.Opts = append(c.Opts, o)
	}
	n := vh.Int(t, 0, 6, "arguments")
	if len(c.Opts) > 0 && vh.OneIn(t, 60, "many arguments") {
		for k := vh.Pick(t, "arguments", 20, 33, 65, 130, 260); k > 0; k-- { // all of them good
			o := c.Opts[vh.Int(t, 0, k-1, "which")%len(c.Opts)]
			switch o.Kind {
			case "bool":
				c.Args = append(c.Args, vh.S("-"+o.Name))
			case "string":
				c.Args = append(c.Args, vh.S("-"+o.Name), vh.S(fmt.Sprint("v", k)))
			default:
				c.Args = append(c.Args, vh.S("-"+o.Name), vh.S(fmt.Sprint(k)))
			}
		}
	}
	for i := 0; i < n; i++ {
		c.Args = append(c.Args, vh.Ss(genArg(t, c.Opts))...)
	}
	return c
}

func genValue(t *rapid.T, o opt) string {
	if o.Kind == "int" && !vh.OneIn(t, 6, "non-integer") {
		return vh.Pick(t, "int", "0", "1", "-1", "32", "-5", "2147483647", "2147483648", "-2147483649", "4294967296", "65536", "300", "9223372036854775807", "-9223372036854775808", "100", "7")
	}
	if o.Kind == "int" {
		return vh.Pick(t, "bad int", "abc", "1x", "1.5", "--", "", "-", "é", "9223372036854775808", "1 ", " ")
	}
	if vh.OneIn(t, 60, "long value") {
		return strings.Repeat(vh.Pick(t, "unit", "x", "é", "-", "a "), vh.Pick(t, "length", 64, 255, 256, 1024, 4096, 70000))
	}
	return vh.Pick(t, "value", "hello", "", "-", "--", "-a", "-v", "a b", "é世", "x", "-n", "=x", "%s", "\xff")
}

// genArg draws one option group with its value, or a single other argument.
func genArg(t *rapid.T, opts []opt) []string {
	if len(opts) > 0 && vh.Int(t, 0, 5, "option?") > 0 {
		arg := "-"
		for {
			o := opts[vh.Int(t, 0, len(opts)-1, "which")]
			arg += o.Name
			if o.Kind != "bool" {
				switch vh.Int(t, 0, 5, "how") {
				case 0, 1: // attached
					return []string{arg + genValue(t, o)}
				case 2:
					if vh.OneIn(t, 3, "no value") {
						return []string{arg}
					}
				}
				return []string{arg, genValue(t, o)}
			}
			if len(arg) > 8 || vh.Bool(t, "end of group") {
				return []string{arg}
			}
		}
	}
	if vh.OneIn(t, 6, "free") {
		return []string{strings.ReplaceAll(rapid.StringN(0, 5, -1).Draw(t, "text"), "\x00", "0")}
	}
	return []string{vh.Pick(t, "argument", "-v", "-z", "file", "", "-", "--", "---", "-a", "-ab", "--long", "-n5", "-p", "-\xff", "a", "-é", "-v-", "+x", "- ")}
}

type result struct {
	bools map[string]bool
	strs  map[string]string
	ints  map[string]int64
	pos   []string
	fail  bool
	skip  bool
}

// expect is the reference: XBD 12.2, guidelines 3 to 10.
func expect(c flagCase) result {
	r := result{map[string]bool{}, map[string]string{}, map[string]int64{}, nil, false, false}
	kind := map[string]string{}
	for _, o := range c.Opts {
		kind[o.Name] = o.Kind
		switch o.Kind {
		case "bool":
			r.bools[o.Name] = o.Init == "true"
		case "string":
			r.strs[o.Name] = string(o.Init)
		case "int":
			r.ints[o.Name], _ = strconv.ParseInt(string(o.Init), 10, 64)
		}
	}
	args := vh.Strs(c.Args)
	for len(args) > 0 {
		a := args[0]
		if a == "--" {
			r.pos = args[1:]
			return r
		}
		if a == "-" || !strings.HasPrefix(a, "-") {
			r.pos = args
			return r
		}
		args = args[1:]
		for rest := a[1:]; rest != ""; {
			_, w := utf8.DecodeRuneInString(rest)
			name := rest[:w]
			rest = rest[w:]
			k := kind[name]
			if k == "" {
				r.fail = true
				return r
			}
			if k == "bool" {
				r.bools[name] = true
				continue
			}
			v := rest
			rest = ""
			if v == "" {
				if len(args) == 0 {
					r.fail = true
					return r
				}
				v, args = args[0], args[1:]
			}
			if k == "string" {
				r.strs[name] = v
				continue
			}
			r.skip = r.skip || ambiguous(v)
			n, err := strconv.ParseInt(v, 10, 64)
			if err != nil {
				r.fail = true
				return r
			}
			r.ints[name] = n
		}
	}
	return r
}

// ambiguous: a value the property does not speak about (other notations of integers).
func ambiguous(v string) bool {
	_, e0 := strconv.ParseInt(v, 0, 64)
	n10, e10 := strconv.ParseInt(v, 10, 64)
	return (e0 == nil) != (e10 == nil) || (strings.HasPrefix(strings.TrimLeft(v, "+-"), "0") && e10 == nil && n10 != 0) || (strings.HasPrefix(v, "+") && e10 == nil)
}

func run(e *vh.Env, c flagCase) error {
	want := expect(c)
	if want.skip {
		vh.Count("vectors with other notations of integers, left out", 1)
		return nil
	}
	args := vh.Strs(c.Args)
	input := append([]string{}, args...)
	p := flag.Parser{Input: input}
	bools := map[string]*bool{}
	strs := map[string]*string{}
	ints := map[string]*int64{}
	for _, o := range c.Opts {
		r, _ := utf8.DecodeRuneInString(o.Name)
		switch o.Kind {
		case "bool":
			v := o.Init == "true"
			bools[o.Name] = &v
			p.BoolVar(&v, r)
		case "string":
			v := string(o.Init)
			strs[o.Name] = &v
			p.StringVar(&v, r)
		case "int":
			v, _ := strconv.ParseInt(string(o.Init), 10, 64)
			ints[o.Name] = &v
			p.IntVar(&v, r)
		}
	}
	var pos []string
	var err error
	if pc := vh.Catch(func() { pos, err = p.Parse() }); pc != "" {
		return fmt.Errorf("options %v, arguments %q: %s", c.Opts, args, pc)
	}
	if want.fail {
		if err == nil {
			return fmt.Errorf("options %v, arguments %q: no error", c.Opts, args)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("options %v, arguments %q: unexpected error %v", c.Opts, args, err)
	}
	for n, v := range want.bools {
		if *bools[n] != v {
			return fmt.Errorf("options %v, arguments %q: option %s is %v, want %v", c.Opts, args, n, *bools[n], v)
		}
	}
	for n, v := range want.strs {
		if *strs[n] != v {
			return fmt.Errorf("options %v, arguments %q: option %s is %q, want %q", c.Opts, args, n, *strs[n], v)
		}
	}
	for n, v := range want.ints {
		if *ints[n] != v {
			return fmt.Errorf("options %v, arguments %q: option %s is %d, want %d", c.Opts, args, n, *ints[n], v)
		}
	}
	if strings.Join(pos, "\x00") != strings.Join(want.pos, "\x00") || len(pos) != len(want.pos) {
		return fmt.Errorf("options %v, arguments %q: remaining arguments %q, want %q", c.Opts, args, pos, want.pos)
	}
	return nil
}

func main() {
	vh.Register("C13", "declarations of up to six options and argument vectors of groups, attached and separate values, terminators, unknown options and bad values; non-trivial: at least one declared option occurs, or an error is due",
		gen, run, func(c flagCase) (bool, []string) {
			r := expect(c)
			l := []string{"parsed"}
			if r.fail {
				l = []string{"error"}
			}
			used := len(c.Args) - len(r.pos)
			if used > 1 {
				l = append(l, "two or more option arguments")
			}
			if len(r.pos) > 0 {
				l = append(l, "positional")
			}
			return r.fail || used > 0, l
		})
	vh.Main()
}
