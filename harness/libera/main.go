// Command libera checks era descriptions.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
	"pgregory.net/rapid"
	"verifharness/vh"
)

// C23

type eraCase struct {
	Dir, Offset, Start, End, Name, Format vh.S
	Damage                                string // "", fields, direction, offset
	Fields                                int    // number of fields left
}

func (c eraCase) text() string {
	f := []string{string(c.Dir), string(c.Offset), string(c.Start), string(c.End), string(c.Name), string(c.Format)}
	if c.Damage == "fields" {
		f = f[:c.Fields]
		for i := range f { // a colon would make a field more
			f[i] = strings.ReplaceAll(f[i], ":", ";")
		}
	}
	return strings.Join(f, ":")
}

func gen(t *rapid.T) eraCase {
	field := func(name string, vals ...string) vh.S {
		if vh.OneIn(t, 4, name+" free") {
			return vh.S(strings.ReplaceAll(rapid.StringN(0, 8, -1).Draw(t, name), ":", "_"))
		}
		return vh.S(vh.Pick(t, name, vals...))
	}
	c := eraCase{
		Dir:    vh.S(vh.Pick(t, "direction", "+", "-")),
		Start:  field("start", "1990/01/01", "0001/01/01", "-0001/12/31", "", "x"),
		End:    field("end", "+*", "-*", "1989/12/31", "", "y"),
		Name:   field("name", "平成", "AD", "", "B C", "%"),
		Format: field("format", "%EC%Ey年", "%EC元年", "", "a"),
	}
	switch vh.Int(t, 0, 3, "offset kind") {
	case 0:
		c.Offset = vh.S(strconv.Itoa(rapid.Int().Draw(t, "any offset")))
	default:
		c.Offset = vh.S(vh.Pick(t, "offset", "2", "1", "0", "-1", "9223372036854775807", "-9223372036854775808", "543", "12"))
	}
	if vh.OneIn(t, 3, "colons in the format") {
		c.Format = vh.S(vh.Pick(t, "format", "%H:%M:%S", ":", "a:", ":a", "::", "%EC:%Ey"))
	}
	if vh.OneIn(t, 3, "damage") {
		c.Damage = vh.Pick(t, "what", "fields", "direction", "offset")
		switch c.Damage {
		case "fields":
			c.Fields = vh.Int(t, 0, 5, "fields")
		case "direction":
			c.Dir = vh.S(vh.Pick(t, "bad direction", "", "*", "++", "+-", " +", "+ ", "plus", "−", "0"))
		case "offset":
			c.Offset = vh.S(vh.Pick(t, "bad offset", "", "x", "1x", "1.5", " 1", "1 ", "--1", "0x10", "9223372036854775808", "-", "1,000"))
		}
	}
	return c
}

func run(e *vh.Env, c eraCase) error {
	var era locale.Era
	var err error
	if p := vh.Catch(func() { era, err = locale.NewEra(c.text()) }); p != "" {
		return fmt.Errorf("NewEra(%q): %s", c.text(), p)
	}
	if c.Damage != "" {
		if err == nil {
			return fmt.Errorf("NewEra(%q) should fail: %+v", c.text(), era)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("NewEra(%q) fails: %v", c.text(), err)
	}
	wantOff, _ := strconv.Atoi(string(c.Offset))
	v := reflect.ValueOf(era)
	strs := map[string]string{"startDate": string(c.Start), "endDate": string(c.End), "name": string(c.Name), "format": string(c.Format)}
	known := true
	for n := range strs {
		f := v.FieldByName(n)
		known = known && f.IsValid() && f.Kind() == reflect.String
	}
	if known {
		for n, want := range strs {
			if got := v.FieldByName(n).String(); got != want {
				return fmt.Errorf("NewEra(%q): %s is %q, want %q", c.text(), n, got, want)
			}
		}
	} else { // fields by other names: all four texts must be there
		var got, want []string
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.String {
				got = append(got, v.Field(i).String())
			}
		}
		for _, s := range strs {
			want = append(want, s)
		}
		sort.Strings(got)
		sort.Strings(want)
		if len(got) == 4 && fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return fmt.Errorf("NewEra(%q): texts %q, want %q", c.text(), got, want)
		}
		vh.Count("eras compared without field names", 1)
	}
	if f := v.FieldByName("offset"); f.IsValid() && f.CanInt() && f.Int() != int64(wantOff) {
		return fmt.Errorf("NewEra(%q): offset is %d", c.text(), f.Int())
	}
	if f := v.FieldByName("reverse"); f.IsValid() && f.Kind() == reflect.Bool && f.Bool() != (c.Dir == "-") {
		return fmt.Errorf("NewEra(%q): reverse is %v", c.text(), f.Bool())
	}
	return nil
}

func main() {
	vh.Register("C23", "era descriptions of six field texts (colons only in the format), or damaged in one field; non-trivial: damaged, or name and format not empty",
		gen, run, func(c eraCase) (bool, []string) {
			l := "well-formed"
			if c.Damage != "" {
				l = "bad " + c.Damage
			}
			return c.Damage != "" || (c.Name != "" && c.Format != ""), []string{l}
		})
	vh.Main()
}
