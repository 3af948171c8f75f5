package main

import (
	"strings"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C12

var localeVars = []string{"LANG", "LC_ALL", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"}

type localeCase struct {
	Vals  [8]*vh.S // nil: unset
	Extra bool     // other variables with similar names are set as well
}

func genLocale(t *rapid.T) localeCase {
	c := localeCase{Extra: vh.OneIn(t, 3, "extra")}
	sparse := vh.Int(t, 1, 4, "density")
	for i := range localeVars {
		k := vh.Int(t, 0, 3, localeVars[i])
		if i == 1 && vh.Bool(t, "no LC_ALL") {
			k = 0
		}
		switch {
		case k == 0 || k > sparse:
		case k == 1:
			v := vh.S("")
			if vh.Bool(t, "value") {
				v = "C"
			}
			c.Vals[i] = &v
		default:
			v := vh.S(vh.Pick(t, "val", "C", "POSIX", "en_US.UTF-8", "de_DE@euro", "%d%s%", "%%", "a b", "", " ", "\"", "x=y", "é", "\\n", "/usr/lib/locale", "$LANG", strings.Repeat("v", 5000), "line\nbreak", "\xff"))
			if vh.OneIn(t, 8, "free") {
				v = vh.S(strings.ReplaceAll(rapid.StringN(0, 8, -1).Draw(t, "text"), "\x00", "%"))
			}
			c.Vals[i] = &v
		}
	}
	return c
}

func runLocale(e *vh.Env, c localeCase) error {
	env := []string{"PATH=/usr/bin"}
	val := map[string]string{}
	for i, n := range localeVars {
		if c.Vals[i] != nil {
			env = append(env, n+"="+string(*c.Vals[i]))
			val[n] = string(*c.Vals[i])
		}
	}
	if c.Extra {
		env = append(env, "LC_PAPER=no", "LANGUAGE=no", "LC=no", "lang=no", "LC_ADDRESS=no")
	}
	want := "LANG=\"" + val["LANG"] + "\"\n"
	for _, n := range []string{"LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"} {
		switch {
		case val["LC_ALL"] != "":
			want += n + "=\"" + val["LC_ALL"] + "\"\n"
		case val[n] != "":
			want += n + "=" + val[n] + "\n"
		default:
			want += n + "=\"" + val["LANG"] + "\"\n"
		}
	}
	want += "LC_ALL=" + val["LC_ALL"] + "\n"
	cmd := vh.Cmd{Bin: "locale", Dir: e.Scratch, Env: env, Unpriv: true}
	r := e.Run(cmd)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if err := eq("stdout", cmd, r.Out, want, r); err != nil {
		return err
	}
	if r.Exit != 0 {
		return bad("locale should exit 0: %v", r)
	}
	return nil
}

func init() {
	vh.Register("C12", "each of the eight variables unset, empty or set to text with any characters; non-trivial: at least two of them set and not empty",
		genLocale, runLocale, func(c localeCase) (bool, []string) {
			n := 0
			var l []string
			for i, v := range c.Vals {
				if v != nil && *v != "" {
					n++
					l = append(l, localeVars[i])
				}
			}
			return n > 1, l
		})
}
