package vh

import (
	"strings"

	"pgregory.net/rapid"
)

// Int draws from an inclusive range.
func Int(t *rapid.T, lo, hi int, name string) int { return rapid.IntRange(lo, hi).Draw(t, name) }

// Bool draws a coin.
func Bool(t *rapid.T, name string) bool { return rapid.Bool().Draw(t, name) }

// Pick draws one of the values.
func Pick[T any](t *rapid.T, name string, vs ...T) T { return rapid.SampledFrom(vs).Draw(t, name) }

// OneIn is true about once in n draws; it shrinks to false.
func OneIn(t *rapid.T, n int, name string) bool { return Int(t, 0, n-1, name) == n-1 }

// Boundaries are sizes at which buffers, limits and length fields change.
var Boundaries = []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025,
	4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073}

// AnyBytes draws a short byte string: text, control characters, all byte values.
func AnyBytes(t *rapid.T, max int, name string) string {
	switch Int(t, 0, 4, name+" kind") {
	case 0:
		return string(rapid.SliceOfN(rapid.SampledFrom([]byte("ab\n")), 0, max).Draw(t, name))
	case 1:
		return string(rapid.SliceOfN(rapid.SampledFrom([]byte("abc 01\t\r\n\x00\xff\xfe\x80\x1a\x7f")), 0, max).Draw(t, name))
	case 2:
		return string(rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, name))
	case 3:
		return rapid.StringN(0, max, -1).Draw(t, name)
	default:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "line", "\n", "\n\n", "\r\n", "é", "世", " ", "\x00", "\xff", "\n.\n"}), 0, max).Draw(t, name), "")
	}
}

// GenBlob draws data of any size, biased to small sizes and to boundaries.
func GenBlob(t *rapid.T, big int, name string) Blob {
	switch k := Int(t, 0, 9, name+" shape"); {
	case k < 6:
		return Blob{{S(AnyBytes(t, 24, name)), 1}}
	case k < 9:
		// a boundary size, made of a repeated unit, with a free head and tail
		unit := Pick(t, name+" unit", "x", "ab", "a\n", "\n", "\x00", "\xff\x00", "line of text\n", "é", "0123456789abcdef")
		size := Pick(t, name+" size", Boundaries...) + Int(t, -2, 2, name+" delta")
		if size < 0 {
			size = 0
		}
		if size > big {
			size = big
		}
		b := Blob{}
		if Bool(t, name+" has head") {
			b = append(b, Seg{S(AnyBytes(t, 6, name+" head")), 1})
		}
		b = append(b, Seg{S(unit), size / len(unit)})
		if r := size % len(unit); r > 0 {
			b = append(b, Seg{S(unit[:r]), 1})
		}
		if Bool(t, name+" has tail") {
			b = append(b, Seg{S(AnyBytes(t, 6, name+" tail")), 1})
		}
		return b
	default:
		n := Int(t, 1, 4, name+" segments")
		b := Blob{}
		total := 0
		for i := 0; i < n; i++ {
			unit := AnyBytes(t, 8, name+" unit")
			rep := Pick(t, name+" rep", 1, 2, 3, 100, 1000, 5000, 20000)
			if total+rep*len(unit) > big {
				continue
			}
			total += rep * len(unit)
			b = append(b, Seg{S(unit), rep})
		}
		return b
	}
}

// GenLine draws a line of text without a newline.
func GenLine(t *rapid.T, name string) string {
	switch Int(t, 0, 11, name+" kind") {
	case 0:
		return ""
	case 1, 2, 3, 4:
		return Pick(t, name, "a", "b", "c", "d", "e")
	case 5:
		return Pick(t, name, ".", "..", ".x", " ", "\t", "$", "?", "---", "< a", "> b", "1,2d", "p", "q", "%d%s", "\\", "0", "-", "+ a", "- b", "  a")
	case 6:
		return Pick(t, name, "héllo", "世界", "naïve\u0301", "\u2028x", "🙂")
	case 7:
		return Pick(t, name, "a\r", "\r", "\x00", "a\x00b", "\x1b[1m", "\x0c", "\u0085")
	case 8:
		if OneIn(t, 40, name+" huge") {
			return strings.Repeat(Pick(t, name+" unit", "x", "ab"), 1<<20+Int(t, -1, 5, name+" delta"))
		}
		return strings.Repeat(Pick(t, name+" unit", "x", "ab", "é"), Pick(t, name+" len", 100, 4095, 4096, 65535, 65536, 70000)/2)
	default:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", " ", "foo", "bar", "é", "1", "/"}), 0, 8).Draw(t, name), "")
	}
}

// JoinLines makes file contents of lines.
func JoinLines(lines []string, finalNewline bool) string {
	if len(lines) == 0 {
		return ""
	}
	s := strings.Join(lines, "\n")
	if finalNewline {
		s += "\n"
	}
	return s
}

// SplitLines is its inverse.
func SplitLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// Strs converts.
func Strs(in []S) []string {
	out := make([]string, len(in))
	for i, s := range in {
		out[i] = string(s)
	}
	return out
}

// Ss converts.
func Ss(in []string) []S {
	out := make([]S, len(in))
	for i, s := range in {
		out[i] = S(s)
	}
	return out
}
