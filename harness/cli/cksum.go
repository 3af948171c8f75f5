package main

import (
	"fmt"

	"pgregory.net/rapid"
	"verifharness/vh"
)

// C02

// posixCRC is the definition: message bits, then the length, least significant
// octet first, as coefficients of a polynomial divided by 0x04C11DB7.
func posixCRC(s string) uint32 {
	crc := uint32(0)
	step := func(b byte) {
		crc = crc<<8 ^ crcStep[byte(crc>>24)^b]
	}
	for i := 0; i < len(s); i++ {
		step(s[i])
	}
	for n := len(s); n > 0; n >>= 8 {
		step(byte(n))
	}
	return ^crc
}

var crcStep = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04C11DB7
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

type cksumCase struct {
	Files   []fset
	Stdin   vh.Blob
	AsFile  bool
	Operand []int // index of a file, -1 for "-"; empty: standard input
}

func genCksum(t *rapid.T) cksumCase {
	c := cksumCase{Files: genFiles(t, 1, 4, 200000)}
	if vh.OneIn(t, 60, "huge") {
		n := 1<<24 + vh.Int(t, -3, 3, "huge delta")
		unit := vh.S(vh.Pick(t, "huge unit", "a", "\xff", "\x00"))
		c.Files[0].Data = vh.Blob{{unit, n}}
		if vh.Bool(t, "more") {
			c.Files[0].Data = append(c.Files[0].Data, vh.Seg{vh.S(vh.AnyBytes(t, 6, "tail")), 1})
		}
	}
	c.Stdin = vh.GenBlob(t, 200000, "stdin")
	c.AsFile = vh.Bool(t, "stdin is a file")
	c.Operand = rapid.SliceOfN(rapid.IntRange(-1, len(c.Files)-1), 0, 5).Draw(t, "operands")
	if vh.OneIn(t, 60, "many operands") {
		c.Operand = append(c.Operand, manyOperands(t, c.Files)...)
	}
	someFifos(t, c.Files, c.Operand)
	return c
}

func runCksum(e *vh.Env, c cksumCase) error {
	d := e.Dir()
	defer e.Drop(d)
	putAll(e, d, c.Files)
	var args []string
	want := ""
	in := c.Stdin.Bytes()
	rest := in
	for _, o := range c.Operand {
		if o < 0 {
			args = append(args, "-")
			want += fmt.Sprintf("%d %d -\n", posixCRC(rest), len(rest))
			rest = ""
			continue
		}
		f := c.Files[o]
		args = append(args, string(f.Name))
		data := f.Data.Bytes()
		want += fmt.Sprintf("%d %d %s\n", posixCRC(data), len(data), f.Name)
	}
	if len(args) == 0 {
		want = fmt.Sprintf("%d %d\n", posixCRC(in), len(in))
	}
	cmd := vh.Cmd{Bin: "cksum", Args: args, Stdin: in, StdinFile: c.AsFile, Dir: d, Unpriv: true, Prefix: fewFiles(len(c.Operand))}
	r := runWith(e, cmd, d, c.Files)
	if err := cliTrouble(cmd, r); err != nil {
		return err
	}
	if err := eq("stdout", cmd, r.Out, want, r); err != nil {
		return err
	}
	if r.Exit != 0 {
		return bad("cksum %q: should exit 0: %v", args, r)
	}
	return nil
}

func init() {
	vh.Register("C02", "byte strings of random content, sizes biased to 2^8, 2^16 and 2^24, as files in random operand lists or as standard input; non-trivial: some input is non-empty",
		genCksum, runCksum, func(c cksumCase) (bool, []string) {
			total := 0
			var l []string
			for _, o := range c.Operand {
				if o < 0 {
					total += len(c.Stdin.Bytes())
					l = append(l, "dash")
					continue
				}
				n := len(c.Files[o].Data.Bytes())
				total += n
				l = append(l, sizeLabel(n))
			}
			if len(c.Operand) == 0 {
				total = len(c.Stdin.Bytes())
				l = append(l, "stdin", sizeLabel(total))
			}
			return total > 0, l
		})
}
