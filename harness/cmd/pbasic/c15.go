package main

import (
	"unicode"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

var asciiRange = &unicode.RangeTable{R16: []unicode.Range16{{Lo: 1, Hi: 0x7F, Stride: 1}}, LatinOffset: 1}

// edit spoils a program.
type edit struct {
	Kind string // byte link cut insert
	At   int
	Val  int
}

type robust struct {
	Raw   []byte // if not nil: arbitrary bytes
	Prog  *aprog
	IProg *iprog
	Edits []edit
	Loc   int
	Len   int // pad Raw with pseudo-random bytes up to this length
	Fill  uint64
}

func drawRobust(t *rapid.T) robust {
	c := robust{Loc: rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 0x801, 0x801, 0xFFFF, 0xFFFE}), rapid.IntRange(0, 0xFFFF)).Draw(t, "loc"), Fill: rapid.Uint64().Draw(t, "fill")}
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0:
		c.Raw = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.ByteRange(0, 8)), 0, 60).Draw(t, "raw")
	case 1:
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "start")
		c.Len = rapid.IntRange(0, 3000).Draw(t, "len")
	case 2:
		p := drawIProg(t)
		c.IProg = &p
	default:
		p := drawAProg(t)
		c.Prog = &p
		if rapid.Bool().Draw(t, "sameloc") {
			c.Loc = p.Location
		}
	}
	n := rapid.IntRange(0, 4).Draw(t, "nedits")
	for i := 0; i < n; i++ {
		c.Edits = append(c.Edits, edit{
			rapid.SampledFrom([]string{"byte", "link", "link", "cut", "insert", "zero"}).Draw(t, "ekind"),
			rapid.IntRange(0, 200).Draw(t, "at"),
			rapid.OneOf(rapid.IntRange(-3, 40), rapid.IntRange(-3, 0xFFFF)).Draw(t, "val"),
		})
	}
	return c
}

func (c robust) bytes() ([]byte, bool) {
	var b []byte
	switch {
	case c.Prog != nil:
		mem, ok := c.Prog.build()
		if !ok {
			return nil, false
		}
		b, ok = frame(mem, c.Prog.Header, c.Prog.Trailer, c.Fill)
		if !ok {
			b = mem
		}
	case c.IProg != nil:
		mem, _, ok := c.IProg.build()
		if !ok {
			return nil, false
		}
		b, ok = frame(mem, c.IProg.Header, c.IProg.Trailer, c.Fill)
		if !ok {
			b = mem
		}
	default:
		b = append(b, c.Raw...)
		if c.Len > len(b) && c.Len < 70000 {
			b = append(b, img.Bytes(c.Fill, c.Len-len(b))...)
		}
	}
	for _, x := range c.Edits {
		if len(b) == 0 || x.At < 0 {
			continue
		}
		at := x.At % len(b)
		switch x.Kind {
		case "byte":
			b[at] = byte(x.Val)
		case "zero":
			b[at] = 0
		case "link": // a link to somewhere in, or just around, the program
			v := c.Loc + x.Val
			b[at] = byte(v)
			if at+1 < len(b) {
				b[at+1] = byte(v >> 8)
			}
		case "cut":
			b = b[:at]
		case "insert":
			b = append(b[:at], append([]byte{byte(x.Val)}, b[at:]...)...)
		}
	}
	return b, true
}

func init() {
	fw.Rule("C15", "a case is a byte string - arbitrary, or a well-formed Applesoft or Integer BASIC program with bytes, links or lengths changed, cut short or added to - and a load location; both decoders and listings run on it. Non-trivial: at least 4 bytes.",
		"not terminating means more than 20 s of CPU time or 3 GB of heap for one case, which normally takes microseconds")
	fw.Draw("C15", "decoders", 300000, 6000000, drawRobust, func(e *fw.Env, c robust) {
		b, ok := c.bytes()
		if !ok || c.Loc < 0 || c.Loc > 0xFFFF {
			return
		}
		if len(b) >= 4 {
			e.Nontrivial()
		}
		al, err := applesoft.Decode(append([]byte(nil), b...), uint16(c.Loc))
		if err == nil {
			e.Check(len(al) <= len(b), "Applesoft: %d bytes decode to %d lines", len(b), len(al))
			_ = basic.ChevronControlCodes(al.String())
			e.Label("applesoft accepts, lines: %v", len(al) > 0)
		}
		il, err := integer.Decode(append([]byte(nil), b...))
		if err == nil {
			e.Check(len(il) <= len(b), "Integer: %d bytes decode to %d lines", len(b), len(il))
			_ = integer.ChevronControlCodes(il.String())
			e.Label("integer accepts, lines: %v", len(il) > 0)
		}
	})
	fw.Draw("C15", "command", 1200, 20000, drawRobust, func(e *fw.Env, c robust) {
		b, ok := c.bytes()
		if !ok {
			return
		}
		dir := e.Dir()
		cli.Write(dir, "prog", b)
		r := cli.Run(e, dir, []string{"applesoft", "decode", "prog"})
		e.Check(r.Crash == "", "applesoft decode of %d bytes: %s", len(b), r.Crash)
		if r.Code != 0 {
			r.Refused(e)
		}
		e.Label("exit %d", r.Code)
		if len(b) >= 4 {
			e.Nontrivial()
		}
	})
}
