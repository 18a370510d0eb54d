package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zellyn/diskii/basic/integer"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
)

// elem is one element of an Integer BASIC line.
type elem struct {
	Kind string // tok num var str rem
	Tok  byte
	Num  uint16
	Lead byte // first byte of a constant: B0-B9
	Text string
}

type iline struct {
	Num   int
	Elems []elem
}

type iprog struct {
	Lines   []iline
	Header  bool
	Trailer bool
	Tail    int // up to three stray bytes after the last line
	Fill    uint64
	Size    int // repeat the lines up to this many bytes; 0: leave it
}

// grow repeats the lines, numbered as they are, up to the size.
func (p iprog) grow() iprog {
	if p.Size <= 0 || p.Size > 0x10000 || len(p.Lines) == 0 {
		return p
	}
	size := 0
	lines := append([]iline(nil), p.Lines...)
	for i := 0; ; i++ {
		l := p.Lines[i%len(p.Lines)]
		b, ok := l.bytes()
		if !ok {
			return p
		}
		if i >= len(p.Lines) {
			if size+len(b)+4 > p.Size {
				break
			}
			lines = append(lines, l)
		}
		size += len(b) + 4
	}
	if n := p.Size - size - 5; n >= 0 && n <= 246 {
		lines = append(lines, iline{Num: 32767, Elems: []elem{{Kind: "rem", Text: strings.Repeat("X", n)}}})
	}
	p.Lines = lines
	return p
}

// bytes tokenises a line's elements; ok is false if they cannot follow each
// other in a program.
func (l iline) bytes() (b []byte, ok bool) {
	prev := "tok"
	for i, x := range l.Elems {
		switch x.Kind {
		case "tok":
			// 01 ends the line, 28/29 quote, 5D starts a remark.
			if x.Tok >= 0x80 || x.Tok == 1 || x.Tok == 0x28 || x.Tok == 0x29 || x.Tok == 0x5D {
				return nil, false
			}
			b = append(b, x.Tok)
		case "num":
			if prev != "tok" || x.Lead < 0xB0 || x.Lead > 0xB9 {
				return nil, false
			}
			b = append(b, x.Lead, byte(x.Num), byte(x.Num>>8))
		case "var":
			if prev != "tok" || x.Text == "" || x.Text[0] >= '0' && x.Text[0] <= '9' {
				return nil, false
			}
			for _, c := range []byte(x.Text) {
				if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
					return nil, false
				}
				b = append(b, c|0x80)
			}
		case "str", "rem":
			if x.Kind == "str" {
				b = append(b, 0x28)
			} else {
				b = append(b, 0x5D)
			}
			for _, c := range []byte(x.Text) {
				if c >= 0x80 {
					return nil, false
				}
				b = append(b, c|0x80)
			}
			if x.Kind == "str" {
				b = append(b, 0x29)
			} else if i != len(l.Elems)-1 {
				return nil, false
			}
		default:
			return nil, false
		}
		prev = x.Kind
		if prev == "str" {
			prev = "tok"
		}
	}
	return b, len(b) <= 251
}

func drawElems(t *rapid.T) []elem {
	n := rapid.IntRange(0, 8).Draw(t, "n")
	var out []elem
	textChar := rapid.OneOf(rapid.SampledFrom([]rune("0123456789 \"'A1Z9,.")), rapid.RuneFrom(nil, asciiRange))
	str := func(label string, max int) string {
		return rapid.StringOfN(textChar, 0, max, -1).Draw(t, label)
	}
	prev := "tok"
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"tok", "tok", "num", "var", "str"}).Draw(t, "kind")
		if (k == "num" || k == "var") && prev != "tok" {
			k = "tok"
		}
		x := elem{Kind: k}
		switch k {
		case "tok":
			x.Tok = byte(rapid.IntRange(0, 0x7F).Draw(t, "tok"))
			if x.Tok == 1 || x.Tok == 0x28 || x.Tok == 0x29 || x.Tok == 0x5D {
				x.Tok = 0x61
			}
		case "num":
			x.Num = rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 9, 10, 255, 256, 32767, 65535, 0x2928, 0x015D})).Draw(t, "num")
			x.Lead = 0xB0 + byte(fmt.Sprint(x.Num)[0]-'0')
		case "var":
			x.Text = rapid.OneOf(rapid.StringMatching("[A-Z][A-Z0-9]{0,5}"), rapid.StringMatching("[A-Z][A-Z0-9]{0,5}"), rapid.StringMatching("[A-Za-z][A-Za-z0-9]{0,5}")).Draw(t, "var")
		case "str":
			x.Text = str("str", 12)
		}
		out = append(out, x)
		prev = k
		if prev == "str" {
			prev = "tok"
		}
	}
	if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
		// Fill the line up to a size near one of the limits of its length byte.
		size := rapid.SampledFrom([]int{127, 128, 129, 200, 253, 254, 255}).Draw(t, "size")
		kind := rapid.SampledFrom([]string{"str", "rem"}).Draw(t, "fillkind")
		x := elem{Kind: kind}
		b, _ := (iline{Elems: append(out[:len(out):len(out)], x)}).bytes()
		unit := rapid.StringOfN(textChar, 1, 8, -1).Draw(t, "unit")
		if k := size - 4 - len(b); k > 0 {
			x.Text = strings.Repeat(unit, k)[:k]
		}
		return append(out, x)
	}
	if rapid.IntRange(0, 4).Draw(t, "rem") == 0 {
		out = append(out, elem{Kind: "rem", Text: str("remtext", 20)})
	}
	return out
}

func drawIProg(t *rapid.T) iprog {
	p := iprog{Header: rapid.Bool().Draw(t, "header"), Trailer: rapid.Bool().Draw(t, "trailer"), Fill: rapid.Uint64().Draw(t, "fill"),
		Tail: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "tail")}
	n := rapid.IntRange(0, 10).Draw(t, "nlines")
	for i := 0; i < n; i++ {
		p.Lines = append(p.Lines, iline{rapid.OneOf(rapid.IntRange(0, 32767), rapid.SampledFrom([]int{0, 1, 255, 256, 32767, 65535})).Draw(t, "num"), drawElems(t)})
	}
	return p
}

func (p iprog) build() (mem []byte, starts []int, ok bool) {
	for _, l := range p.Lines {
		b, ok := l.bytes()
		if !ok || l.Num < 0 || l.Num > 65535 {
			return nil, nil, false
		}
		starts = append(starts, len(mem))
		mem = append(mem, byte(len(b)+4), byte(l.Num), byte(l.Num>>8))
		mem = append(append(mem, b...), 1)
	}
	if p.Tail > 0 && p.Tail <= 3 {
		mem = append(mem, img.Bytes(p.Fill, p.Tail)...)
	}
	return mem, starts, true
}

func init() {
	fw.Rule("C17", "a case is a generated program of tokens, constants, variables, string literals and remarks, or such a program with one line's length or end marker spoiled. The listing is matched element by element, spaces between elements free, literals exact. Non-trivial: at least one line with an element (or a spoiled line).",
		"constants and variable names are preceded by a token, as in every tokenised program",
		"a headerless program whose first two bytes happen to equal its length minus 2 or 3 is left open",
		"the spacing around keywords is not claimed")
	fw.Draw("C17", "decode", 500000, 6000000, drawIProg, runInteger)
	fw.Draw("C17", "large", 400, 8000, func(t *rapid.T) iprog {
		p := drawIProg(t)
		p.Lines = append(p.Lines, iline{10, drawElems(t)})
		p.Size = rapid.OneOf(rapid.SampledFrom([]int{0xFFFF - p.Tail, 0xFFFF - p.Tail, 0xFFFF - p.Tail - 1, 0x7FFF, 0x8000, 0x8001, 256, 4096, 4097}), rapid.IntRange(0, 0xFFFF-p.Tail)).Draw(t, "size")
		return p
	}, func(e *fw.Env, p iprog) { runInteger(e, p.grow()) })
	type spoiled struct {
		P    iprog
		Line int
		Kind string
		By   int
	}
	fw.Draw("C17", "spoiled", 40000, 800000, func(t *rapid.T) spoiled {
		p := drawIProg(t)
		p.Lines = append(p.Lines, iline{10, drawElems(t)})
		return spoiled{p, rapid.IntRange(0, len(p.Lines)-1).Draw(t, "line"), rapid.SampledFrom([]string{"marker", "length", "cut"}).Draw(t, "kind"), rapid.IntRange(1, 255).Draw(t, "by")}
	}, func(e *fw.Env, c spoiled) {
		c.P.Tail = 0
		mem, starts, ok := c.P.build()
		if !ok || c.Line < 0 || c.Line >= len(starts) || c.By < 1 || c.By > 255 {
			return
		}
		s := starts[c.Line]
		size := int(mem[s])
		switch c.Kind {
		case "marker": // the line does not end in 01
			v := byte(c.By)
			if v == 1 {
				v = 0
			}
			mem[s+size-1] = v
		case "length": // the length runs past the input
			if len(mem)-s >= 255 {
				return
			}
			mem[s] = byte(len(mem) - s + 1 + c.By%(255-(len(mem)-s)))
		case "cut": // the input ends inside the line, past its number
			if size <= 4 {
				return
			}
			mem = mem[:s+4+(c.By%(size-4))]
		default:
			return
		}
		raw, ok := frame(mem, c.P.Header, c.P.Trailer && c.Kind == "marker", c.P.Fill)
		if !ok {
			return
		}
		l, err := integer.Decode(raw)
		e.Check(err != nil, "a program with a bad line (%s) decodes to %d lines", c.Kind, len(l))
		e.Nontrivial()
		e.Label("spoiled %s", c.Kind)
	})
}

func runInteger(e *fw.Env, p iprog) {
	mem, _, ok := p.build()
	if !ok {
		return
	}
	raw, ok := frame(mem, p.Header, p.Trailer && p.Tail < 3, p.Fill)
	if !ok {
		return
	}
	given := append([]byte(nil), raw...)
	got, err := integer.Decode(given)
	e.Check(err == nil, "Decode: %v", err)
	e.Check(bytes.Equal(given, raw), "Decode changed its input")
	e.Check(len(got) == len(p.Lines), "Decode gave %d lines, want %d", len(got), len(p.Lines))
	all := ""
	for i, l := range got {
		w := p.Lines[i]
		b, _ := w.bytes()
		e.Check(l.Num == w.Num, "line %d has number %d, want %d", i, l.Num, w.Num)
		e.Check(bytes.Equal(l.Bytes, b), "line %d has bytes % X, want % X", i, l.Bytes, b)
		s := l.String()
		if why := matchLine(s, w); why != "" {
			e.Failf("line %+v lists as %q: %s", w, s, why)
		}
		all += s + "\n"
		for _, x := range w.Elems {
			e.Nontrivial()
			e.Label("has %s", x.Kind)
			if len(b) > 247 {
				e.Label("line of %d bytes", len(b)+4)
			}
			if x.Kind == "str" && strings.ContainsAny(x.Text, "0123456789") {
				e.Label("string with digits")
			}
		}
	}
	e.Check(got.String() == all, "the listing %q is not its lines %q", got.String(), all)
	e.Check(bytes.Equal(given, raw), "listing changed the program")
}

// matchLine matches the text of a line against its elements.
func matchLine(s string, l iline) string {
	skip := func() { s = strings.TrimLeft(s, " ") }
	take := func(w string) string {
		if !strings.HasPrefix(s, w) {
			return fmt.Sprintf("want %q at %q", w, s)
		}
		s = s[len(w):]
		return ""
	}
	skip()
	if m := take(fmt.Sprint(l.Num)); m != "" {
		return m
	}
	for _, x := range l.Elems {
		skip()
		m := ""
		switch x.Kind {
		case "tok":
			m = take(integerWords[x.Tok])
		case "num":
			m = take(fmt.Sprint(x.Num))
		case "var":
			m = take(x.Text)
		case "str":
			m = take(`"` + x.Text + `"`)
		case "rem":
			if m = take("REM"); m == "" {
				if !strings.HasSuffix(s, x.Text) || strings.Trim(s[:len(s)-len(x.Text)], " ") != "" {
					return fmt.Sprintf("want the remark %q at %q", x.Text, s)
				}
				return ""
			}
		}
		if m != "" {
			return m
		}
	}
	skip()
	if s != "" {
		return fmt.Sprintf("%q left over", s)
	}
	return ""
}
