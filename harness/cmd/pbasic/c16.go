package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type aline struct {
	Num   int
	Bytes []byte // 01-7F characters, 80-EA tokens
	Gap   int    // unused bytes before this line
}

type aprog struct {
	Lines    []aline
	Location int
	Header   bool
	Trailer  bool // one more byte at the end, as DOS has it
	Junk     int  // bytes after the end marker (inside the declared length)
	Perm     uint64
	Shuffle  bool // lines in memory in another order than linked
	Fill     uint64
	Size     int // repeat the lines until the program takes this many bytes; 0: leave it
}

// grow repeats the lines, numbered as they are, up to the size.
func (p aprog) grow() aprog {
	if p.Size <= 0 || p.Size > 0x10000 || len(p.Lines) == 0 {
		return p
	}
	size := 2
	for _, l := range p.Lines {
		size += l.Gap + 5 + len(l.Bytes)
	}
	lines := append([]aline(nil), p.Lines...)
	for i := 0; ; i++ {
		l := p.Lines[i%len(p.Lines)]
		if l.Gap < 0 || size+l.Gap+5+len(l.Bytes) > p.Size {
			break
		}
		size += l.Gap + 5 + len(l.Bytes)
		lines = append(lines, l)
	}
	if n := p.Size - size - 5; n >= 0 && n <= 600 {
		lines = append(lines, aline{Num: 65535, Bytes: bytes.Repeat([]byte{'X'}, n)})
	}
	p.Lines = lines
	return p
}

// build lays the program out in memory. The first line is at the location.
func (p aprog) build() ([]byte, bool) {
	if p.Location < 1 || p.Location > 0xFFFF {
		return nil, false
	}
	order := make([]int, len(p.Lines)+1) // the last is the end marker
	for i := range order {
		order[i] = i
	}
	if p.Shuffle && len(order) > 2 {
		for i, k := range img.Perm(p.Perm, len(order)-1) {
			order[i+1] = k + 1
		}
	}
	fill := img.Rand(p.Fill)
	var mem []byte
	at := make([]int, len(order))
	links := map[int]int{} // offset of link -> line linked to
	for k, i := range order {
		if i == len(p.Lines) {
			at[i] = len(mem)
			mem = append(mem, 0, 0)
			continue
		}
		l := p.Lines[i]
		if l.Gap < 0 || l.Gap > 300 || l.Num < 0 || l.Num > 65535 {
			return nil, false
		}
		if k > 0 {
			for g := 0; g < l.Gap; g++ {
				mem = append(mem, byte(fill.Next()))
			}
		}
		at[i] = len(mem)
		links[len(mem)] = i + 1
		mem = append(mem, 0, 0, byte(l.Num), byte(l.Num>>8))
		for _, c := range l.Bytes {
			if c == 0 || c > 0xEA {
				return nil, false
			}
		}
		mem = append(append(mem, l.Bytes...), 0)
	}
	for g := 0; g < p.Junk && g < 300; g++ {
		mem = append(mem, byte(fill.Next()))
	}
	if p.Location+len(mem) > 0x10000 {
		return nil, false
	}
	for o, i := range links {
		a := p.Location + at[i]
		mem[o], mem[o+1] = byte(a), byte(a>>8)
	}
	return mem, true
}

// frame adds header and trailer. ok is false if a program without header
// would be taken for one with.
func frame(mem []byte, header, trailer bool, fill uint64) ([]byte, bool) {
	if header {
		mem = append([]byte{byte(len(mem)), byte(len(mem) >> 8)}, mem...)
		if trailer {
			mem = append(mem, byte(fill))
		}
		return mem, true
	}
	if len(mem) >= 2 {
		n := int(mem[0]) + 256*int(mem[1])
		if n == len(mem)-2 || n == len(mem)-3 {
			return nil, false
		}
	}
	return mem, true
}

func drawALine(t *rapid.T) aline {
	ch := rapid.OneOf(
		rapid.Custom(func(t *rapid.T) byte { return byte(rapid.IntRange(0x80, 0xEA).Draw(t, "tok")) }),
		rapid.Custom(func(t *rapid.T) byte { return byte(rapid.IntRange(0x20, 0x7E).Draw(t, "chr")) }),
		rapid.Custom(func(t *rapid.T) byte { return byte(rapid.IntRange(1, 0x7F).Draw(t, "any")) }),
	)
	return aline{
		Num:   rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{0, 1, 255, 256, 10, 63999, 65535})).Draw(t, "num"),
		Bytes: rapid.OneOf(rapid.SliceOfN(ch, 0, 12), rapid.SliceOfN(ch, 0, 80), rapid.SliceOfN(ch, 250, 260)).Draw(t, "bytes"),
		Gap:   rapid.SampledFrom([]int{0, 0, 0, 1, 7}).Draw(t, "gap"),
	}
}

func drawAProg(t *rapid.T) aprog {
	p := aprog{
		Lines:    rapid.SliceOfN(rapid.Custom(drawALine), 0, 12).Draw(t, "lines"),
		Location: rapid.OneOf(rapid.SampledFrom([]int{0x801, 0x801, 0x3001, 1, 0x4001, 0xF000}), rapid.IntRange(1, 0xF000)).Draw(t, "loc"),
		Header:   rapid.Bool().Draw(t, "header"),
		Trailer:  rapid.Bool().Draw(t, "trailer"),
		Junk:     rapid.SampledFrom([]int{0, 0, 1, 3, 50}).Draw(t, "junk"),
		Perm:     rapid.Uint64().Draw(t, "perm"),
		Shuffle:  rapid.IntRange(0, 2).Draw(t, "shuffle") == 0,
		Fill:     rapid.Uint64().Draw(t, "fill"),
	}
	return p
}

// alist is the reference listing.
func alist(lines []aline) string {
	var b strings.Builder
	for _, l := range lines {
		fmt.Fprintf(&b, "%d ", l.Num)
		for _, c := range l.Bytes {
			if c < 0x80 {
				b.WriteByte(c)
			} else {
				b.WriteString(" " + applesoftWords[c-0x80] + " ")
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func init() {
	fw.Rule("C16", "a case is a generated program laid out in memory (any line order, gaps, load location, framing) or such a program with one byte that is no token. Non-trivial: at least one line.",
		"a headerless program whose first link happens to equal its length minus 2 or 3 is left open: it cannot be told from one with a header",
		"line numbers, as DOS stores them, are 16-bit")
	fw.Draw("C16", "decode", 200000, 4000000, drawAProg, func(e *fw.Env, p aprog) { runApplesoft(e, p, false) })
	fw.Draw("C16", "command", 1500, 20000, drawAProg, func(e *fw.Env, p aprog) { runApplesoft(e, p, true) })
	fw.Draw("C16", "large", 300, 8000, func(t *rapid.T) aprog {
		p := drawAProg(t)
		p.Lines = rapid.SliceOfN(rapid.Custom(drawALine), 1, 12).Draw(t, "some")
		p.Location = rapid.SampledFrom([]int{1, 0x801, 0x801, 0x801, 0x3001, 0x4001}).Draw(t, "low")
		free := 0x10000 - p.Location - p.Junk
		p.Size = rapid.OneOf(rapid.SampledFrom([]int{free, free, free - 1, free - 2, 0x7FFF, 0x8000, 0x8001, 256, 4096, 4097}), rapid.IntRange(0, free)).Draw(t, "size")
		return p
	}, func(e *fw.Env, p aprog) { runApplesoft(e, p.grow(), p.Fill%16 == 0) })
	type badTok struct {
		P     aprog
		Line  int
		At    int
		Token byte
	}
	fw.Draw("C16", "badtoken", 20000, 300000, func(t *rapid.T) badTok {
		p := drawAProg(t)
		p.Lines = append(p.Lines, drawALine(t))
		return badTok{p, rapid.IntRange(0, len(p.Lines)-1).Draw(t, "line"), rapid.IntRange(0, 260).Draw(t, "at"), byte(rapid.IntRange(0xEB, 0xFF).Draw(t, "token"))}
	}, func(e *fw.Env, c badTok) {
		if c.Token < 0xEB || c.Line < 0 || c.Line >= len(c.P.Lines) || c.At < 0 {
			return
		}
		l := &c.P.Lines[c.Line]
		if len(l.Bytes) == 0 {
			l.Bytes = []byte{'A'}
		}
		at := c.At % len(l.Bytes)
		l.Bytes[at] = 'A'
		mem, ok := c.P.build()
		if !ok {
			return
		}
		// Find the byte again: the line follows its number.
		pos := -1
		a := c.P.Location
		for i := 0; i <= c.Line; i++ {
			pos = a - c.P.Location
			a = int(mem[pos]) + 256*int(mem[pos+1])
		}
		mem[pos+4+at] = c.Token
		raw, ok := frame(mem, c.P.Header, c.P.Trailer, c.P.Fill)
		if !ok {
			return
		}
		if c.P.Perm%16 == 0 {
			dir := e.Dir()
			cli.Write(dir, "prog", raw)
			cli.RunV(e, dir, []string{"applesoft", "decode", "--location", fmt.Sprint(c.P.Location), "prog"}).Refused(e)
			e.Label("command")
		}
		l2, err := applesoft.Decode(raw, uint16(c.P.Location))
		e.Check(err != nil, "a program with the byte %02X, which is no token, decodes to %d lines", c.Token, len(l2))
		e.Nontrivial()
	})
}

func runApplesoft(e *fw.Env, p aprog, command bool) {
	mem, ok := p.build()
	if !ok {
		return
	}
	raw, ok := frame(mem, p.Header, p.Trailer, p.Fill)
	if !ok {
		return
	}
	want := alist(p.Lines)
	e.Label("header %v, trailer %v", p.Header, p.Header && p.Trailer)
	if p.Shuffle {
		e.Label("lines out of order in memory")
	}
	if len(p.Lines) > 0 {
		e.Nontrivial()
	}
	if command {
		dir := e.Dir()
		args := []string{"applesoft", "decode", "--location", fmt.Sprintf([]string{"%d", "0x%x", "0x%X", "0o%o"}[p.Fill%4], p.Location)}
		if p.Location == 0x801 && p.Fill%2 == 0 {
			args = args[:2]
		}
		// How 1B is shown is not documented; C18 asks that it is escaped.
		out := strings.ReplaceAll(chevron(want), "«?»", basic.ChevronControlCodes("\x1b"))
		if p.Perm%2 == 0 {
			args = append(args, "--raw")
			out = want
		}
		var r cli.Result
		if p.Perm%3 == 0 {
			if p.Fill%5 != 0 { // without a name it reads standard input, too
				args = append(args, "-")
			}
			r = cli.RunV(e, dir, args, cli.Stdin(raw)).OK(e)
		} else {
			cli.Write(dir, "prog", raw)
			was := cli.Snapshot(dir)
			r = cli.RunV(e, dir, append(args, "prog")).OK(e)
			cli.Unchanged(e, dir, was, "decode")
		}
		e.Check(string(r.Out) == out, "diskii %q: %s", r.Args, cli.Diff([]byte(out), r.Out))
		return
	}
	given := append([]byte(nil), raw...)
	got, err := applesoft.Decode(given, uint16(p.Location))
	e.Check(err == nil, "Decode: %v", err)
	e.Check(bytes.Equal(given, raw), "Decode changed its input")
	e.Check(len(got) == len(p.Lines), "Decode gave %d lines, want %d", len(got), len(p.Lines))
	for i, l := range got {
		e.Check(l.Num == p.Lines[i].Num, "line %d has number %d, want %d", i, l.Num, p.Lines[i].Num)
		e.Check(bytes.Equal(l.Bytes, p.Lines[i].Bytes), "line %d has bytes % X, want % X", i, l.Bytes, p.Lines[i].Bytes)
		one := alist(p.Lines[i : i+1])
		e.Check(l.String()+"\n" == one, "line %d lists as %q, want %q", i, l.String(), one)
	}
	s := got.String()
	e.Check(s == want, "the listing is %q, want %q", s, want)
}
