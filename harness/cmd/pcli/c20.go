package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
	"verif/ngen"
)

type helloCase struct {
	Guess  bool // ProDOS order under a name that does not tell
	Disk   img.NDisk
	Hello  int  // symbol FHELLO: 0 as drawn, else at this address
	Fill   bool // no free sector
	Full   bool // a full symbol table
	Order  string
	Ext    int
	Flag   bool // give --order
	Stdin  bool
	Names  []string
	Name   nname
	Raw    string // used instead of Name if not empty
	Addr   int
	Start  int // -1 not given
	Form   [2]int
	NoAddr bool
	Eq     bool
	Sys    string // "": NakedOS; else another kind of image
}

// imageName picks a file name for an image of the order; flag says whether
// --order must be given.
func imageName(order string, k int, flag bool) string {
	auto := map[string][]string{"do": {"d.dsk", "d.do", "d", "d.DSK", "d.x.Do", "s.po/d.do", "s.po/d"}, "po": {"d.po", "d.PO", "d.do.Po", "s.do/d.po"}}[order]
	if auto == nil {
		auto = []string{"d"}
	}
	if flag {
		auto = []string{"d.dsk", "d.do", "d.po", "d", "d.img", "d.hdv.d", "d.PO", "d.hdv", "s.po/d.undo", "s.dsk/d.tempo"}
	}
	if k < 0 {
		k = 0
	}
	return auto[k%len(auto)]
}

func drawName(t *rapid.T, nnames int) nname {
	return nname{Form: rapid.IntRange(0, 5).Draw(t, "form"), Num: ngen.Num(t), Sym: rapid.IntRange(0, nnames-1).Draw(t, "sym"), Case: rapid.IntRange(0, 2).Draw(t, "case")}
}

func drawHello(t *rapid.T) helloCase {
	c := helloCase{Names: ngen.Names(t), Order: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "order"), Ext: rapid.IntRange(0, 13).Draw(t, "ext"),
		Flag: rapid.Bool().Draw(t, "flag"), Guess: rapid.IntRange(0, 2).Draw(t, "guess") == 0, Stdin: rapid.IntRange(0, 7).Draw(t, "stdin") == 0, Start: -1, Eq: rapid.Bool().Draw(t, "eq"),
		Form: [2]int{rapid.IntRange(0, 5).Draw(t, "f1"), rapid.IntRange(0, 5).Draw(t, "f2")}}
	c.Disk = ngen.Disk(t, rapid.IntRange(0, 9).Draw(t, "st") > 0, c.Names)
	for i, n := range c.Names { // make most names name a file
		if rapid.IntRange(0, 2).Draw(t, "named") > 0 {
			c.Disk.Syms = append([]img.NSym{{Name: n, Addr: 0xDF00 + uint16(ngen.Num(t))}}, c.Disk.Syms...)
		}
		_ = i
	}
	c.Hello = rapid.SampledFrom([]int{0, 0, 0xDF01, 0xDF07, 0x1234, 0xDFFD}).Draw(t, "hello")
	c.Fill = rapid.IntRange(0, 11).Draw(t, "fill") == 0
	c.Full = rapid.IntRange(0, 11).Draw(t, "full") == 0
	c.Name = drawName(t, len(c.Names))
	if rapid.IntRange(0, 9).Draw(t, "raw") == 0 {
		c.Raw = rapid.SampledFrom([]string{"NOSUCH", "FHELLO", "00", "DF00", "FE", "FF", "DFFE", "DFFF", "A:B:C", "05:", ":FOO", "GG:FOO", "FOO:05", "05:06", "FOO:FOO", "no such"}).Draw(t, "rawname")
	}
	c.Addr = 256 * rapid.OneOf(rapid.IntRange(0, 0xFF), rapid.SampledFrom([]int{0x08, 0x60, 0xFF, 0x00})).Draw(t, "page")
	if c.Addr == 0x6000 {
		c.NoAddr = rapid.Bool().Draw(t, "noaddr")
	}
	if rapid.Bool().Draw(t, "hasstart") {
		c.Start = rapid.OneOf(rapid.IntRange(c.Addr, 0xFFFF), rapid.SampledFrom([]int{c.Addr, 0xFFFF, 0xFFFE, min(0xFFFF, c.Addr+1)})).Draw(t, "start")
	}
	switch rapid.IntRange(0, 11).Draw(t, "break") {
	case 0:
		c.Addr += rapid.IntRange(1, 255).Draw(t, "unaligned")
	case 1:
		c.Start = rapid.OneOf(rapid.IntRange(0, c.Addr), rapid.Just(max(0, c.Addr-1))).Draw(t, "below")
	case 2:
		c.Addr = rapid.SampledFrom([]int{0x10000, 0x16000, 0x20000}).Draw(t, "big")
	case 3:
		c.Sys = rapid.SampledFrom([]string{"dos33", "prodos", "junk", "zero", "wrongsize"}).Draw(t, "sys")
	}
	return c
}

func runHello(e *fw.Env, c helloCase) {
	if c.Order != "do" && c.Order != "po" || c.Addr < 0 || c.Addr > 0xFFFFF || c.Start > 0xFFFFF {
		return
	}
	d := c.Disk
	if c.Hello > 0 && c.Hello < 0x10000 {
		d.Syms = append([]img.NSym{{Name: "FHELLO", Addr: uint16(c.Hello)}}, d.Syms...)
	}
	if c.Full {
		for i := 0; len(d.Symbols()) < 819 && i < 2000; i++ {
			d.Syms = append(d.Syms, img.NSym{Name: fmt.Sprintf("X%c%c%d", 'A'+i%26, 'A'+i/26%26, i%10), Addr: uint16(0x2000 + i)})
		}
	}
	if c.Fill {
		d.Files = append(d.Files, img.NFile{Num: 0x77, Sectors: 560})
	}
	phys := d.Build()
	was := readNOS(phys)
	if !was.usable() || was.st != d.ST {
		return
	}
	switch c.Sys {
	case "", "dos33", "prodos", "junk", "zero", "wrongsize":
	default:
		return
	}
	full, num, sym := c.Name.parts(c.Names)
	if c.Raw != "" {
		full = c.Raw
		num, sym = 0, strings.ToUpper(full)
		if ngen.NumLike(full) || strings.HasSuffix(full, ":") {
			return
		}
	} else if sym != "" && (ngen.NumLike(sym) || !img.NValidName(sym)) {
		return
	}
	target := num
	if num == 0 {
		target = was.symFile(sym)
	}
	if full == "" || target > 0xFD {
		return
	}
	image := img.Reorder(phys, "raw", c.Order)
	sysOK := c.Sys == ""
	if !sysOK {
		image = sysImage(c.Sys, c.Disk.Seed, c.Order)
	}
	name := imageName(c.Order, c.Ext, c.Flag || c.Stdin)
	guess := c.Guess && sysOK && !c.Flag && c.Order == "po" && c.Ext >= 0 && guessed(image)
	if guess {
		name = []string{"d.dsk", "d", "d.DSK", "s.po/d.dsk"}[c.Ext%4]
		e.Label("guessed order")
	}
	start := c.Start
	if start < 0 || start == 0xFFFF {
		start = c.Addr
	}
	why := was.why(1, "FHELLO", 16, true)
	ok := sysOK && why == "" && target != 0 && c.Addr%256 == 0 && start >= c.Addr && c.Addr < 0x10000 && start < 0x10000

	dir := e.Dir()
	args := []string{"nakedos", "mkhello"}
	flag := func(name, v string) {
		if c.Eq {
			args = append(args, name+"="+v)
		} else {
			args = append(args, name, v)
		}
	}
	if c.Flag || c.Stdin && c.Order == "po" && !guess {
		flag("--order", c.Order)
	}
	if !c.NoAddr {
		flag("--address", number(c.Addr, c.Form[0]))
	} else if c.Addr != 0x6000 {
		return
	}
	if c.Start >= 0 {
		flag("--start", number(c.Start, c.Form[1]))
	}
	if c.Stdin {
		name = "-"
	} else {
		cli.Write(dir, name, image)
	}
	snap := cli.Snapshot(dir)
	args = append(args, "--", name, full)
	var opts []cli.Opt
	if c.Stdin {
		opts = append(opts, cli.Stdin(image))
	}
	r := cli.RunV(e, dir, args, opts...)
	what := fmt.Sprintf("%q", args)
	if !ok {
		r.Refused(e)
		cli.Unchanged(e, dir, snap, what)
		e.Check(len(r.Out) < img.Size, "%s was refused but wrote %d bytes to stdout", what, len(r.Out))
		switch {
		case !sysOK:
			e.Label("refused: not NakedOS")
		case why != "":
			e.Label("refused: %s", why)
		case target == 0:
			e.Label("refused: unknown name")
		default:
			e.Label("refused: address")
		}
		e.Nontrivial()
		return
	}
	r.OK(e)
	out := r.Out
	if !c.Stdin {
		out = cli.Read(e, dir, name)
		snap[name] = string(out)
	}
	cli.Unchanged(e, dir, snap, what)
	e.Check(len(out) == img.Size, "%s left an image of %d bytes", what, len(out))
	want := was.copy()
	prog := []byte{0x20, 0x40, 0x03, 0x6D, 0x01, 0xDC, 0x2C, target, 0xDF, 0x2C, 0, byte(c.Addr >> 8), 0xD8, 0x4C, byte(start), byte(start >> 8)}
	want.files[1] = ngen.Pad(prog)
	want.syms["FHELLO"] = 0xDF01
	want.same(e, what, img.Reorder(out, c.Order, "raw"))
	e.Label("written, order %s, form %d", c.Order, c.Name.Form)
	if len(was.files[1]) > 256 {
		e.Label("replaced a longer DF01")
	}
	if a := was.syms["FHELLO"]; a != 0 && a != 0xDF01 {
		e.Label("moved FHELLO")
	}
	e.Nontrivial()
}

func init() {
	fw.Rule("C20", "a case is a generated NakedOS disk (fragmented, full, table full or missing) in either order, a file name in any form, and addresses; the image file afterwards is decoded by independent code and compared with the model, file by file and symbol by symbol. Refusals must leave every file as it was. Non-trivial: every case that ran the command.",
		"the program is compared with its documented 16 bytes, zero-padded to a sector",
		"symbols that look like file numbers are not generated")
	fw.Draw("C20", "mkhello", 4000, 60000, drawHello, runHello)
}
