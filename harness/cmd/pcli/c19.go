package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strconv"

	"pgregory.net/rapid"

	"verif/apple2"
	"verif/cli"
	"verif/fw"
	"verif/img"
)

type sdCase struct {
	Len     int
	Addr    int
	Start   int // -1: not given
	Form    [2]int
	Order   string // "" not given
	Name    string
	Exists  bool
	OldSize int
	Stdin   bool
	Eq      bool
	Slot    int
	Seed    uint64
	Zero    bool // a binary of zeros
	NoAddr  bool // leave the address to its default
}

// number writes a number in one of the accepted bases.
func number(v, form int) string {
	switch form {
	case 1:
		return fmt.Sprintf("0x%04X", v)
	case 2:
		return fmt.Sprintf("0x%x", v)
	case 3:
		return fmt.Sprintf("0b%b", v)
	case 4:
		return fmt.Sprintf("0o%o", v)
	case 5:
		return fmt.Sprintf("0X%X", v)
	}
	return strconv.Itoa(v)
}

func drawSD(t *rapid.T) sdCase {
	c := sdCase{Start: -1, Seed: rapid.Uint64().Draw(t, "seed"), Slot: rapid.SampledFrom([]int{6, 6, 1, 2, 3, 4, 5, 7}).Draw(t, "slot"),
		Order: rapid.SampledFrom([]string{"", "", "auto", "do", "po"}).Draw(t, "order"), Eq: rapid.Bool().Draw(t, "eq"),
		OldSize: rapid.SampledFrom([]int{0, 13, img.Size, 200000}).Draw(t, "oldsize"),
		Exists:  rapid.Bool().Draw(t, "exists"), Stdin: rapid.IntRange(0, 7).Draw(t, "stdin") == 0, Zero: rapid.IntRange(0, 15).Draw(t, "zero") == 0}
	if c.Name = "-"; rapid.IntRange(0, 15).Draw(t, "stdout") > 0 {
		c.Name = reorderName(t, "out")
	}
	c.Form = [2]int{rapid.IntRange(0, 5).Draw(t, "form"), rapid.IntRange(0, 5).Draw(t, "form2")}
	c.Len = rapid.OneOf(rapid.SampledFrom([]int{1, 2, 255, 256, 257, 14 * 256, 15 * 256, 15*256 + 1, 16 * 256, 16*256 + 1, 31 * 256, 31*256 + 1, 32*256 + 1, 175 * 256, 175*256 + 1, 176 * 256, 176*256 - 1}),
		rapid.IntRange(1, 5000), rapid.IntRange(1, 176*256), rapid.Custom(func(t *rapid.T) int {
			return 256*rapid.IntRange(1, 176).Draw(t, "p") + rapid.IntRange(-1, 1).Draw(t, "d")
		})).Draw(t, "len")
	pages := (c.Len + 255) / 256
	top := max(9, 0xC0-pages)
	page := rapid.OneOf(rapid.IntRange(9, top), rapid.SampledFrom([]int{9, top, top, min(0x60, top), min(0x10, top)})).Draw(t, "page")
	c.Addr = page * 256
	if c.Addr == 0x6000 {
		c.NoAddr = rapid.Bool().Draw(t, "noaddr")
	}
	if rapid.Bool().Draw(t, "hasstart") {
		c.Start = c.Addr + rapid.OneOf(rapid.IntRange(0, c.Len-1), rapid.SampledFrom([]int{0, c.Len - 1, min(c.Len-1, 255), min(c.Len-1, 256)})).Draw(t, "start")
	}
	// Break one of the rules now and then.
	switch rapid.IntRange(0, 19).Draw(t, "break") {
	case 0:
		c.Addr += rapid.IntRange(1, 255).Draw(t, "unaligned")
	case 1:
		c.Start = c.Addr + c.Len + rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 0x4000)).Draw(t, "past")
	case 2:
		c.Start = c.Addr - rapid.OneOf(rapid.Just(1), rapid.IntRange(1, c.Addr)).Draw(t, "below")
	case 3:
		c.Addr = 256 * rapid.OneOf(rapid.Just(top+1), rapid.IntRange(top+1, 0xFF)).Draw(t, "high")
		c.Start = rapid.SampledFrom([]int{-1, c.Addr}).Draw(t, "highstart")
	case 4:
		c.Len = rapid.OneOf(rapid.Just(176*256+1), rapid.Just(177*256), rapid.IntRange(176*256+1, 150000)).Draw(t, "long")
		c.Addr = rapid.SampledFrom([]int{0x900, 0xA00, c.Addr}).Draw(t, "longaddr")
		c.Start = -1
	case 5:
		c.Len = 0
	case 6:
		c.Addr = rapid.SampledFrom([]int{0x10000, 0x16000, 0x20900, 65536 * 3}).Draw(t, "big")
		c.Start = -1
	}
	return c
}

func runSD(e *fw.Env, c sdCase) {
	if c.Len < 0 || c.Len > 300000 || c.Addr < 0 || c.Slot < 1 || c.Slot > 7 || c.Name == "" || unsafeName(c.Name) || filepath.Clean(c.Name) == "prog" || c.OldSize < 0 || c.OldSize > 1<<20 {
		return
	}
	d := e.Dir()
	data := img.Bytes(c.Seed, c.Len)
	if c.Zero {
		data = make([]byte, c.Len)
	}
	mkdirs(d, c.Name)
	if c.Exists && c.Name != "-" {
		cli.Write(d, c.Name, img.Bytes(c.Seed+2, c.OldSize))
	}
	args := []string{"mksd"}
	flag := func(name, v string) {
		if c.Eq {
			args = append(args, name+"="+v)
		} else {
			args = append(args, name, v)
		}
	}
	if c.Order != "" {
		flag("--order", c.Order)
	}
	if !c.NoAddr {
		flag("--address", number(c.Addr, c.Form[0]))
	} else if c.Addr != 0x6000 {
		return
	}
	start := c.Addr
	if c.Start >= 0 {
		flag("--start", number(c.Start, c.Form[1]))
		if c.Start != 0xFFFF {
			start = c.Start
		}
	}
	var opts []cli.Opt
	prog := "prog"
	if c.Stdin {
		prog = "-"
		opts = append(opts, cli.Stdin(data))
	} else {
		cli.Write(d, "prog", data)
	}
	args = append(args, "--", c.Name, prog)
	pages := (c.Len + 255) / 256
	ok := c.Len >= 1 && pages <= 176 && c.Addr%256 == 0 && c.Addr+c.Len <= 0xC000 && start >= c.Addr && start < c.Addr+c.Len && c.Start <= 0xFFFF
	if ok && c.Addr < 0x900 {
		return // would overwrite the loader: left open
	}
	was := cli.Snapshot(d)
	r := cli.RunV(e, d, args, opts...)
	e.Nontrivial()
	if !ok {
		r.Refused(e)
		cli.Unchanged(e, d, was, args)
		e.Check(len(r.Out) < img.Size, "%q was refused but wrote %d bytes to stdout", args, len(r.Out))
		e.Label("refused")
		return
	}
	r.OK(e)
	image := r.Out
	if c.Name != "-" {
		e.Check(len(r.Out) == 0, "%q printed %d bytes", args, len(r.Out))
		image = cli.Read(e, d, c.Name)
		was[filepath.Clean(c.Name)] = string(image)
	}
	cli.Unchanged(e, d, was, args)
	e.Check(len(image) == img.Size, "%q made an image of %d bytes", args, len(image))
	order := c.Order
	if order == "" || order == "auto" {
		if order = orderOf(c.Name); order == "" {
			order = "do"
		}
	}
	phys := img.Reorder(image, order, "raw")
	cpu, err := apple2.Boot(func(t, s int) []byte { o := (t*16 + s) * 256; return phys[o : o+256] }, c.Slot, img.Bytes(c.Seed+1, 0xC000))
	e.Check(err == nil, "%q: booting the disk from slot %d: %v", args, c.Slot, err)
	e.Check(int(cpu.PC) == start, "%q: the loader jumps to %04X, want %04X", args, cpu.PC, start)
	got := cpu.Mem[c.Addr : c.Addr+c.Len]
	e.Check(bytes.Equal(got, data), "%q: in memory at %04X: %s", args, c.Addr, cli.Diff(data, got))
	e.Label("boots; order %s", order)
	switch {
	case pages == 176:
		e.Label("176 pages")
	case pages > 160:
		e.Label("over 160 pages")
	case pages > 15:
		e.Label("over 15 pages")
	default:
		e.Label("one track")
	}
	if c.Addr+pages*256 == 0xC000 {
		e.Label("ends at C000")
	}
	if start > c.Addr {
		e.Label("start inside")
	}
}

func init() {
	fw.Rule("C19", "a case is a binary, load and start address (in any base), order, output name and state. Accepted disks are booted in a 6502 emulator with a model of the Disk II boot ROM and head stepper, from any slot, with junk in memory; the bytes in memory and the final jump are compared. Others must be refused with no file changed. Every case counts as non-trivial.",
		"load addresses below 0900 are left open (the loader itself runs in page 08)",
		"the boot ROM is modelled by its effects (registers and zero page), not by its code; the head follows phase-on accesses")
	fw.Draw("C19", "boot", 8000, 80000, drawSD, runSD)
	// Every number of pages, at the lowest and the highest address it fits.
	fw.Enum("C19", "pages", func(tier string, yield func(sdCase) bool) {
		step := 3
		if tier == "thorough" {
			step = 1
		}
		for p := 1; p <= 178; p++ {
			if p%step != 0 && p > 18 && p < 174 {
				continue
			}
			for k, order := range []string{"do", "po"} {
				addr := 0x900
				if k == 1 {
					addr = max(9, 0xC0-p) * 256
				}
				if !yield(sdCase{Len: p * 256, Addr: addr, Start: -1, Form: [2]int{1, 1}, Order: order, Name: "out.dsk", Slot: 6, Seed: uint64(p)}) {
					return
				}
			}
		}
	}, runSD)
}
