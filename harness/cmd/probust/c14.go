package main

import (
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

var factories = []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}

// op is one operation on an open image.
type op struct {
	Kind  string // catalog get put delete getall
	Name  string
	Type  byte
	Len   int
	Decl  int // declared length minus actual length
	Start uint16
	Force bool
}

type hostile struct {
	S      spec
	File   string // order the file is in
	Ext    string
	Order  string
	System string
	Ops    []op
}

var names = []string{"", "HELLO", "A", "B", "AAA", "ABC", "01", "DF01", "DF03", "DF04", "DF02", "FD", "FE", "FF", "00", "DF05:ABC", "05:", ":ABC", "DFFE", "A/B", "SUB", "SUB/SUB", "/", "D/D/D", "TOOLONGNAME12", "DF10:TOOLONGNAME12", "05:AB", "::", "\x80", "ÿ", "FHELLO"}

// known lists names that the image's own structures use.
func (s spec) known() []string {
	var out []string
	if s.Dos != nil {
		for _, c := range s.Dos.Cat {
			for _, e := range c.Entries {
				if e.Name != "" {
					out = append(out, e.Name)
				}
			}
		}
	}
	if s.Pro != nil {
		for _, b := range s.Pro.Dir {
			out = append(out, b.Name)
		}
	}
	if s.Nak != nil {
		for _, f := range s.Nak.Disk.Files {
			out = append(out, fmt.Sprintf("DF%02X", f.Num), fmt.Sprintf("%02X:NEW", f.Num))
		}
		for i, y := range s.Nak.Disk.Syms {
			if i < 5 {
				out = append(out, y.Name, "DF77:"+y.Name)
			}
		}
		out = append(out, "DF55", "DF56:NEWSYM")
	}
	return append(out, "HELLO")
}

func drawName(t *rapid.T, s spec) string {
	if rapid.IntRange(0, 2).Draw(t, "known") > 0 {
		return rapid.SampledFrom(s.known()).Draw(t, "kname")
	}
	return rapid.OneOf(rapid.SampledFrom(names), rapid.StringMatching("[ -~]{0,12}"), rapid.StringN(0, 12, -1)).Draw(t, "uname")
}

func drawHostile(t *rapid.T) hostile {
	c := hostile{S: drawSpec(t)}
	c.File = rapid.SampledFrom([]string{"", "", "", "do", "po", "raw"}).Draw(t, "file")
	c.Ext = rapid.SampledFrom([]string{".dsk", ".do", ".po", ".hdv", "", ".PO", ".xyz"}).Draw(t, "ext")
	c.Order = rapid.SampledFrom([]string{"auto", "auto", "do", "po", "raw", "unknown"}).Draw(t, "order")
	c.System = rapid.SampledFrom([]string{"auto", "auto", "dos3", "prodos", "nakedos", "other"}).Draw(t, "system")
	if rapid.IntRange(0, 2).Draw(t, "fit") > 0 {
		switch {
		case c.S.Dos != nil:
			c.System, c.Ext, c.Order = "dos3", ".dsk", rapid.SampledFrom([]string{"auto", "do"}).Draw(t, "o")
		case c.S.Pro != nil:
			c.System, c.Order = "prodos", rapid.SampledFrom([]string{"auto", "po"}).Draw(t, "o")
			c.Ext = ".po"
			if c.S.Pro.Blocks != 280 {
				c.Ext = ".hdv"
			}
		case c.S.Nak != nil:
			c.System, c.Ext, c.Order = "nakedos", ".dsk", rapid.SampledFrom([]string{"auto", "do"}).Draw(t, "o")
		}
		c.File = ""
	}
	if c.S.Pro != nil && c.S.Pro.Blocks != 280 && rapid.IntRange(0, 7).Draw(t, "hdv") > 0 {
		c.Ext = ".hdv"
	}
	n := rapid.IntRange(0, 5).Draw(t, "nops")
	if n > 0 && c.S.Nak != nil {
		n += rapid.IntRange(0, 8).Draw(t, "more")
	}
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, op{
			rapid.SampledFrom([]string{"catalog", "get", "get", "put", "put", "delete", "delete"}).Draw(t, "op"),
			drawName(t, c.S),
			rapid.SampledFrom([]byte{6, 6, 6, 4, 0, 0xFC}).Draw(t, "optype"),
			rapid.OneOf(rapid.IntRange(0, 600), rapid.IntRange(0, 150000)).Draw(t, "oplen"),
			rapid.SampledFrom([]int{0, 0, 0, 1, -1, 100000}).Draw(t, "opdecl"),
			rapid.Uint16().Draw(t, "opstart"),
			rapid.Bool().Draw(t, "opforce"),
		})
	}
	return c
}

// fileBytes is the image as a file in the case's order.
func (c hostile) fileBytes() ([]byte, bool) {
	b, native := c.S.build()
	if b == nil {
		return nil, false
	}
	to := c.File
	if to == "" {
		to = "do"
		if native == "po" {
			to = "po"
		}
	}
	if _, ok := img.L2P[to]; !ok || len(b) != img.Size || native == "" {
		return b, true
	}
	return img.Reorder(b, native, to), true
}

func runHostile(e *fw.Env, c hostile) {
	b, ok := c.fileBytes()
	if !ok {
		return
	}
	o, _, err := disk.OpenImage(b, "image"+c.Ext, types.DiskOrder(c.Order), c.System, factories, 0)
	if err != nil {
		e.Label("not opened")
		return
	}
	e.Check(o != nil, "OpenImage gave neither an operator nor an error")
	e.Label("opened as %s", o.Name())
	e.Nontrivial()
	look := func() {
		listed := []string{}
		paths := []string{""}
		for i := 0; i < len(paths) && i < 100; i++ {
			ds, err := o.Catalog(paths[i])
			if err != nil {
				e.Label("catalog refused")
				continue
			}
			e.Label("catalog listed")
			e.Check(len(ds) <= len(b), "a catalog of %d entries in an image of %d bytes", len(ds), len(b))
			for _, d := range ds {
				if i == 0 {
					listed = append(listed, d.Name, d.Fullname)
				}
				if len(paths) < 100 {
					p := d.Name
					if paths[i] != "" {
						p = paths[i] + "/" + p
					}
					paths = append(paths, p)
				}
			}
		}
		for i, n := range listed {
			if i < 40 {
				if _, err := o.GetFile(n); err == nil {
					e.Label("listed file read")
				} else {
					e.Label("listed file refused")
				}
			}
		}
	}
	look()
	if len(c.Ops) > 50 {
		return
	}
	changed := false
	for _, x := range c.Ops {
		switch x.Kind {
		case "catalog":
			_, _ = o.Catalog(x.Name)
		case "get":
			_, _ = o.GetFile(x.Name)
		case "delete":
			if ok, err := o.Delete(x.Name); ok && err == nil {
				e.Label("deleted")
				changed = true
			}
		case "put":
			if x.Len < 0 || x.Len > 1<<20 {
				continue
			}
			_, err := o.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: x.Name, Fullname: x.Name, Length: x.Len + x.Decl, Type: types.Filetype(x.Type)},
				Data: img.Bytes(7, x.Len), StartAddress: x.Start}, x.Force)
			if err == nil {
				e.Label("put")
				changed = true
			}
		}
	}
	if changed {
		look()
	}
	_ = o.GetBytes()
}

// runDirect calls the readers below the operators.
func runDirect(e *fw.Env, s spec) {
	b, _ := s.build()
	if b == nil {
		return
	}
	if len(b) >= 512 {
		e.Nontrivial()
	}
	for _, f := range factories {
		m := f.SeemsToMatch(append([]byte(nil), b...), 0)
		e.Label("%s matches: %v", f.Name(), m)
		o, err := f.Operator(append([]byte(nil), b...), 0)
		if err == nil {
			_, _ = o.Catalog("")
			_, _ = o.Catalog("SUB")
			_, _ = o.GetFile("HELLO")
			_, _ = o.GetFile("DF05")
		}
	}
	fs, del, err := dos3.ReadCatalog(b, 0)
	if err == nil {
		for i, f := range append(fs, del...) {
			if i < 60 {
				_, _ = f.Contents(b)
				_ = f.FilenameString()
			}
		}
	}
	sm, err := supermon.LoadSectorMap(b)
	if err == nil {
		e.Label("sector map verifies: %v", sm.Verify() == nil)
		_ = sm.FreeSectors()
		_ = sm.FirstFreeFile()
		for f := range sm.SectorsByFile() {
			_, _ = sm.ReadFile(b, f)
		}
		st, err := sm.ReadSymbolTable(b)
		if err == nil {
			e.Label("symbol table read")
			_ = st.SymbolsByAddress()
			for i, name := range []string{"ABC", "AAA", "NEWSYM", "a", ""} {
				_ = st.ByName(name)
				_ = st.DeleteSymbol(name)
				_ = st.AddSymbol(name, uint16(0x101*i))
				_, _ = st.FileForName(name)
			}
			for f := 0; f < 256; f++ {
				_ = supermon.FullnameForFile(byte(f), st)
			}
			_ = sm.WriteSymbolTable(b, st)
		}
	}
}

type cmdCase struct {
	H     hostile
	Cmd   string
	Name  string
	Stdin bool
	Extra bool
	Debug int
}

func runCommand(e *fw.Env, c cmdCase) {
	b, ok := c.H.fileBytes()
	if !ok {
		return
	}
	dir := e.Dir()
	file := "image" + c.H.Ext
	cli.Write(dir, file, b)
	cli.Write(dir, "data", img.Bytes(1, 700))
	var opts []cli.Opt
	if c.Stdin {
		file = "-"
		opts = append(opts, cli.Stdin(b))
	}
	var args []string
	if c.Debug > 0 && c.Debug < 4 {
		args = append(args, fmt.Sprintf("--debug=%d", c.Debug))
	}
	sys := c.H.System
	switch c.Cmd {
	case "ls":
		args = append(args, "ls", "--order="+c.H.Order, "--system="+sys)
		if c.Extra {
			args = append(args, "-s")
		}
		args = append(args, "--", file)
		if c.Name != "" {
			args = append(args, c.Name)
		}
	case "dump":
		args = append(args, "dump", "--order="+c.H.Order, "--", file, c.Name)
	case "rm":
		args = append(args, "rm", "--order="+c.H.Order)
		if c.Extra {
			args = append(args, "-f")
		}
		args = append(args, "--", file, c.Name)
	case "put":
		args = append(args, "put", "--order="+c.H.Order)
		if c.Extra {
			args = append(args, "-f")
		}
		args = append(args, "--", file, c.Name, "data")
	case "mkhello":
		args = append(args, "nakedos", "mkhello", "--order="+c.H.Order, "--", file, c.Name)
	case "reorder":
		args = append(args, "reorder", "--", file, "out.po")
	case "decode":
		args = append(args, "applesoft", "decode", "--", file)
	default:
		return
	}
	r := cli.Run(e, dir, args, opts...)
	e.Check(r.Crash == "", "diskii %q: %s", args, r.Crash)
	if r.Code != 0 {
		r.Refused(e)
	} else {
		e.Nontrivial()
	}
	e.Label("%s exit %d", c.Cmd, r.Code)
}

func init() {
	fw.Rule("C14", "a case is an image - arbitrary bytes of some size, or DOS 3.3, ProDOS or NakedOS structures whose pointers form an arbitrary graph (cycles included) or are out of range, plus byte edits and truncation - with an extension, order and system, and operations on what opens. Non-trivial: it opens (operators), is at least 512 bytes (direct), or the command succeeds.",
		"not terminating means more than 20 s of CPU time, or 3 GB of heap, for one case, which normally takes milliseconds",
		"hard-disk images are at most 2000 blocks, except in the size sub-check")
	fw.Draw("C14", "operators", 40000, 300000, drawHostile, runHostile)
	fw.Draw("C14", "direct", 20000, 300000, drawSpec, runDirect)
	fw.Draw("C14", "command", 4000, 30000, func(t *rapid.T) cmdCase {
		h := drawHostile(t)
		c := cmdCase{H: h, Name: drawName(t, h.S), Stdin: rapid.IntRange(0, 5).Draw(t, "stdin") == 0, Extra: rapid.Bool().Draw(t, "extra"),
			Debug: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "debug")}
		c.Cmd = rapid.SampledFrom([]string{"ls", "ls", "dump", "dump", "rm", "put", "mkhello", "reorder", "decode"}).Draw(t, "cmd")
		if c.H.Order == "raw" || c.H.Order == "unknown" {
			c.H.Order = "auto"
		}
		if c.H.System == "other" {
			c.H.System = "auto"
		}
		if c.Cmd == "ls" && rapid.Bool().Draw(t, "top") {
			c.Name = ""
		}
		for i := range c.Name { // an argument cannot hold a NUL
			if c.Name[i] == 0 {
				c.Name = c.Name[:i]
				break
			}
		}
		return c
	}, runCommand)
	// Sizes around every limit, under every extension, order and system.
	type sized struct {
		Size       int
		Plain      int
		Ext, Order string
		System     string
	}
	fw.Enum("C14", "sizes", func(tier string, yield func(sized) bool) {
		for _, n := range []int{0, 1, 2, 255, 256, 257, 511, 512, 513, 1024, 1535, 1536, 2048, 69632, 69888, 116480, 143104, 143359, 143360, 143361, 143616, 143872, 819200, 33553920, 33554431, 33554432, 33554433, 33554944} {
			for _, plain := range []int{0, 255, -1} {
				if n > 1<<20 && plain > 0 {
					continue
				}
				for _, ext := range []string{".dsk", ".do", ".po", ".hdv", ""} {
					for _, order := range []string{"auto", "do", "po", "raw"} {
						if n > 1<<20 && ext != ".hdv" && order != "auto" {
							continue
						}
						for _, sys := range []string{"auto", "dos3", "prodos", "nakedos"} {
							if !yield(sized{n, plain, ext, order, sys}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(e *fw.Env, c sized) {
		runHostile(e, hostile{S: spec{Size: c.Size, Plain: c.Plain, Fill: 1}, Ext: c.Ext, Order: c.Order, System: c.System,
			Ops: []op{{Kind: "get", Name: "HELLO"}, {Kind: "get", Name: "DF05"}, {Kind: "put", Name: "DF05", Type: 6, Len: 300}, {Kind: "delete", Name: "DF05"}}})
	})
}
