package main

import (
	"bytes"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

// The real systems: a well-formed image of each is recognised for what it is,
// and one whose VTOC, sector map or directory chain is illegal is not.

type realCase struct {
	Kind   string // dos33 prodos nakedos nakednost hdv
	Seed   uint64
	Stored string // order of the file
	Ext    string
	Order  string
	System string
	Damage int // 0 none, otherwise which field is made illegal
	Value  byte
	Perm   int // order of registration
}

var realName = map[string]string{"dos33": "dos3", "prodos": "prodos", "hdv": "prodos", "nakedos": "nakedos", "nakednost": "nakedos"}

func init() {
	fw.Draw("C04", "systems", 6000, 80000, func(t *rapid.T) realCase {
		c := realCase{
			Kind:   rapid.SampledFrom([]string{"dos33", "prodos", "nakedos", "nakednost", "hdv"}).Draw(t, "kind"),
			Seed:   rapid.Uint64().Draw(t, "seed"),
			Stored: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "stored"),
			Order:  "auto",
			System: "auto",
		}
		if c.Kind == "hdv" {
			c.Stored = "po"
			c.Ext = rapid.SampledFrom([]string{".hdv", ".HDV"}).Draw(t, "ext")
		} else {
			c.Ext = rapid.SampledFrom([]string{"." + c.Stored, ".dsk", "", ".DSK", ".do", ".po", ".xyz"}).Draw(t, "ext")
		}
		if rapid.Bool().Draw(t, "flag") {
			c.Order = c.Stored
		}
		if rapid.IntRange(0, 2).Draw(t, "named") == 0 {
			c.System = rapid.SampledFrom([]string{"dos3", "nakedos", "prodos"}).Draw(t, "system")
		}
		if rapid.IntRange(0, 2).Draw(t, "dmg") == 0 {
			c.Damage = rapid.IntRange(1, 12).Draw(t, "damage")
			c.Value = rapid.Byte().Draw(t, "value")
		}
		c.Perm = rapid.IntRange(0, 5).Draw(t, "perm")
		return c
	}, runReal)
	fw.Draw("C04", "stdin", 400, 6000, func(t *rapid.T) stdinCase {
		return stdinCase{
			Kind:   rapid.SampledFrom([]string{"dos33", "prodos", "nakedos", "nakednost", "hdv", "noise"}).Draw(t, "kind"),
			Seed:   rapid.Uint64().Draw(t, "seed"),
			Stored: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "stored"),
			Order:  rapid.SampledFrom([]string{"", "", "auto", "do", "po"}).Draw(t, "order"),
			System: rapid.SampledFrom([]string{"", "", "auto", "dos3", "nakedos", "prodos"}).Draw(t, "system"),
		}
	}, runStdin)
}

// An image on standard input is opened as the same image in a file without
// extension is.

type stdinCase struct {
	Kind, Stored, Order, System string
	Seed                        uint64
}

func runStdin(e *fw.Env, c stdinCase) {
	if c.Stored != "do" && c.Stored != "po" {
		return
	}
	var b []byte
	switch {
	case c.Kind == "noise":
		b = img.Bytes(c.Seed, []int{0, 1, 512, 116480, img.Size - 1, img.Size, img.Size + 1}[c.Seed%7])
	case c.Kind == "hdv":
		b = img.SysImage(c.Kind, c.Seed, "po")
	case realName[c.Kind] != "":
		b = img.SysImage(c.Kind, c.Seed, c.Stored)
	default:
		return
	}
	d := e.Dir()
	cli.Write(d, "disk", b)
	was := cli.Snapshot(d)
	both := func(cmd string, withDump bool, rest ...string) cli.Result {
		args := []string{cmd}
		if c.Order != "" {
			args = append(args, "--order", c.Order)
		}
		if c.System != "" && (!withDump || c.System == "auto" || c.System == "dos3") {
			args = append(args, "--system", c.System)
		}
		f := cli.Run(e, d, append(append(append([]string{}, args...), "--", "disk"), rest...))
		in := cli.RunV(e, d, append(append(append([]string{}, args...), "--", "-"), rest...), cli.Stdin(b))
		e.Check(in.Code == f.Code, "diskii %q: exit %d (%.200q) for the image on standard input, %d (%.200q) for the same in a file", in.Args, in.Code, in.Err, f.Code, f.Err)
		e.Check(bytes.Equal(in.Out, f.Out), "diskii %q: output for the image on standard input differs from that for the same in a file: %s", in.Args, cli.Diff(f.Out, in.Out))
		return f
	}
	r := both("ls", false)
	e.Label("%s, opened %v", c.Kind, r.Code == 0)
	if r.Code == 0 && len(r.Out) > 0 {
		e.Nontrivial()
		name := string(bytes.SplitN(r.Out, []byte{'\n'}, 2)[0])
		if len(name) > 5 && name[4] == ':' {
			name = name[:4]
		}
		if name != "" && !bytes.ContainsRune([]byte(name), 0) {
			x := both("dump", true, name)
			e.Label("dump of a %s file %v", c.Kind, x.Code == 0)
		}
	}
	cli.Unchanged(e, d, was, "reading")
}

// damage makes an identifying field of the image (in the system's own order)
// illegal; it reports false if the value drawn is a legal one.
func damage(kind string, b []byte, which int, v byte) bool {
	switch realName[kind] {
	case "dos3":
		f := []struct {
			off int
			ok  []byte
		}{{3, []byte{3}}, {0x27, []byte{122}}, {0x31, []byte{1, 255}}, {0x34, []byte{35}}, {0x35, []byte{13, 16}}, {0x36, []byte{0}}, {0x37, []byte{1}}}[which%7]
		if bytes.IndexByte(f.ok, v) >= 0 {
			return false
		}
		b[(17*16)*256+f.off] = v
	case "prodos":
		// The only thing asked of a volume is that its directories can be read.
		next := len(b)/512 + int(v)
		at := 2*512 + 2
		if which%3 == 0 {
			at = 5*512 + 2 // the last block of the directory
		}
		b[at], b[at+1] = byte(next), byte(next>>8)
	default:
		o := img.NOwner(b)
		if which%2 == 0 && v != 0xFE {
			o[int(v)%12] = v
		} else {
			o[12+int(v)*2] = 0
		}
		img.NSetOwner(b, o)
	}
	return true
}

// lookalike says that the random parts of an image might by accident pass for
// another system, in either order.
func lookalike(file []byte, name string) bool {
	for _, o := range []string{"do", "po"} {
		if v := img.Reorder(file, o, "do")[17*16*256:]; name != "dos3" && v[3] == 3 && v[0x34] == 35 {
			return true
		}
		if v := img.Reorder(file, o, "po")[2*512:]; name != "prodos" && int(v[2])+int(v[3])<<8 < 280 {
			return true
		}
		if v := img.NOwner(img.Reorder(file, o, "raw")); name != "nakedos" && v[0] == 0xFE && v[1] == 0xFE {
			return true
		}
	}
	return false
}

func runReal(e *fw.Env, c realCase) {
	name := realName[c.Kind]
	if name == "" || (c.Stored != "do" && c.Stored != "po") || (c.Kind == "hdv" && c.Stored != "po") {
		return
	}
	own := map[string]string{"dos3": "do", "prodos": "po", "nakedos": "raw"}[name]
	b := img.SysImage(c.Kind, c.Seed, c.Stored)
	hurt := false
	if c.Damage > 0 {
		if c.Kind != "hdv" {
			b = img.Reorder(b, c.Stored, own)
		}
		hurt = damage(c.Kind, b, c.Damage, c.Value)
		if c.Kind != "hdv" {
			b = img.Reorder(b, own, c.Stored)
		}
	}
	if c.Kind != "hdv" && lookalike(b, name) {
		return
	}
	// Only where the order is known: by flag, by extension, or because DOS
	// order is tried first.
	order := c.Order
	if order == "auto" {
		switch c.Ext {
		case ".do", ".po":
			order = c.Ext[1:]
		case ".dsk", ".DSK", "":
			order = "do"
		case ".hdv", ".HDV":
			order = "po"
		default:
			order = "none"
		}
	}
	fixed := c.Order != "auto" || c.Ext == ".do" || c.Ext == ".po"
	facs := []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}
	for i, p := 0, c.Perm; p > 0 && i < 2; i++ {
		j := i + p%(3-i)
		facs[i], facs[j] = facs[j], facs[i]
		p /= 3 - i
	}
	op, ord, err := disk.OpenImage(append([]byte(nil), b...), "name"+c.Ext, types.DiskOrder(c.Order), c.System, facs, 0)
	what := c.Kind + " image stored in " + c.Stored + " order, name" + c.Ext + " --order " + c.Order + " --system " + c.System
	if order == "none" {
		e.Check(err != nil, "%s: opened, but the extension says nothing about the order", what)
		return
	}
	if order != c.Stored {
		return // a wrong order may or may not look like a disk
	}
	match := !hurt && (c.System == "auto" || c.System == name)
	if c.Kind == "hdv" {
		// A device is opened without looking at it.
		match = c.System == "auto" || c.System == "prodos"
		e.Check((err == nil) == match, "%s: %v", what, err)
	} else if c.System != "auto" && fixed {
		// Opened without guessing, whatever is on it; only NakedOS looks.
		if c.System != "nakedos" {
			e.Check(err == nil && op.Name() == c.System && string(ord) == order, "%s: not opened as what was asked for: %v", what, err)
		} else {
			e.Check((err == nil) == match, "%s (damaged %v): %v", what, hurt, err)
		}
	} else {
		if !match {
			// In another order (dsk tries both) it can be taken for anything only by accident.
			e.Check(err != nil || string(ord) != order, "%s (damaged %v): opened as %v", what, hurt, opName(op))
		} else {
			e.Check(err == nil, "%s: %v", what, err)
			e.Check(op.Name() == name && string(ord) == order, "%s: opened as %s in %s order", what, op.Name(), ord)
		}
	}
	if err == nil && string(ord) == order {
		want := b
		if c.Kind != "hdv" {
			want = img.Reorder(b, order, map[string]string{"dos3": "do", "prodos": "po", "nakedos": "raw"}[op.Name()])
		}
		e.Check(bytes.Equal(want, op.GetBytes()), "%s: the operator sees other bytes: %s", what, cli.Diff(want, op.GetBytes()))
	}
	e.Nontrivial()
	e.Label("%s, damaged %v, opened %v", name, hurt, err == nil)
}

func opName(o types.Operator) string {
	if o == nil {
		return "nothing"
	}
	return o.Name()
}
