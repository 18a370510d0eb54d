package main

import (
	"bytes"
	"fmt"

	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

// ---- DOS 3.3

type dosFile struct {
	Type byte // 0 1 2 4
	Len  int
}

type dosDamage struct {
	Seed  uint64
	Chain int // catalog sectors
	Files []dosFile
	Kind  string // catalog-loop catalog-out vtoc list-loop list-out data-out none
	At    int    // which file, or which catalog sector
	I, J  int    // where in it
	Bad   img.TS // a sector outside the disk
	Value byte
}

func outside(t *rapid.T) img.TS {
	if rapid.Bool().Draw(t, "track") {
		return img.TS{T: rapid.OneOf(rapid.ByteRange(35, 254), rapid.SampledFrom([]byte{35, 36, 128, 254})).Draw(t, "t"), S: rapid.ByteRange(0, 15).Draw(t, "s")}
	}
	return img.TS{T: rapid.ByteRange(1, 34).Draw(t, "t"), S: rapid.OneOf(rapid.ByteRange(16, 255), rapid.SampledFrom([]byte{16, 17, 32, 128, 255})).Draw(t, "s")}
}

func drawDos(t *rapid.T) dosDamage {
	c := dosDamage{Seed: rapid.Uint64().Draw(t, "seed"), Chain: rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 40)).Draw(t, "chain")}
	n := rapid.IntRange(0, 6).Draw(t, "files")
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, dosFile{Type: rapid.SampledFrom([]byte{0, 1, 2, 4}).Draw(t, "type"),
			Len: rapid.OneOf(rapid.IntRange(1, 2000), rapid.IntRange(1, 2000), rapid.IntRange(30000, 65000)).Draw(t, "len")})
	}
	c.Kind = rapid.SampledFrom([]string{"catalog-loop", "catalog-out", "vtoc", "list-loop", "list-out", "data-out", "list-loop", "list-out", "data-out", "none"}).Draw(t, "kind")
	c.At = rapid.IntRange(0, 50).Draw(t, "at")
	c.I = rapid.IntRange(0, 600).Draw(t, "i")
	c.J = rapid.IntRange(0, 600).Draw(t, "j")
	c.Bad = outside(t)
	c.Value = rapid.Byte().Draw(t, "value")
	return c
}

// builtDos is a disk with one thing wrong.
type builtDos struct {
	image   []byte
	names   []string
	data    [][]byte
	catalog bool // the catalog is damaged
	file    int  // the damaged file, or -1
}

// vtocFields are the bytes of a VTOC with a fixed legal value.
var vtocFields = []struct {
	off  int
	okay func(b byte) bool
}{
	{0x03, func(b byte) bool { return b == 3 }},
	{0x06, func(b byte) bool { return b != 255 }},
	{0x27, func(b byte) bool { return b == 122 }},
	{0x31, func(b byte) bool { return b == 1 || b == 255 }},
	{0x34, func(b byte) bool { return b == 35 }},
	{0x35, func(b byte) bool { return b == 16 || b == 13 }},
	{0x36, func(b byte) bool { return b == 0 }},
	{0x37, func(b byte) bool { return b == 1 }},
}

func buildDos(c dosDamage) *builtDos {
	if c.Chain < 1 || c.Chain > 60 || len(c.Files) > c.Chain*7 || c.At < 0 || c.I < 0 || c.J < 0 {
		return nil
	}
	b := &builtDos{image: img.Bytes(c.Seed, img.Size), file: -1}
	vt := img.TS{T: 17, S: 0}
	ex := map[img.TS]bool{vt: true}
	a := img.NewDosAlloc(c.Seed, true, ex)
	var chain []img.TS
	for i := 0; i < c.Chain; i++ {
		chain = append(chain, a.Get())
	}
	slots := make([][]*img.DosEntry, c.Chain)
	var lists []img.TS
	for k, f := range c.Files {
		if f.Len < 1 || f.Len > 65535 {
			return nil
		}
		want := img.Bytes(c.Seed+uint64(k)+1, f.Len)
		var raw []byte
		switch f.Type {
		case 0:
			for i := range want {
				want[i] |= 0x80
			}
			raw = want
		case 1, 2:
			raw = append([]byte{byte(f.Len), byte(f.Len >> 8)}, want...)
		case 4:
			raw = append([]byte{0, 8, byte(f.Len), byte(f.Len >> 8)}, want...)
		default:
			return nil
		}
		if a.Left() < img.DosNeed(raw) {
			return nil
		}
		list, _ := img.PutDosFile(b.image, a, raw, make([]byte, 256), nil)
		name := fmt.Sprintf("FILE %d", k)
		b.names = append(b.names, name)
		b.data = append(b.data, want)
		lists = append(lists, list)
		row := k * c.Chain / max(len(c.Files), 1)
		if len(c.Files) > c.Chain {
			row = k / 7
		}
		slots[row] = append(slots[row], &img.DosEntry{Kind: "active", Name: []byte(name), Type: f.Type, Count: uint16(img.DosNeed(raw)), List: list})
	}
	img.DosCatalog(b.image, chain, slots)
	img.DosVTOC(b.image, chain[0], 254, 1)
	vtoc := b.image[vt.Off():]
	bad := c.Bad
	if bad.T < 35 && bad.S < 16 {
		bad.T = 35
	}
	at := c.At % c.Chain
	switch c.Kind {
	case "none":
	case "catalog-loop":
		to := chain[c.I%(at+1)]
		copy(b.image[chain[at].Off()+1:], []byte{to.T, to.S})
		b.catalog = true
	case "catalog-out":
		if c.I%(c.Chain+1) == 0 {
			vtoc[1], vtoc[2] = bad.T, bad.S
		} else {
			copy(b.image[chain[at].Off()+1:], []byte{bad.T, bad.S})
		}
		b.catalog = true
	case "vtoc":
		f := vtocFields[c.At%len(vtocFields)]
		v := c.Value
		if f.off == 0x06 {
			v = 255
		}
		if f.okay(v) {
			return nil
		}
		vtoc[f.off] = v
		b.catalog = true
	case "list-loop", "list-out", "data-out":
		if len(c.Files) == 0 {
			return nil
		}
		k := c.At % len(c.Files)
		b.file = k
		var own []img.TS
		for ts := lists[k]; ts != (img.TS{}); {
			own = append(own, ts)
			ts = img.TS{T: b.image[ts.Off()+1], S: b.image[ts.Off()+2]}
		}
		l := c.I % len(own)
		switch c.Kind {
		case "list-loop":
			to := own[c.J%(l+1)]
			copy(b.image[own[l].Off()+1:], []byte{to.T, to.S})
		case "list-out":
			if c.J%3 == 0 && bad.T != 0 {
				for r := range slots {
					for _, s := range slots[r] {
						if string(s.Name) == b.names[k] {
							s.List = bad
						}
					}
				}
				img.DosCatalog(b.image, chain, slots)
			} else {
				copy(b.image[own[l].Off()+1:], []byte{bad.T, bad.S})
			}
		case "data-out":
			hdr := map[byte]int{0: 0, 1: 2, 2: 2, 4: 4}[c.Files[k].Type]
			n := (c.Files[k].Len + hdr + 255) / 256
			s := c.J % n
			copy(b.image[own[s/122].Off()+12+2*(s%122):], []byte{bad.T, bad.S})
		}
	default:
		return nil
	}
	return b
}

// ---- ProDOS

type proDir struct {
	Blocks int // in its chain
	Subs   []proDir
}

type proDamage struct {
	Seed   uint64
	Blocks int
	Root   proDir
	Kind   string // loop out key none
	At     int
	I, J   int
	Beyond int
}

func drawProDir(t *rapid.T, depth int) proDir {
	d := proDir{Blocks: rapid.IntRange(1, 5).Draw(t, "blocks")}
	if depth > 0 {
		n := rapid.IntRange(0, 3).Draw(t, "subs")
		for i := 0; i < n; i++ {
			d.Subs = append(d.Subs, drawProDir(t, depth-1))
		}
	}
	return d
}

func drawPro(t *rapid.T) proDamage {
	return proDamage{Seed: rapid.Uint64().Draw(t, "seed"), Blocks: rapid.OneOf(rapid.Just(280), rapid.IntRange(250, 1600)).Draw(t, "blocks"), Root: drawProDir(t, 3),
		Kind: rapid.SampledFrom([]string{"loop", "out", "key", "loop", "out", "key", "none"}).Draw(t, "kind"),
		At:   rapid.IntRange(0, 40).Draw(t, "at"), I: rapid.IntRange(0, 10).Draw(t, "i"), J: rapid.IntRange(0, 10).Draw(t, "j"),
		Beyond: rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 63000)).Draw(t, "beyond")}
}

type builtPro struct {
	image []byte
	order []string
	want  map[string][]string
	bad   string // path of the damaged directory
	hurt  bool
}

func buildPro(c proDamage) *builtPro {
	if c.Blocks < 250 || c.Blocks > 2000 || c.At < 0 || c.I < 0 || c.J < 0 || c.Beyond < 0 || c.Beyond > 63000 {
		return nil
	}
	b := &builtPro{image: img.Bytes(c.Seed, c.Blocks*512), want: map[string][]string{}}
	perm := img.Perm(c.Seed, c.Blocks-7)
	take := func() uint16 {
		if len(perm) == 0 {
			return 0
		}
		x := perm[0]
		perm = perm[1:]
		return uint16(7 + x)
	}
	dirs := map[string]*img.PDir{}
	entry := map[string]*img.PEntry{}
	ok := true
	var place func(d proDir, name, path string, parent *img.PDir, slot int) *img.PDir
	place = func(d proDir, name, path string, parent *img.PDir, slot int) *img.PDir {
		if d.Blocks < 1 || d.Blocks > 8 || len(d.Subs) > 10 {
			ok = false
			return &img.PDir{Chain: []uint16{2}}
		}
		pd := &img.PDir{Name: name, Parent: parent, PSlot: slot, Fill: c.Seed}
		for i := 0; i < d.Blocks; i++ {
			if i == 0 && parent == nil {
				pd.Chain = append(pd.Chain, 2)
				continue
			}
			x := take()
			ok = ok && x != 0
			pd.Chain = append(pd.Chain, x)
		}
		dirs[path] = pd
		b.order = append(b.order, path)
		n := min(img.Capacity(d.Blocks), 13*(d.Blocks-1)+1+len(d.Subs))
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("N%d", i)
			pe := &img.PEntry{Name: nm, Type: 4, Storage: 1, Key: 9, Blocks: 1, EOF: uint32(i), Fill: c.Seed}
			if k := n - 1 - i; k < len(d.Subs) {
				full := nm
				if path != "" {
					full = path + "/" + nm
				}
				pe.Storage, pe.Type, pe.Dir = 0xD, 0x0F, place(d.Subs[k], nm, full, pd, i)
				pe.Key = pe.Dir.Chain[0]
				entry[full] = pe
			}
			b.want[path] = append(b.want[path], nm)
			pd.Slots = append(pd.Slots, pe)
		}
		return pd
	}
	place(c.Root, "VOL", "", nil, 0)
	if !ok || len(b.order) > 60 {
		return nil
	}
	beyond := uint16(c.Blocks + c.Beyond%(65536-c.Blocks))
	b.bad = b.order[c.At%len(b.order)]
	b.hurt = c.Kind != "none"
	if c.Kind == "key" {
		if b.bad == "" {
			return nil
		}
		entry[b.bad].Key = beyond
	}
	for _, p := range b.order {
		img.WriteDir(b.image, dirs[p], c.Blocks, 6)
	}
	ch := dirs[b.bad].Chain
	at := c.I % len(ch)
	next := b.image[int(ch[at])*512+2:]
	switch c.Kind {
	case "none", "key":
	case "loop":
		to := ch[c.J%(at+1)]
		next[0], next[1] = byte(to), byte(to>>8)
	case "out":
		next[0], next[1] = byte(beyond), byte(beyond>>8)
	default:
		return nil
	}
	return b
}

// ---- Applesoft

type basDamage struct {
	Seed     uint64
	Location int
	Lines    []int  // bytes per line
	Kind     string // loop before beyond cut none
	At, J    int
}

func drawBas(t *rapid.T) basDamage {
	return basDamage{Seed: rapid.Uint64().Draw(t, "seed"), Location: rapid.OneOf(rapid.Just(0x801), rapid.IntRange(1, 0xF000)).Draw(t, "location"),
		Lines: rapid.SliceOfN(rapid.IntRange(0, 40), 1, 12).Draw(t, "lines"),
		Kind:  rapid.SampledFrom([]string{"loop", "before", "beyond", "cut", "cut", "none"}).Draw(t, "kind"),
		At:    rapid.IntRange(0, 600).Draw(t, "at"), J: rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 65535)).Draw(t, "j")}
}

func buildBas(c basDamage) ([]byte, bool) {
	if c.Location < 1 || c.Location > 0xF000 || len(c.Lines) == 0 || len(c.Lines) > 50 || c.At < 0 || c.J < 0 {
		return nil, false
	}
	var mem []byte
	var at []int
	r := img.Rand(c.Seed)
	for i, n := range c.Lines {
		if n < 0 || n > 200 {
			return nil, false
		}
		at = append(at, len(mem))
		next := c.Location + len(mem) + 5 + n
		mem = append(mem, byte(next), byte(next>>8), byte(i*10), byte(i*10>>8))
		for k := 0; k < n; k++ {
			mem = append(mem, 1+byte(r.Next()%0xEA))
		}
		mem = append(mem, 0)
	}
	mem = append(mem, 0, 0)
	k := c.At % len(at)
	set := func(a int) bool {
		if a <= 0 || a > 65535 {
			return false
		}
		mem[at[k]], mem[at[k]+1] = byte(a), byte(a>>8)
		return true
	}
	okay := true
	switch c.Kind {
	case "none":
	case "loop":
		okay = set(c.Location + at[c.J%(k+1)])
	case "before":
		okay = c.Location > 1 && set(c.Location-1-c.J%(c.Location-1))
	case "beyond":
		end := c.Location + len(mem) - 1
		okay = end < 65535 && set(end+c.J%(65536-end))
	case "cut":
		mem = mem[:c.At%len(mem)]
	default:
		return nil, false
	}
	if okay && len(mem) >= 2 {
		// Not to be taken for a length header.
		size := int(mem[0]) + 256*int(mem[1])
		okay = size != len(mem)-2 && size != len(mem)-3
	}
	return mem, okay
}

func init() {
	fw.Rule("C25", "Drawn: well-formed DOS 3.3 disks, ProDOS volumes and Applesoft programs with one pointer or fixed field made wrong: a catalog or directory chain that loops or leaves the disk, a VTOC with an illegal field, a track/sector list chain that loops or leaves the disk, a data sector outside the disk, a subdirectory whose key block is outside the device, a program whose line links loop or leave it or that is cut short. Oracle: what the damage was applied to must give an error, everything else an error or exactly the right result (other DOS files: exactly their bytes). Non-trivial: a damaged case; distinct by case.",
		"Cross links (a chain that runs into another directory or file) are left open.")
	fw.Draw("C25", "dos3", 8000, 120000, drawDos, func(e *fw.Env, c dosDamage) {
		b := buildDos(c)
		if b == nil {
			return
		}
		op, err := dos3.OperatorFactory{}.Operator(b.image, 0)
		if err == nil {
			ds, err := op.Catalog("")
			e.Check((err != nil) == b.catalog, "%s: Catalog gives %d files and err=%v", c.Kind, len(ds), err)
			if err == nil {
				e.Check(len(ds) == len(b.names), "%s: Catalog gives %d files, want %d", c.Kind, len(ds), len(b.names))
			}
			_, _, err = dos3.ReadCatalog(b.image, 0)
			e.Check((err != nil) == b.catalog, "%s: ReadCatalog: err=%v", c.Kind, err)
			for i, n := range b.names {
				fi, err := op.GetFile(n)
				switch {
				case i == b.file:
					e.Check(err != nil, "%s: GetFile of the damaged file gives %d bytes and no error", c.Kind, len(fi.Data))
				case err == nil || !b.catalog:
					e.Check(err == nil && bytes.Equal(fi.Data, b.data[i]), "%s: GetFile of %q, which is not damaged: err=%v: %s", c.Kind, n, err, cli.Diff(b.data[i], fi.Data))
				}
			}
		} else {
			e.Check(b.catalog, "%s: cannot open: %v", c.Kind, err)
		}
		if c.Kind != "none" {
			e.Nontrivial()
		}
		e.Label("dos3 %s", c.Kind)
	})
	fw.Draw("C25", "prodos", 8000, 120000, drawPro, func(e *fw.Env, c proDamage) {
		b := buildPro(c)
		if b == nil {
			return
		}
		op, err := prodos.OperatorFactory{}.Operator(b.image, 0)
		if err == nil {
			for _, p := range b.order {
				ds, err := op.Catalog(p)
				if b.hurt && p == b.bad {
					e.Check(err != nil, "%s of directory %q: Catalog gives %d entries and no error", c.Kind, p, len(ds))
					continue
				}
				e.Check(b.hurt || err == nil, "Catalog(%q) of a sound volume: %v", p, err)
				if err == nil {
					checkNames(e, ds, b.want[p], fmt.Sprintf("%s of directory %q: Catalog(%q)", c.Kind, b.bad, p))
				}
			}
		} else {
			e.Check(b.hurt, "cannot open: %v", err)
		}
		if b.hurt {
			e.Nontrivial()
		}
		e.Label("prodos %s", c.Kind)
	})
	fw.Draw("C25", "applesoft", 20000, 300000, drawBas, func(e *fw.Env, c basDamage) {
		mem, ok := buildBas(c)
		if !ok {
			return
		}
		l, err := applesoft.Decode(mem, uint16(c.Location))
		e.Check((err != nil) == (c.Kind != "none"), "%s: Decode of % X at %04X gives %d lines and err=%v", c.Kind, mem, c.Location, len(l), err)
		if c.Kind != "none" {
			e.Nontrivial()
		}
		e.Label("applesoft %s", c.Kind)
	})
	fw.Draw("C25", "command", 1200, 15000, func(t *rapid.T) cmdDamage {
		c := cmdDamage{What: rapid.SampledFrom([]string{"dos3", "prodos", "applesoft"}).Draw(t, "what"), Order: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "order")}
		switch c.What {
		case "dos3":
			d := drawDos(t)
			c.Dos = &d
		case "prodos":
			d := drawPro(t)
			c.Pro = &d
		default:
			d := drawBas(t)
			c.Bas = &d
		}
		return c
	}, runCommand)
}

func checkNames(e *fw.Env, ds []types.Descriptor, want []string, what string) {
	e.Check(len(ds) == len(want), "%s lists %d entries, want %d", what, len(ds), len(want))
	for i := range ds {
		e.Check(ds[i].Name == want[i], "%s: entry %d is %q, want %q", what, i, ds[i].Name, want[i])
	}
}

type cmdDamage struct {
	What  string
	Order string
	Dos   *dosDamage
	Pro   *proDamage
	Bas   *basDamage
}

func runCommand(e *fw.Env, c cmdDamage) {
	if c.Order != "do" && c.Order != "po" {
		return
	}
	dir := e.Dir()
	switch {
	case c.What == "dos3" && c.Dos != nil:
		b := buildDos(*c.Dos)
		if b == nil {
			return
		}
		name := "disk." + c.Order
		cli.Write(dir, name, img.Reorder(b.image, "do", c.Order))
		was := cli.Snapshot(dir)
		ls := []string{"ls", "--system", "dos3", "--order", c.Order, name}
		r := cli.RunV(e, dir, ls)
		if b.catalog {
			r.Refused(e)
		} else {
			r.OK(e)
		}
		for i, n := range b.names {
			if i != b.file && i > 1 {
				continue
			}
			r := cli.RunV(e, dir, []string{"dump", "--system", "dos3", "--order", c.Order, name, n})
			switch {
			case i == b.file:
				r.Refused(e)
			case !b.catalog:
				r.OK(e)
				e.Check(bytes.Equal(r.Out, b.data[i]), "%s: dump of %q, which is not damaged: %s", c.Dos.Kind, n, cli.Diff(b.data[i], r.Out))
			}
		}
		cli.Unchanged(e, dir, was, "ls and dump")
	case c.What == "prodos" && c.Pro != nil:
		b := buildPro(*c.Pro)
		if b == nil {
			return
		}
		name := "disk.hdv"
		file := b.image
		if c.Pro.Blocks == 280 {
			name = "disk." + c.Order
			file = img.Reorder(b.image, "po", c.Order)
		}
		cli.Write(dir, name, file)
		if b.hurt {
			args := []string{"ls", "--system", "prodos", name}
			if b.bad != "" {
				args = append(args, b.bad)
			}
			cli.RunV(e, dir, args).Refused(e)
		}
	case c.What == "applesoft" && c.Bas != nil:
		mem, ok := buildBas(*c.Bas)
		if !ok {
			return
		}
		cli.Write(dir, "prog", mem)
		r := cli.RunV(e, dir, []string{"applesoft", "decode", "--location", fmt.Sprint(c.Bas.Location), "prog"})
		if c.Bas.Kind == "none" {
			r.OK(e)
		} else {
			r.Refused(e)
		}
	default:
		return
	}
	e.Nontrivial()
	e.Label("command %s", c.What)
}
