package main

import (
	"pgregory.net/rapid"

	"verif/img"
)

// A pointer inside a hostile structure: to the I-th structure of the same
// kind (I >= 0), to nothing (-1), or the raw value Raw (I < -1).
type ptr struct {
	I   int
	Raw uint16
}

// catSec is a DOS catalog sector.
type catSec struct {
	Next    ptr
	Entries []catEnt
}

type catEnt struct {
	Kind string // active deleted unused
	Type byte
	Name string
	List ptr
}

type tsList struct {
	Next ptr
	Data []ptr // I >= 0: that data sector; see dosImage
}

type dosSpec struct {
	Cat   []catSec
	Lists []tsList
	First ptr
	Head  []byte // first bytes of every data sector
	// Long chains: the first LongL lists (LongC catalog sectors), each naming
	// the next; the last one is followed by Back.
	LongL, LongC int
	Back         ptr
}

// cats is the catalog sectors, the long chain included.
func (d *dosSpec) cats() []catSec {
	out := append([]catSec(nil), d.Cat[:min(len(d.Cat), 100)]...)
	for i := 0; i < d.LongC && i < 240; i++ {
		if i >= len(out) {
			out = append(out, catSec{})
		}
		out[i].Next = ptr{I: i + 1}
		if i == d.LongC-1 || i == 239 {
			out[i].Next = d.Back
		}
	}
	return out
}

// lists is the track/sector lists, the long chain included.
func (d *dosSpec) lists() []tsList {
	out := append([]tsList(nil), d.Lists[:min(len(d.Lists), 100)]...)
	for i := 0; i < d.LongL && i < 240; i++ {
		if i >= len(out) {
			out = append(out, tsList{})
		}
		out[i].Next = ptr{I: i + 1}
		if i == d.LongL-1 || i == 239 {
			out[i].Next = d.Back
		}
	}
	return out
}

// pBlock is one directory block of a hostile ProDOS volume; block 0 of the
// list is the volume's key block.
type pBlock struct {
	Next, Prev, Parent ptr
	Name               string
	Entries            []pEnt
}

type pEnt struct {
	Store byte
	Type  byte
	Name  string
	Key   ptr
}

type proSpec struct {
	Blocks int // device size
	Dir    []pBlock
	Bitmap uint16
	// Long more blocks: a chain from the first directory ("chain"), a nest of
	// directories ("nest"), or a nest whose parent pointers go inwards
	// ("parents"). The last one points to Back.
	Long int
	Kind string
	Back ptr
}

// dirs is the directory blocks, the long structure included.
func (p *proSpec) dirs() []pBlock {
	out := append([]pBlock(nil), p.Dir[:min(len(p.Dir), 300)]...)
	if len(out) == 0 || p.Long <= 0 {
		return out
	}
	n, end := len(out), len(out)+min(p.Long, 600)
	enter := func(b *pBlock, i int) {
		b.Entries = append([]pEnt{{0xD, 15, "D", ptr{I: i}}}, b.Entries...)
	}
	if p.Kind == "chain" {
		out[0].Next = ptr{I: n}
	} else {
		out[0].Next = ptr{I: -1}
		enter(&out[0], n)
	}
	for i := n; i < end; i++ {
		b := pBlock{Name: "D", Next: ptr{I: -1}, Prev: ptr{I: -1}, Parent: ptr{I: i - 1}}
		if i == n {
			b.Parent = ptr{I: 0}
		}
		next := ptr{I: i + 1}
		if i+1 == end {
			next = p.Back
		}
		switch p.Kind {
		case "chain":
			b.Next = next
		case "nest":
			b.Entries = []pEnt{{0xD, 15, "D", next}}
		default:
			b.Parent = next
			if i+1 < end {
				b.Entries = []pEnt{{0xD, 15, "D", ptr{I: i + 1}}}
			}
		}
		out = append(out, b)
	}
	return out
}

type mapEdit struct{ Sector, File int }

type symEdit struct {
	Slot int
	Addr uint16
	Link int // slot; below zero: raw value -Link
	Name []byte
}

type nakSpec struct {
	Disk img.NDisk
	Map  []mapEdit
	Sym  []symEdit
	Skip int // sectors of the map not set to a legal value
}

type rawEdit struct {
	At  int
	Val []byte
}

// spec is a disk image.
type spec struct {
	Size  int // raw images
	Fill  uint64
	Plain int // -1: pseudo-random filler, else every byte this value
	Dos   *dosSpec
	Pro   *proSpec
	Nak   *nakSpec
	Edits []rawEdit
	Cut   int // bytes removed from (<0) or added to the end
}

func drawPtr(t *rapid.T, n int, label string) ptr {
	k := rapid.IntRange(0, 15).Draw(t, label)
	switch {
	case k < 4 || n == 0 && k < 15:
		return ptr{I: -1}
	case k < 15:
		return ptr{I: rapid.IntRange(0, n-1).Draw(t, label+"i")}
	}
	return ptr{I: -2, Raw: rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(0, 300), rapid.SampledFrom([]uint16{0x0F11, 0x1011, 0x0023, 0x1022, 0xFFFF, 279, 280})).Draw(t, label+"raw")}
}

func drawSpec(t *rapid.T) spec {
	c := spec{Fill: rapid.Uint64().Draw(t, "fill"), Plain: rapid.SampledFrom([]int{-1, -1, 0, 0, 255, 0x20}).Draw(t, "plain")}
	name := func(label string) string {
		return rapid.SampledFrom([]string{"A", "B", "HELLO", "A/B", "", "SUB", "ABCDEFGHIJKLMNO"}).Draw(t, label)
	}
	switch k := rapid.IntRange(0, 15).Draw(t, "kind"); {
	case k < 2:
		c.Size = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 255, 256, 511, 512, 1024, 1536, 2048, 143359, 143360, 143361, 143360, 143360, 512 * 280, 512 * 281, 232960, 116480}), rapid.IntRange(0, 5000), rapid.Custom(func(t *rapid.T) int { return 512 * rapid.IntRange(0, 1700).Draw(t, "b") })).Draw(t, "size")
	case k < 6:
		d := dosSpec{Head: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "head")}
		nc, nl := rapid.IntRange(1, 6).Draw(t, "nc"), rapid.IntRange(0, 6).Draw(t, "nl")
		for i := 0; i < nc; i++ {
			s := catSec{Next: drawPtr(t, nc, "next")}
			if i+1 < nc && rapid.Bool().Draw(t, "chain") {
				s.Next = ptr{I: i + 1}
			}
			for n := rapid.IntRange(0, 4).Draw(t, "ne"); n > 0; n-- {
				s.Entries = append(s.Entries, catEnt{rapid.SampledFrom([]string{"active", "active", "active", "deleted", "unused"}).Draw(t, "ek"),
					rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 2, 4, 0x80, 0x84}), rapid.Byte()).Draw(t, "et"), name("en"), drawPtr(t, nl, "el")})
			}
			d.Cat = append(d.Cat, s)
		}
		for i := 0; i < nl; i++ {
			l := tsList{Next: drawPtr(t, nl, "lnext")}
			if i+1 < nl && rapid.Bool().Draw(t, "lchain") {
				l.Next = ptr{I: i + 1}
			}
			for n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 122)).Draw(t, "nd"); n > 0; n-- {
				l.Data = append(l.Data, drawPtr(t, 40, "data"))
			}
			d.Lists = append(d.Lists, l)
		}
		d.First = ptr{I: 0}
		if rapid.IntRange(0, 5).Draw(t, "first") == 0 {
			d.First = drawPtr(t, nc, "firstp")
		}
		if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
			n := rapid.IntRange(7, 240).Draw(t, "longn")
			if rapid.Bool().Draw(t, "longcat") {
				d.LongC = n
			} else {
				d.LongL = n
			}
			d.Back = ptr{I: rapid.IntRange(-1, n-1).Draw(t, "back")}
		}
		c.Dos = &d
	case k < 11:
		p := proSpec{Blocks: rapid.OneOf(rapid.Just(280), rapid.Just(280), rapid.IntRange(3, 600)).Draw(t, "blocks"), Bitmap: rapid.OneOf(rapid.Just(uint16(6)), rapid.Uint16()).Draw(t, "bitmap")}
		nd := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 40)).Draw(t, "nd")
		tree := rapid.IntRange(0, 2).Draw(t, "tree") > 0
		for i := 0; i < nd; i++ {
			b := pBlock{Next: drawPtr(t, nd, "next"), Prev: drawPtr(t, nd, "prev"), Parent: drawPtr(t, nd, "parent"), Name: name("name")}
			if tree {
				b.Parent = ptr{I: rapid.IntRange(0, i).Draw(t, "tparent")}
			}
			if rapid.Bool().Draw(t, "nonext") {
				b.Next = ptr{I: -1}
			}
			for n := rapid.IntRange(0, 5).Draw(t, "ne"); n > 0; n-- {
				b.Entries = append(b.Entries, pEnt{rapid.SampledFrom([]byte{0, 1, 2, 3, 0xD, 0xD, 0xD, 0xE, 0xF}).Draw(t, "store"), rapid.Byte().Draw(t, "type"), name("ename"), drawPtr(t, nd, "key")})
			}
			p.Dir = append(p.Dir, b)
		}
		if rapid.IntRange(0, 7).Draw(t, "nest") == 0 { // a deep nest
			for i := range p.Dir {
				p.Dir[i].Next = ptr{I: -1}
				p.Dir[i].Entries = append(p.Dir[i].Entries, pEnt{0xD, 15, "D", ptr{I: i + 1}})
				p.Dir[i].Parent = ptr{I: max(0, i-1)}
			}
			p.Dir[nd-1].Entries[0].Key = drawPtr(t, nd, "lastkey")
			p.Dir[nd-1].Parent = drawPtr(t, nd, "lastparent")
		}
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			p.Long = rapid.IntRange(7, 240).Draw(t, "longn")
			p.Kind = rapid.SampledFrom([]string{"chain", "nest", "parents"}).Draw(t, "longkind")
			p.Back = ptr{I: rapid.IntRange(-1, nd+p.Long-1).Draw(t, "back")}
			p.Bitmap = 6
		}
		c.Pro = &p
	default:
		n := nakSpec{Disk: img.NDisk{Seed: rapid.Uint64().Draw(t, "seed"), Extra: rapid.IntRange(0, 20).Draw(t, "extra"), Frag: rapid.Bool().Draw(t, "frag"),
			Slots: rapid.Bool().Draw(t, "slots"), ST: rapid.IntRange(0, 5).Draw(t, "st") > 0}}
		for k := rapid.IntRange(0, 8).Draw(t, "nfiles"); k > 0; k-- {
			n.Disk.Files = append(n.Disk.Files, img.NFile{Num: byte(rapid.OneOf(rapid.IntRange(5, 200), rapid.IntRange(5, 200), rapid.IntRange(0, 255)).Draw(t, "num")), Sectors: rapid.IntRange(0, 40).Draw(t, "sectors")})
		}
		nsyms := rapid.OneOf(rapid.IntRange(0, 10), rapid.SampledFrom([]int{818, 819})).Draw(t, "nsyms")
		for k := 0; k < nsyms; k++ {
			if nsyms > 100 {
				n.Disk.Syms = append(n.Disk.Syms, img.NSym{Name: symName(k), Addr: uint16(k*7 + 1)})
				continue
			}
			n.Disk.Syms = append(n.Disk.Syms, img.NSym{Name: rapid.StringMatching("[A-C][A-D1-2]{2,4}").Draw(t, "sym"),
				Addr: rapid.OneOf(rapid.Custom(func(t *rapid.T) uint16 { return 0xDF00 + uint16(rapid.Byte().Draw(t, "f")) }), rapid.Uint16()).Draw(t, "addr")})
		}
		for k := rapid.SampledFrom([]int{0, 0, 1, 3, 10}).Draw(t, "nmap"); k > 0; k-- {
			n.Map = append(n.Map, mapEdit{rapid.OneOf(rapid.IntRange(0, 559), rapid.IntRange(0, 20)).Draw(t, "sector"), rapid.OneOf(rapid.SampledFrom([]int{0, 0xFE, 0xFF, 3, 4}), rapid.IntRange(0, 255)).Draw(t, "file")})
		}
		for k := rapid.SampledFrom([]int{0, 0, 1, 2, 6}).Draw(t, "nsym"); k > 0; k-- {
			n.Sym = append(n.Sym, symEdit{rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 818)).Draw(t, "slot"), rapid.OneOf(rapid.SampledFrom([]uint16{0, 0xDF01, 0xDF02, 0x0101, 0x0202}), rapid.SampledFrom([]uint16{0x0101, 0x0202, 0x0303, 0x1717, 0xDFDF}), rapid.Uint16()).Draw(t, "eaddr"),
				rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 818), rapid.IntRange(817, 822), rapid.IntRange(-65535, -1), rapid.SampledFrom([]int{-0xFFFF, -0xDFFF, -0xDFFE, -0xCFFB, -0xD001, -1, -5})).Draw(t, "link"),
				rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "name")})
		}
		c.Nak = &n
	}
	for k := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 8}).Draw(t, "nedits"); k > 0; k-- {
		c.Edits = append(c.Edits, rawEdit{rapid.OneOf(rapid.IntRange(0, 143359), rapid.IntRange(0x11000, 0x110FF), rapid.IntRange(0x400, 0x7FF), rapid.IntRange(0x9D0, 0xBFF), rapid.IntRange(0x11F00, 0x11FFF)).Draw(t, "at"),
			rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "val")})
	}
	if rapid.IntRange(0, 15).Draw(t, "cut") == 0 {
		c.Cut = rapid.OneOf(rapid.IntRange(-2000, 2000), rapid.IntRange(-143360, 0), rapid.SampledFrom([]int{-512, 512, -256, 256, -1, 1})).Draw(t, "cutby")
	}
	return c
}

func symName(k int) string {
	b := []byte("AAA")
	for i := range b {
		b[i] += byte(k % 26)
		k /= 26
	}
	return string(b)
}

func le(b []byte, v uint16) { b[0], b[1] = byte(v), byte(v>>8) }

// build makes the image: its bytes in the order of the file system it is meant
// for ("do", "po" or "raw"; "" if none in particular).
func (c spec) build() (b []byte, order string) {
	fill := func(n int) []byte {
		if c.Plain < 0 {
			return img.Bytes(c.Fill, n)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.Plain)
		}
		return b
	}
	switch {
	case c.Dos != nil:
		b, order = fill(img.Size), "do"
		c.Dos.put(b, c.Fill)
	case c.Pro != nil:
		n := min(max(c.Pro.Blocks, 3), 2000)
		b, order = fill(n*512), "po"
		c.Pro.put(b, c.Fill)
	case c.Nak != nil:
		b, order = c.Nak.Disk.Build(), "raw"
		c.Nak.put(b)
	default:
		if c.Size < 0 || c.Size > 40<<20 {
			return nil, ""
		}
		b = fill(c.Size)
	}
	for _, x := range c.Edits {
		if x.At >= 0 && x.At < len(b) {
			copy(b[x.At:], x.Val)
		}
	}
	if c.Cut < 0 {
		b = b[:max(0, len(b)+c.Cut)]
	} else if c.Cut > 0 && c.Cut < 1<<20 {
		b = append(b, fill(c.Cut)...)
	}
	return b, order
}

func (d *dosSpec) put(b []byte, seed uint64) {
	// Sector numbers: catalogs, lists, then 40 data sectors.
	sec := img.Perm(seed, 33*16)
	ts := func(k int) img.TS {
		i := sec[k%len(sec)]
		t := 1 + i/16
		if t >= 17 {
			t++
		}
		return img.TS{T: byte(t), S: byte(i % 16)}
	}
	set := func(p []byte, q ptr, base, n int) {
		switch {
		case q.I >= 0 && n > 0:
			x := ts(base + q.I%n)
			p[0], p[1] = x.T, x.S
		case q.I == -1:
			p[0], p[1] = 0, 0
		default:
			p[0], p[1] = byte(q.Raw), byte(q.Raw>>8)
		}
	}
	cats, lists := d.cats(), d.lists()
	nc, nl := len(cats), len(lists)
	img.DosVTOC(b, img.TS{}, 254, 1)
	set(b[img.TS{T: 17}.Off()+1:], d.First, 0, nc)
	for k := 0; k < 40; k++ {
		copy(b[ts(nc+nl+k).Off():], d.Head)
	}
	for i, c := range cats {
		s := b[ts(i).Off():][:256]
		for k := range s {
			s[k] = 0
		}
		set(s[1:], c.Next, 0, nc)
		for j, e := range c.Entries {
			if j >= 7 {
				break
			}
			slot := s[11+35*j : 11+35*j+35]
			x := img.DosEntry{Kind: "active", Type: e.Type & 0x7f, Lock: e.Type&0x80 != 0, Count: 2, List: img.TS{T: 1, S: 1}}
			if len(e.Name) <= 30 {
				x.Name = []byte(e.Name)
			}
			x.Put(slot)
			set(slot, e.List, nc, nl)
			switch e.Kind {
			case "deleted":
				slot[0] = 0xFF
			case "unused":
				slot[0] = 0
			}
		}
	}
	for i, l := range lists {
		s := b[ts(nc+i).Off():][:256]
		for k := range s {
			s[k] = 0
		}
		set(s[1:], l.Next, nc, nl)
		for j, p := range l.Data {
			if j >= 122 {
				break
			}
			set(s[12+2*j:], p, nc+nl, 40)
		}
	}
}

func (p *proSpec) put(b []byte, seed uint64) {
	n := len(b) / 512
	perm := img.Perm(seed, n)
	block := func(i int) uint16 {
		if i == 0 {
			return 2
		}
		return uint16(perm[i%n])
	}
	dirs := p.dirs()
	nd := min(len(dirs), n)
	set := func(x []byte, q ptr) {
		switch {
		case q.I >= 0 && nd > 0:
			le(x, block(q.I%nd))
		case q.I == -1:
			le(x, 0)
		default:
			le(x, q.Raw)
		}
	}
	for i := nd - 1; i >= 0; i-- {
		d := dirs[i]
		s := b[int(block(i))*512:][:512]
		for k := range s {
			s[k] = 0
		}
		set(s[0:], d.Prev)
		set(s[2:], d.Next)
		h := s[4:]
		h[0] = 0xE0 | byte(len(d.Name)&15)
		copy(h[1:16], d.Name)
		h[0x10] = 0x75
		h[0x1e], h[0x1f], h[0x20] = 0xC3, 0x27, 0x0D
		set(h[0x23:], d.Parent)
		h[0x25], h[0x26] = 2, 0x27
		if i == 0 {
			h[0] |= 0x10
			le(h[0x23:], p.Bitmap)
			le(h[0x25:], uint16(n))
		}
		for j, e := range d.Entries {
			if j >= 12 {
				break
			}
			x := s[4+0x27*(j+1):][:0x27]
			x[0] = e.Store<<4 | byte(len(e.Name)&15)
			copy(x[1:16], e.Name)
			x[0x10] = e.Type
			set(x[0x11:], e.Key)
		}
	}
}

func (n *nakSpec) put(b []byte) {
	o := img.NOwner(b)
	for _, m := range n.Map {
		if m.Sector >= 0 && m.Sector < 560 {
			o[m.Sector] = byte(m.File)
		}
	}
	// Where the bytes of a file are on the disk.
	at := func(file byte, off int) int {
		for i, f := range o {
			if f == file {
				if off < 256 {
					return i*256 + off
				}
				off -= 256
			}
		}
		return -1
	}
	poke := func(file byte, off int, v byte) {
		if i := at(file, off); i >= 0 {
			b[i] = v
		}
	}
	for _, s := range n.Sym {
		if s.Slot < 0 || s.Slot > 818 {
			continue
		}
		link := 0xD000 + uint16(s.Link)*5
		if s.Link < 0 {
			link = uint16(-s.Link)
		}
		base := s.Slot * 5
		poke(3, base, byte(s.Addr))
		poke(3, base+1, byte(s.Addr>>8))
		poke(3, base+2, byte(link))
		poke(3, base+3, byte(link>>8))
		for k, v := range s.Name {
			if k < 5 {
				poke(4, base+k, v)
			} else if k == 5 {
				poke(3, base+4, v)
			}
		}
	}
	img.NSetOwner(b, o)
}
