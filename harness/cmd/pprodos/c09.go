package main

import (
	"bytes"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/prodos"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type blockCase struct {
	Kind  string // vkey vol skey sub
	Data  []byte
	Dirty uint64
}

type blk interface {
	FromBlock(disk.Block) error
	ToBlock() (disk.Block, error)
	Validate() []error
}

func newBlk(kind string) blk {
	switch kind {
	case "vkey":
		return &prodos.VolumeDirectoryKeyBlock{}
	case "vol":
		return &prodos.VolumeDirectoryBlock{}
	case "skey":
		return &prodos.SubdirectoryKeyBlock{}
	case "sub":
		return &prodos.SubdirectoryBlock{}
	}
	return nil
}

func isKey(kind string) bool { return kind == "vkey" || kind == "skey" }

func drawBlock(t *rapid.T) blockCase {
	c := blockCase{Kind: rapid.SampledFrom([]string{"vkey", "vol", "skey", "sub"}).Draw(t, "kind"), Dirty: rapid.Uint64().Draw(t, "dirty")}
	switch rapid.IntRange(0, 2).Draw(t, "how") {
	case 0:
		c.Data = rapid.SliceOfN(rapid.Byte(), 512, 512).Draw(t, "data")
	case 1:
		c.Data = bytes.Repeat([]byte{rapid.SampledFrom([]byte{0, 0xFF}).Draw(t, "bg")}, 512)
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			c.Data[rapid.IntRange(0, 511).Draw(t, "off")] = rapid.Byte().Draw(t, "val")
		}
	case 2: // legal, then a few fields at or beyond their limits
		c.Data = img.Bytes(rapid.Uint64().Draw(t, "seed"), 512)
		legal(c.Kind, c.Data)
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "n"); i < n; i++ {
			slot := rapid.IntRange(0, 12).Draw(t, "slot")
			off := 4 + slot*0x27 + rapid.SampledFrom([]int{0x1a, 0x1b, 0x23, 0x24, 0x10}).Draw(t, "field")
			if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
				off = rapid.SampledFrom([]int{0, 1, 2, 3, 511}).Draw(t, "eoff")
			}
			c.Data[off] = rapid.SampledFrom([]byte{0, 1, 22, 23, 24, 25, 58, 59, 60, 61, 0x74, 0x75, 0x76, 255}).Draw(t, "val")
		}
	}
	return c
}

// legal makes every checked field legal.
func legal(kind string, d []byte) {
	if isKey(kind) {
		d[0], d[1] = 0, 0
	}
	if kind == "skey" {
		d[4+0x10] = 0x75
	}
	d[511] = 0
	for s := 0; s < 13; s++ {
		o := 4 + s*0x27
		d[o+0x1a] %= 60
		d[o+0x1b] %= 24
		if !(s == 0 && isKey(kind)) {
			d[o+0x23] %= 60
			d[o+0x24] %= 24
		}
	}
}

func isLegal(kind string, d []byte) bool {
	ok := d[511] == 0
	if isKey(kind) {
		ok = ok && d[0] == 0 && d[1] == 0
	}
	if kind == "skey" {
		ok = ok && d[4+0x10] == 0x75
	}
	for s := 0; s < 13; s++ {
		o := 4 + s*0x27
		ok = ok && d[o+0x1a] < 60 && d[o+0x1b] < 24
		if !(s == 0 && isKey(kind)) {
			ok = ok && d[o+0x23] < 60 && d[o+0x24] < 24
		}
	}
	return ok
}

func init() {
	fw.Rule("C09", "Drawn: 512-byte blocks (random, sparse, legal with a few fields at their limits) decoded as each of the four directory blocks into a structure that held other data before; index-block histories; bitmap sizes 1 to 65,535 with mark histories, written to a device. Oracle: byte offsets and bit positions from the ProDOS description, an array of block numbers, a set of free blocks. Non-trivial: every decoded block, every history with at least one change; distinct by case.",
		"Times are stored minute first, then hour, as ProDOS does.")
	fw.Draw("C09", "codec", 150000, 2000000, drawBlock, runBlock)

	type ixOp struct {
		Pos byte
		Val uint16
	}
	type ixCase struct {
		Seed uint64
		Ops  []ixOp
	}
	fw.Draw("C09", "index", 40000, 600000, func(t *rapid.T) ixCase {
		return ixCase{rapid.Uint64().Draw(t, "seed"), rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ixOp {
			return ixOp{rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 127, 128, 254, 255})).Draw(t, "pos"), rapid.Uint16().Draw(t, "val")}
		}), 1, 20).Draw(t, "ops")}
	}, func(e *fw.Env, c ixCase) {
		var ib prodos.IndexBlock
		copy(ib[:], img.Bytes(c.Seed, 512))
		model := append([]byte{}, ib[:]...)
		for i, o := range c.Ops {
			ib.Set(o.Pos, o.Val)
			model[o.Pos], model[256+int(o.Pos)] = byte(o.Val), byte(o.Val>>8)
			e.Check(ib.Get(o.Pos) == o.Val, "op %d: position %d set to %d reads back %d", i, o.Pos, o.Val, ib.Get(o.Pos))
			e.Check(bytes.Equal(ib[:], model), "op %d: %s", i, cli.Diff(model, ib[:]))
		}
		for p := 0; p < 256; p++ {
			w := uint16(model[p]) | uint16(model[256+p])<<8
			e.Check(ib.Get(byte(p)) == w, "position %d reads %d, stored %d", p, ib.Get(byte(p)), w)
		}
		e.Nontrivial()
	})

	type bmOp struct {
		Block uint16
		Free  bool
	}
	type bmCase struct {
		Start  uint16
		Blocks uint16
		Ops    []bmOp
		Dev    int // device blocks beyond the bitmap
		Seed   uint64
	}
	fw.Draw("C09", "bitmap", 15000, 200000, func(t *rapid.T) bmCase {
		c := bmCase{Seed: rapid.Uint64().Draw(t, "seed"), Start: uint16(rapid.OneOf(rapid.Just(6), rapid.IntRange(0, 40)).Draw(t, "start")), Dev: rapid.IntRange(0, 5).Draw(t, "dev")}
		c.Blocks = uint16(rapid.OneOf(rapid.IntRange(1, 600), rapid.SampledFrom([]int{280, 4095, 4096, 4097, 8191, 8192, 8193, 32768, 61439, 61440, 61441, 65534, 65535}), rapid.IntRange(1, 65535)).Draw(t, "blocks"))
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bmOp {
			b := rapid.OneOf(rapid.IntRange(0, int(c.Blocks)-1), rapid.Map(rapid.IntRange(0, 20), func(i int) int { return max(0, int(c.Blocks)-1-i) }), rapid.Map(rapid.IntRange(0, 15), func(i int) int { return min(int(c.Blocks)-1, i*4096+i%3) })).Draw(t, "block")
			return bmOp{uint16(b), rapid.Bool().Draw(t, "free")}
		}), 0, 30).Draw(t, "ops")
		return c
	}, func(e *fw.Env, c bmCase) {
		if c.Blocks == 0 || c.Dev < 0 || c.Dev > 1000 || c.Start > 1000 {
			return
		}
		vbm := prodos.NewVolumeBitMap(c.Start, c.Blocks)
		used := map[uint16]bool{}
		full := func(when string) {
			for b := 0; b < int(c.Blocks); b++ {
				if vbm.IsFree(uint16(b)) == used[uint16(b)] {
					e.Failf("%s: bitmap of %d blocks says block %d free=%v", when, c.Blocks, b, used[uint16(b)])
				}
			}
		}
		full("new")
		for _, o := range c.Ops {
			if o.Block >= c.Blocks {
				return
			}
			if o.Free {
				vbm.MarkUnused(o.Block)
				delete(used, o.Block)
			} else {
				vbm.MarkUsed(o.Block)
				used[o.Block] = true
			}
			e.Check(vbm.IsFree(o.Block) == o.Free, "block %d marked free=%v answers otherwise", o.Block, o.Free)
			e.Nontrivial()
		}
		full("after marks")
		parts := (int(c.Blocks) + 4095) / 4096
		dev := img.Bytes(c.Seed, (int(c.Start)+parts+c.Dev)*512)
		model := append([]byte{}, dev...)
		bm := model[int(c.Start)*512 : (int(c.Start)+parts)*512]
		for b := 0; b < int(c.Blocks); b++ {
			if used[uint16(b)] {
				bm[b/8] &^= 0x80 >> (b % 8)
			} else {
				bm[b/8] |= 0x80 >> (b % 8)
			}
		}
		e.Check(vbm.Write(dev) == nil, "Write to a large enough device failed")
		// Bits beyond the last block are not specified.
		for b := int(c.Blocks); b < parts*4096; b++ {
			m := byte(0x80 >> (b % 8))
			off := int(c.Start)*512 + b/8
			model[off] = model[off]&^m | dev[off]&m
		}
		e.Check(bytes.Equal(dev, model), "written bitmap of %d blocks at %d: %s", c.Blocks, c.Start, cli.Diff(model, dev))
		small := make([]byte, (int(c.Start)+parts-1)*512)
		e.Check(vbm.Write(small) != nil, "Write to a device too small for the bitmap succeeded")
		e.Label("parts=%d", parts)
	})
}

func runBlock(e *fw.Env, c blockCase) {
	s := newBlk(c.Kind)
	if s == nil || len(c.Data) != 512 {
		return
	}
	var b, dirty disk.Block
	copy(b[:], c.Data)
	copy(dirty[:], img.Bytes(c.Dirty, 512))
	d := c.Data
	e.Check(s.FromBlock(dirty) == nil && s.FromBlock(b) == nil, "FromBlock failed")
	u16 := func(i int) uint16 { return uint16(d[i]) | uint16(d[i+1])<<8 }
	eq := func(field string, got, want any) {
		e.Check(got == want, "%s.%s is %v, stored %v", c.Kind, field, got, want)
	}
	beq := func(field string, got, want []byte) {
		e.Check(bytes.Equal(got, want), "%s.%s is % X, stored % X", c.Kind, field, got, want)
	}
	date := func(field string, dt prodos.DateTime, o int) {
		beq(field, []byte{dt.YMD[0], dt.YMD[1], dt.HM[0], dt.HM[1]}, d[o:o+4])
	}
	descs := func(ds []prodos.FileDescriptor, o int) {
		for i := range ds {
			f, p := &ds[i], o+i*0x27
			eq("TypeAndNameLength", f.TypeAndNameLength, d[p])
			beq("FileName", f.FileName[:], d[p+1:p+16])
			eq("FileType", f.FileType, d[p+0x10])
			eq("KeyPointer", f.KeyPointer, u16(p+0x11))
			eq("BlocksUsed", f.BlocksUsed, u16(p+0x13))
			beq("EOF", f.EOF[:], d[p+0x15:p+0x18])
			date("Creation", f.Creation, p+0x18)
			eq("Version", f.Version, d[p+0x1c])
			eq("MinVersion", f.MinVersion, d[p+0x1d])
			eq("Access", byte(f.Access), d[p+0x1e])
			eq("AuxType", f.AuxType, u16(p+0x1f))
			date("LastMod", f.LastMod, p+0x21)
			eq("HeaderPointer", f.HeaderPointer, u16(p+0x25))
			eq("Type()", f.Type(), d[p]>>4)
			eq("Name()", f.Name(), string(d[p+1:p+1+int(d[p]&15)]))
		}
	}
	switch x := s.(type) {
	case *prodos.VolumeDirectoryKeyBlock:
		eq("Prev", x.Prev, u16(0))
		eq("Next", x.Next, u16(2))
		h := x.Header
		eq("Header.TypeAndNameLength", h.TypeAndNameLength, d[4])
		beq("Header.VolumeName", h.VolumeName[:], d[5:20])
		date("Header.Creation", h.Creation, 4+0x18)
		eq("Header.Version", h.Version, d[4+0x1c])
		eq("Header.MinVersion", h.MinVersion, d[4+0x1d])
		eq("Header.Access", byte(h.Access), d[4+0x1e])
		eq("Header.EntryLength", h.EntryLength, d[4+0x1f])
		eq("Header.EntriesPerBlock", h.EntriesPerBlock, d[4+0x20])
		eq("Header.FileCount", h.FileCount, u16(4+0x21))
		eq("Header.BitMapPointer", h.BitMapPointer, u16(4+0x23))
		eq("Header.TotalBlocks", h.TotalBlocks, u16(4+0x25))
		descs(x.Descriptors[:], 0x2b)
	case *prodos.VolumeDirectoryBlock:
		eq("Prev", x.Prev, u16(0))
		eq("Next", x.Next, u16(2))
		descs(x.Descriptors[:], 4)
	case *prodos.SubdirectoryKeyBlock:
		eq("Prev", x.Prev, u16(0))
		eq("Next", x.Next, u16(2))
		h := x.Header
		eq("Header.TypeAndNameLength", h.TypeAndNameLength, d[4])
		beq("Header.SubdirectoryName", h.SubdirectoryName[:], d[5:20])
		eq("Header.SeventyFive", h.SeventyFive, d[4+0x10])
		date("Header.Creation", h.Creation, 4+0x18)
		eq("Header.Version", h.Version, d[4+0x1c])
		eq("Header.MinVersion", h.MinVersion, d[4+0x1d])
		eq("Header.Access", byte(h.Access), d[4+0x1e])
		eq("Header.EntryLength", h.EntryLength, d[4+0x1f])
		eq("Header.EntriesPerBlock", h.EntriesPerBlock, d[4+0x20])
		eq("Header.FileCount", h.FileCount, u16(4+0x21))
		eq("Header.ParentPointer", h.ParentPointer, u16(4+0x23))
		eq("Header.ParentEntry", h.ParentEntry, d[4+0x25])
		eq("Header.ParentEntryLength", h.ParentEntryLength, d[4+0x26])
		eq("Header.Name()", h.Name(), string(d[5:5+int(d[4]&15)]))
		descs(x.Descriptors[:], 0x2b)
	case *prodos.SubdirectoryBlock:
		eq("Prev", x.Prev, u16(0))
		eq("Next", x.Next, u16(2))
		descs(x.Descriptors[:], 4)
	}
	out, err := s.ToBlock()
	e.Check(err == nil, "%s.ToBlock: %v", c.Kind, err)
	e.Check(bytes.Equal(out[:], c.Data), "%s encodes differently: %s", c.Kind, cli.Diff(c.Data, out[:]))
	ok := isLegal(c.Kind, d)
	errs := s.Validate()
	e.Check((len(errs) == 0) == ok, "%s.Validate: %v, want legal=%v", c.Kind, errs, ok)
	e.Nontrivial()
	e.Label("%s legal=%v", c.Kind, ok)
}
