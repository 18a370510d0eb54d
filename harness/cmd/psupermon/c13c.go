package main

import (
	"bytes"

	"github.com/zellyn/diskii/supermon"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
)

// mapOp is one call on the sector map itself.
type mapOp struct {
	File byte
	Size int // bytes; -1-k means all available sectors plus k bytes
	Over bool
	Fill uint64
}

type mapCase struct {
	Disk img.NDisk
	Ops  []mapOp
}

func init() {
	fw.Draw("C13", "map", 1500, 20000, func(t *rapid.T) mapCase {
		c := mapCase{Disk: drawDisk(t, rapid.Bool().Draw(t, "st"), drawNames(t))}
		n := rapid.IntRange(1, 8).Draw(t, "nops")
		for i := 0; i < n; i++ {
			o := mapOp{Over: rapid.Bool().Draw(t, "over"), Fill: rapid.Uint64().Draw(t, "fill")}
			o.File = byte(rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 0xFD)).Draw(t, "file"))
			if len(c.Disk.Files) > 0 && rapid.Bool().Draw(t, "known") {
				o.File = c.Disk.Files[rapid.IntRange(0, len(c.Disk.Files)-1).Draw(t, "which")].Num
			}
			o.Size = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 3000), rapid.IntRange(-3, -1), rapid.SampledFrom([]int{255, 256, 257, 100000, 143360, 150000})).Draw(t, "size")
			c.Ops = append(c.Ops, o)
		}
		return c
	}, runMap)
}

// runMap drives SectorMap.WriteFile: a refused write leaves both the map and
// the disk as they were, and is classified.
func runMap(e *fw.Env, c mapCase) {
	if len(c.Ops) > 100 {
		return
	}
	w := newWorld(e, c.Disk)
	if w == nil {
		return
	}
	disk := append([]byte(nil), w.op.GetBytes()...)
	sm, err := supermon.LoadSectorMap(disk)
	e.Check(err == nil, "LoadSectorMap: %v", err)
	for i, o := range c.Ops {
		if o.File == 0 || o.File >= 0xFE || o.Size > 200000 {
			continue
		}
		free, own := 0, 0
		for _, f := range sm {
			if f == supermon.FileFree {
				free++
			} else if f == o.File {
				own++
			}
		}
		size := o.Size
		if size < 0 {
			size = max(0, (free+own)*256+(-1-size))
		}
		need := (size + 255) / 256
		data := img.Bytes(o.Fill, size)
		wasMap, wasDisk := append([]byte(nil), sm...), append([]byte(nil), disk...)
		existed, err := sm.WriteFile(disk, o.File, data, o.Over)
		e.Check(existed == (own > 0), "op %d: write of file %02X says existed=%v, it had %d sectors", i, o.File, existed, own)
		tooBig, conflict := need > free+own, own > 0 && !o.Over
		if size == 0 || tooBig || conflict {
			e.Check(err != nil, "op %d: write of %d bytes to file %02X (%d sectors of its own, %d free, overwrite %v) was accepted", i, size, o.File, own, free, o.Over)
			e.Check(bytes.Equal(wasMap, sm), "op %d: the write was refused (%v) but the sector map changed", i, err)
			e.Check(bytes.Equal(wasDisk, disk), "op %d: the write was refused (%v) but the disk changed", i, err)
			cl := classes(err)
			if size > 0 {
				e.Check(tooBig && cl == "space" || conflict && cl == "exists", "op %d: refusal %q (too big %v, conflict %v) is classified as %q", i, err, tooBig, conflict, cl)
			}
			e.Label("map refusal empty=%v big=%v conflict=%v", size == 0, tooBig, conflict)
			e.Nontrivial()
			continue
		}
		e.Check(err == nil, "op %d: write of %d bytes to file %02X (%d sectors of its own, %d free): %v", i, size, o.File, own, free, err)
		got, err := sm.ReadFile(disk, o.File)
		e.Check(err == nil && bytes.Equal(got, append(data, make([]byte, need*256-size)...)), "op %d: file %02X does not read back (%v)", i, o.File, err)
	}
}
