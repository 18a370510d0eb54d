package main

import (
	"github.com/zellyn/diskii/supermon"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
	"verif/ngen"
)

// Which disks are NakedOS disks at all: those whose map reserves sectors 0-B
// of track 0 and gives no sector to the illegal owner 0.

type mapEdit struct {
	Sector int
	Owner  byte
}

type verifyCase struct {
	Disk  img.NDisk
	Edits []mapEdit
	// A SetFileForSector call.
	Track, Sector, File byte
	Size                int // 0: a whole disk, otherwise only its first bytes
}

func init() {
	fw.Draw("C10", "accept", 3000, 60000, func(t *rapid.T) verifyCase {
		c := verifyCase{Disk: ngen.Disk(t, rapid.Bool().Draw(t, "st"), nil)}
		for i := rapid.IntRange(0, 2).Draw(t, "edits"); i > 0; i-- {
			c.Edits = append(c.Edits, mapEdit{
				Sector: rapid.OneOf(rapid.IntRange(0, 12), rapid.SampledFrom([]int{11, 12, 15, 16, 47, 48, 303, 304, 558, 559}), rapid.IntRange(0, 559)).Draw(t, "where"),
				Owner:  rapid.OneOf(rapid.SampledFrom([]byte{0, 0, 1, 0xFD, 0xFE, 0xFF}), rapid.Byte()).Draw(t, "owner"),
			})
		}
		c.Track = rapid.OneOf(rapid.ByteRange(0, 34), rapid.SampledFrom([]byte{34, 35, 36, 255})).Draw(t, "track")
		c.Sector = rapid.OneOf(rapid.ByteRange(0, 15), rapid.SampledFrom([]byte{15, 16, 17, 255})).Draw(t, "sector")
		c.File = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 0xFD, 0xFE, 0xFF})).Draw(t, "file")
		if rapid.IntRange(0, 9).Draw(t, "short") == 0 {
			c.Size = rapid.OneOf(rapid.SampledFrom([]int{256, 0x9FF, 0xA00, 0xAFF, 0xB00, 0xBFF}), rapid.IntRange(1, 0xBFF)).Draw(t, "size")
		}
		return c
	}, runAccept)
}

func runAccept(e *fw.Env, c verifyCase) {
	if len(c.Edits) > 100 || len(c.Disk.Files) > 300 {
		return
	}
	b := c.Disk.Build()
	o := img.NOwner(b)
	for _, x := range c.Edits {
		if x.Sector >= 0 && x.Sector < 560 {
			o[x.Sector] = x.Owner
		}
	}
	img.NSetOwner(b, o)
	want := true
	for i, f := range o {
		if f == 0 || (i < 12 && f != 0xFE) {
			want = false
		}
	}
	if c.Size > 0 && c.Size < 0xC00 {
		b = b[:c.Size:c.Size]
		op, err := supermon.OperatorFactory{}.Operator(append([]byte(nil), b...), 0)
		e.Check(err != nil, "%d bytes of a disk, too few to hold a sector map, were opened as %v", c.Size, op)
		e.Check(!supermon.OperatorFactory{}.SeemsToMatch(append([]byte(nil), b...), 0), "%d bytes of a disk, too few to hold a sector map, seem to match", c.Size)
		_, err = supermon.LoadSectorMap(b)
		e.Check(err != nil, "%d bytes of a disk, too few to hold a sector map, have one", c.Size)
		e.Label("short image")
		return
	}
	sm, err := supermon.LoadSectorMap(b)
	e.Check(err == nil && string(sm) == string(o[:]), "LoadSectorMap of a whole disk: %v", err)
	err = sm.Verify()
	e.Check((err == nil) == want, "Verify: %v, want valid=%v (edits %v)", err, want, c.Edits)
	seems := supermon.OperatorFactory{}.SeemsToMatch(append([]byte(nil), b...), 0)
	e.Check(seems == want, "SeemsToMatch is %v, want %v (edits %v)", seems, want, c.Edits)
	_, err = supermon.OperatorFactory{}.Operator(append([]byte(nil), b...), 0)
	e.Check((err == nil) == want, "opening the disk: %v, want success=%v (edits %v)", err, want, c.Edits)
	if len(c.Edits) > 0 {
		e.Nontrivial()
	}
	e.Label("accepted %v", want)

	before := append(supermon.SectorMap(nil), sm...)
	err = sm.SetFileForSector(c.Track, c.Sector, c.File)
	ok := c.Track < 35 && c.Sector < 16 && c.File != 0 && c.File < 0xFE
	e.Check((err == nil) == ok, "SetFileForSector(%d, %d, %02X): %v, want success=%v", c.Track, c.Sector, c.File, err, ok)
	if ok {
		before[int(c.Track)*16+int(c.Sector)] = c.File
	}
	e.Check(string(before) == string(sm), "SetFileForSector(%d, %d, %02X) left a different map", c.Track, c.Sector, c.File)
}
