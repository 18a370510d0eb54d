package main

import (
	"bytes"

	"github.com/zellyn/diskii/dos3"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type overCase struct {
	Type     byte
	Sectors  int // sectors the file really has
	Declared int
	Seed     uint64
}

// A file cannot be longer than its sectors: declared lengths around the end.
func init() {
	fw.Draw("C06", "declared-length", 10000, 150000, func(t *rapid.T) overCase {
		c := overCase{Type: rapid.SampledFrom([]byte{1, 2, 4}).Draw(t, "type"), Sectors: rapid.OneOf(rapid.IntRange(1, 4), rapid.SampledFrom([]int{121, 122, 123, 243, 244, 245})).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed")}
		c.Declared = rapid.OneOf(rapid.Map(rapid.IntRange(-6, 300), func(d int) int { return c.Sectors*256 + d }), rapid.IntRange(0, 65535)).Draw(t, "declared")
		c.Declared = min(max(c.Declared, 0), 65535)
		return c
	}, func(e *fw.Env, c overCase) {
		if c.Sectors < 1 || c.Sectors > 300 || c.Declared < 0 || c.Declared > 65535 || (c.Type != 1 && c.Type != 2 && c.Type != 4) {
			return
		}
		image := img.Bytes(c.Seed, img.Size)
		cat := img.TS{T: 17, S: 15}
		img.DosVTOC(image, cat, 1, 1)
		raw := img.Bytes(c.Seed^5, c.Sectors*256)
		hdr := 2
		if c.Type == 4 {
			hdr = 4
		}
		raw[hdr-2], raw[hdr-1] = byte(c.Declared), byte(c.Declared>>8)
		al := img.NewDosAlloc(c.Seed, true, map[img.TS]bool{{T: 17, S: 0}: true, cat: true})
		list, _ := img.PutDosFile(image, al, raw, nil, nil)
		img.DosCatalog(image, []img.TS{cat}, [][]*img.DosEntry{{{Kind: "active", Name: []byte("F"), Type: c.Type, Count: []uint16{5, 0, uint16(c.Sectors + 1), 1, 65535}[c.Seed%5], List: list}}})
		reuse(e, image, c.Seed)
		op, err := dos3.OperatorFactory{}.Operator(image, 0)
		e.Check(err == nil, "cannot open: %v", err)
		fi, err := op.GetFile("F")
		fits := hdr+c.Declared <= len(raw)
		e.Check((err == nil) == fits, "file of %d sectors declaring %d bytes: err=%v, got %d bytes", c.Sectors, c.Declared, err, len(fi.Data))
		if fits {
			want := raw[hdr : hdr+c.Declared]
			e.Check(bytes.Equal(fi.Data, want), "%s", cli.Diff(want, fi.Data))
		}
		e.Label("fits=%v", fits)
		e.Nontrivial()
	})
}
