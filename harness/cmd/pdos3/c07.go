package main

import (
	"bytes"

	"github.com/zellyn/diskii/dos3"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type codecCase struct {
	Kind  string // vtoc cat tsl
	Data  []byte
	Dirty uint64 // previous content of the structure
}

type vtocCase struct {
	Base []byte // free map and unused bytes
	Edit []struct {
		Off int
		Val byte
	}
}

func drawSector(t *rapid.T) []byte {
	if rapid.Bool().Draw(t, "sparse") {
		b := bytes.Repeat([]byte{rapid.SampledFrom([]byte{0, 0xFF}).Draw(t, "bg")}, 256)
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			b[rapid.IntRange(0, 255).Draw(t, "off")] = rapid.Byte().Draw(t, "val")
		}
		return b
	}
	return rapid.SliceOfN(rapid.Byte(), 256, 256).Draw(t, "data")
}

type sector interface {
	FromSector([]byte) error
	ToSector() ([]byte, error)
}

func init() {
	fw.Rule("C07", "Drawn: 256-byte sectors (random and sparse) decoded as VTOC, catalog sector and track/sector list into a structure that held other data before; wrong lengths; VTOCs with legal and illegal fields; every track and sector of the free map. Oracle: byte offsets and bit positions from the DOS 3.3 description. Non-trivial: every sector that is not all equal bytes, every VTOC with at least one edited field; distinct by case.",
		"IsFree is only asked about sectors 0-15: the comment and the code disagree about larger numbers.")
	fw.Draw("C07", "codec", 150000, 2000000, func(t *rapid.T) codecCase {
		return codecCase{rapid.SampledFrom([]string{"vtoc", "cat", "tsl"}).Draw(t, "kind"), drawSector(t), rapid.Uint64().Draw(t, "dirty")}
	}, runCodec)

	type lenCase struct {
		Kind string
		Len  int
	}
	fw.Draw("C07", "length", 3000, 20000, func(t *rapid.T) lenCase {
		return lenCase{rapid.SampledFrom([]string{"vtoc", "cat", "tsl"}).Draw(t, "kind"), rapid.OneOf(rapid.IntRange(0, 600), rapid.SampledFrom([]int{0, 255, 257, 512, 1})).Draw(t, "len")}
	}, func(e *fw.Env, c lenCase) {
		if c.Len < 0 || c.Len > 1<<20 {
			return
		}
		s := newSector(c.Kind)
		if s == nil {
			return
		}
		err := s.FromSector(img.Bytes(5, c.Len))
		e.Check((err == nil) == (c.Len == 256), "%s.FromSector of %d bytes: err=%v", c.Kind, c.Len, err)
		if c.Len != 256 {
			e.Nontrivial()
		}
	})

	fw.Draw("C07", "validate", 100000, 1500000, func(t *rapid.T) vtocCase {
		c := vtocCase{Base: make([]byte, 256)}
		copy(c.Base, img.Bytes(rapid.Uint64().Draw(t, "seed"), 256))
		fields := []int{1, 2, 3, 3, 6, 6, 0x27, 0x27, 0x30, 0x31, 0x31, 0x34, 0x34, 0x35, 0x35, 0x36, 0x37, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0xFE, 0xFF, 0xC2, 0xC3, 0xC6, 0xC7, 0, 0x28}
		n := rapid.IntRange(0, 3).Draw(t, "n")
		for i := 0; i < n; i++ {
			off := rapid.OneOf(rapid.SampledFrom(fields), rapid.IntRange(0, 255)).Draw(t, "off")
			val := rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 12, 13, 14, 15, 16, 17, 34, 35, 36, 121, 122, 123, 254, 255, 127, 128}), rapid.Byte()).Draw(t, "val")
			c.Edit = append(c.Edit, struct {
				Off int
				Val byte
			}{off, val})
		}
		return c
	}, func(e *fw.Env, c vtocCase) {
		if len(c.Base) != 256 {
			return
		}
		v := append([]byte{}, c.Base...)
		v[3], v[6], v[0x27], v[0x31], v[0x34], v[0x35], v[0x36], v[0x37] = 3, 254, 122, 1, 35, 16, 0, 1
		for i := 0; i < 50; i++ {
			v[0x38+4*i+2], v[0x38+4*i+3] = 0, 0
		}
		for _, ed := range c.Edit {
			if ed.Off < 0 || ed.Off > 255 {
				return
			}
			v[ed.Off] = ed.Val
			e.Nontrivial()
		}
		ok := v[3] == 3 && v[6] != 255 && v[0x27] == 122 && (v[0x31] == 1 || v[0x31] == 255) && v[0x34] == 35 && (v[0x35] == 13 || v[0x35] == 16) && v[0x36] == 0 && v[0x37] == 1
		for i := 0; i < 50; i++ {
			ok = ok && v[0x38+4*i+2] == 0 && v[0x38+4*i+3] == 0
		}
		s := &dos3.VTOC{}
		e.Check(s.FromSector(v) == nil, "FromSector refused 256 bytes")
		err := s.Validate()
		e.Check((err == nil) == ok, "Validate: %v, want valid=%v (edits %v)", err, ok, c.Edit)
		e.Label("valid=%v", ok)
	})

	type freeCase struct{ T, S int }
	fw.Enum("C07", "freemap", func(_ string, yield func(freeCase) bool) {
		for tr := 0; tr < 50; tr++ {
			for s := 0; s < 16; s++ {
				if !yield(freeCase{tr, s}) {
					return
				}
			}
		}
	}, func(e *fw.Env, c freeCase) {
		if c.T < 0 || c.T > 49 || c.S < 0 || c.S > 15 {
			return
		}
		for _, inv := range []byte{0, 0xFF} {
			v := bytes.Repeat([]byte{inv}, 256)
			byteOff, bit := 0x38+4*c.T, c.S-8
			if c.S < 8 {
				byteOff, bit = byteOff+1, c.S
			}
			v[byteOff] ^= 1 << bit
			s := &dos3.VTOC{}
			e.Check(s.FromSector(v) == nil, "FromSector refused 256 bytes")
			for tr := 0; tr < 50; tr++ {
				for sec := 0; sec < 16; sec++ {
					want := (inv != 0) != (tr == c.T && sec == c.S)
					e.Check(s.FreeSectors[tr].IsFree(byte(sec)) == want, "only %d/%d differs: IsFree(%d/%d)=%v", c.T, c.S, tr, sec, !want)
				}
			}
		}
		e.Nontrivial()
	})
	type def struct{}
	fw.Enum("C07", "default", func(_ string, yield func(def) bool) { yield(def{}) }, func(e *fw.Env, _ def) {
		v := dos3.DefaultVTOC()
		e.Check(v.Validate() == nil, "DefaultVTOC is not valid: %v", v.Validate())
		for tr := 0; tr < 35; tr++ {
			for s := 0; s < 16; s++ {
				e.Check(v.FreeSectors[tr].IsFree(byte(s)), "DefaultVTOC: %d/%d is not free", tr, s)
			}
		}
		b, err := v.ToSector()
		e.Check(err == nil && len(b) == 256, "DefaultVTOC does not encode: %v", err)
		e.Check(b[1] == 17 && b[2] == 15, "DefaultVTOC: catalog at %d/%d", b[1], b[2])
		e.Nontrivial()
	})
}

func newSector(kind string) sector {
	switch kind {
	case "vtoc":
		return &dos3.VTOC{}
	case "cat":
		return &dos3.CatalogSector{}
	case "tsl":
		return &dos3.TrackSectorList{}
	}
	return nil
}

func runCodec(e *fw.Env, c codecCase) {
	s := newSector(c.Kind)
	if s == nil || len(c.Data) != 256 {
		return
	}
	d := append([]byte{}, c.Data...)
	e.Check(s.FromSector(img.Bytes(c.Dirty, 256)) == nil, "FromSector refused 256 bytes")
	e.Check(s.FromSector(d) == nil, "FromSector refused 256 bytes")
	u16 := func(i int) uint16 { return uint16(d[i]) | uint16(d[i+1])<<8 }
	eq := func(field string, got, want any) {
		e.Check(got == want, "%s.%s is %v, stored %v", c.Kind, field, got, want)
	}
	switch x := s.(type) {
	case *dos3.VTOC:
		eq("CatalogTrack", x.CatalogTrack, d[1])
		eq("CatalogSector", x.CatalogSector, d[2])
		eq("DOSRelease", x.DOSRelease, d[3])
		eq("Volume", x.Volume, d[6])
		eq("TrackSectorListMaxSize", x.TrackSectorListMaxSize, d[0x27])
		eq("LastTrack", x.LastTrack, d[0x30])
		eq("TrackDirection", x.TrackDirection, int8(d[0x31]))
		eq("NumTracks", x.NumTracks, d[0x34])
		eq("NumSectors", x.NumSectors, d[0x35])
		eq("BytesPerSector", x.BytesPerSector, u16(0x36))
		for tr := 0; tr < 50; tr++ {
			o := 0x38 + 4*tr
			for sec := 0; sec < 16; sec++ {
				b := d[o]
				if sec < 8 {
					b = d[o+1]
				}
				if got := x.FreeSectors[tr].IsFree(byte(sec)); got != (b>>(sec%8)&1 == 1) {
					e.Failf("IsFree(%d/%d)=%v, map bytes %02X %02X", tr, sec, got, d[o], d[o+1])
				}
			}
			eq("UnusedClear", x.FreeSectors[tr].UnusedClear(), d[o+2] == 0 && d[o+3] == 0)
		}
	case *dos3.CatalogSector:
		eq("NextTrack", x.NextTrack, d[1])
		eq("NextSector", x.NextSector, d[2])
		for i := range x.FileDescs {
			f, o := &x.FileDescs[i], 11+35*i
			eq("TrackSectorListTrack", f.TrackSectorListTrack, d[o])
			eq("TrackSectorListSector", f.TrackSectorListSector, d[o+1])
			eq("Filetype", byte(f.Filetype), d[o+2])
			e.Check(bytes.Equal(f.Filename[:], d[o+3:o+33]), "file name of entry %d: %s", i, cli.Diff(d[o+3:o+33], f.Filename[:]))
			eq("SectorCount", f.SectorCount, u16(o+33))
			want := dos3.FileDescStatusNormal
			if d[o] == 0 {
				want = dos3.FileDescStatusUnused
			} else if d[o] == 0xFF {
				want = dos3.FileDescStatusDeleted
			}
			eq("Status", f.Status(), want)
			e.Check(bytes.Equal(f.ToBytes(), d[o:o+35]), "entry %d encodes differently: %s", i, cli.Diff(d[o:o+35], f.ToBytes()))
		}
	case *dos3.TrackSectorList:
		eq("NextTrack", x.NextTrack, d[1])
		eq("NextSector", x.NextSector, d[2])
		eq("SectorOffset", x.SectorOffset, u16(5))
		for i, ts := range x.TrackSectors {
			eq("TrackSectors.Track", ts.Track, d[12+2*i])
			eq("TrackSectors.Sector", ts.Sector, d[13+2*i])
		}
	}
	e.Check(bytes.Equal(d, c.Data), "FromSector changed its argument")
	out, err := s.ToSector()
	e.Check(err == nil, "%s.ToSector: %v", c.Kind, err)
	e.Check(bytes.Equal(out, c.Data), "%s encodes differently: %s", c.Kind, cli.Diff(c.Data, out))
	e.Nontrivial()
	e.Label("%s", c.Kind)
}
