package main

import (
	"bytes"
	"fmt"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/prodos"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type memOp struct {
	Kind   string // rs ws ms us mb ub; ds and pb: through a structure of dos3 or prodos
	T, S   byte
	Block  uint16
	T2, S2 byte // where ds and pb move the structure
	Block2 uint16
	Seed   uint64
	Len    int  // length of the data, for ws and ms
	Fail   bool // source or sink fails
}

type memCase struct {
	Size int
	Seed uint64
	Ops  []memOp
}

type secSrc struct {
	t, s byte
	data []byte
	err  error
}

func (s *secSrc) ToSector() ([]byte, error) { return s.data, s.err }
func (s *secSrc) GetTrack() byte            { return s.t }
func (s *secSrc) GetSector() byte           { return s.s }

type secSink struct {
	t, s int
	data []byte
	err  error
}

func (s *secSink) FromSector(b []byte) error { s.data = append([]byte{}, b...); return s.err }
func (s *secSink) SetTrack(t byte)           { s.t = int(t) }
func (s *secSink) SetSector(v byte)          { s.s = int(v) }

type blkSrc struct {
	i   uint16
	b   disk.Block
	err error
}

func (s *blkSrc) ToBlock() (disk.Block, error) { return s.b, s.err }
func (s *blkSrc) GetBlock() uint16             { return s.i }

type blkSink struct {
	i   int
	b   disk.Block
	err error
}

func (s *blkSink) FromBlock(b disk.Block) error { s.b = b; return s.err }
func (s *blkSink) SetBlock(i uint16)            { s.i = int(i) }

func init() {
	fw.Rule("C24", "Drawn: an image size (floppy, partial tracks, odd sizes, large devices) and a history of sector and block reads and writes, direct and through structures (stand-ins and those of dos3 and prodos, which are also moved), with any track, sector and block number (biased to the last that fits and the first that does not), wrong data lengths and failing structures. Oracle: a byte array; a guard area beyond the image. Non-trivial: at least one successful write and one later read, or a refused access; distinct by case.",
		"Sector numbers above 15 are outside the format: for them either a refusal without change or access at track*4096+sector*256 is accepted.")
	fw.Draw("C24", "history", 20000, 300000, func(t *rapid.T) memCase {
		c := memCase{Seed: rapid.Uint64().Draw(t, "seed")}
		c.Size = rapid.OneOf(rapid.Just(img.Size), rapid.IntRange(0, 9000), rapid.Map(rapid.IntRange(0, 40), func(n int) int { return n * 4096 }),
			rapid.Map(rapid.IntRange(0, 600), func(n int) int { return n * 256 }), rapid.Map(rapid.IntRange(0, 300), func(n int) int { return n*512 + 1 }),
			rapid.Map(rapid.IntRange(0, 300), func(n int) int { return n*512 - n%2 })).Draw(t, "size")
		if c.Size < 0 {
			c.Size = 0
		}
		if rapid.IntRange(0, 60).Draw(t, "huge") == 0 {
			c.Size = rapid.SampledFrom([]int{1 << 20, 256 * 4096, 256*4096 + 255, 65536*512 - 512, 33000 * 512}).Draw(t, "hs")
		}
		last := c.Size / 256
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) memOp {
			o := memOp{Kind: rapid.SampledFrom([]string{"rs", "ws", "ws", "ms", "us", "mb", "mb", "ub", "ds", "pb"}).Draw(t, "kind"), Seed: rapid.Uint64().Draw(t, "seed"), Len: 256}
			n := last + rapid.IntRange(-3, 2).Draw(t, "near")
			if n < 0 || n > 4095 {
				n = 0
			}
			switch rapid.IntRange(0, 3).Draw(t, "where") {
			case 0:
				o.T, o.S, o.Block = byte(n/16), byte(n%16), uint16(n/2)
			case 1:
				o.T, o.S, o.Block = rapid.Byte().Draw(t, "t"), rapid.Byte().Draw(t, "s"), rapid.Uint16().Draw(t, "b")
			default:
				o.T, o.S = byte(rapid.IntRange(0, max(0, last/16)%256).Draw(t, "t")), byte(rapid.IntRange(0, 15).Draw(t, "s"))
				o.Block = uint16(rapid.IntRange(0, min(65535, max(0, last/2))).Draw(t, "b"))
			}
			n = rapid.IntRange(0, min(4095, last+1)).Draw(t, "to")
			o.T2, o.S2, o.Block2 = byte(n/16), byte(n%16), uint16(n/2)
			if rapid.IntRange(0, 9).Draw(t, "badlen") == 0 {
				o.Len = rapid.SampledFrom([]int{0, 1, 255, 257, 512, 128}).Draw(t, "len")
			}
			o.Fail = rapid.IntRange(0, 12).Draw(t, "fail") == 0
			return o
		}), 1, 25).Draw(t, "ops")
		return c
	}, runMem)
}

func runMem(e *fw.Env, c memCase) {
	if c.Size < 0 || c.Size > 40<<20 {
		return
	}
	const guard = 8192
	buf := img.Bytes(c.Seed, c.Size+guard)
	image := buf[:c.Size] // capacity reaches into the guard area
	model := append([]byte{}, buf...)
	wrote, nt := false, false
	fail := fmt.Errorf("stand-in failure")
	for i, o := range c.Ops {
		so := int(o.T)*4096 + int(o.S)*256
		bo := int(o.Block) * 512
		if o.Len < 0 || o.Len > 100000 {
			return
		}
		data := img.Bytes(o.Seed, o.Len)
		keep := append([]byte{}, data...)
		sfit, bfit := so+256 <= c.Size, bo+512 <= c.Size
		loose := o.S > 15 // not a sector of the format
		var ferr error
		if o.Fail {
			ferr = fail
		}
		what := fmt.Sprintf("op %d %s track %d sector %d block %d", i, o.Kind, o.T, o.S, o.Block)
		verdict := func(err error, ok bool) bool {
			if loose && ok && err != nil {
				return false
			}
			e.Check((err == nil) == ok, "%s: err=%v, want success=%v (image of %d bytes)", what, err, ok, c.Size)
			if !ok {
				nt = true
			}
			return ok
		}
		switch o.Kind {
		case "rs":
			got, err := disk.ReadSector(image, o.T, o.S)
			if verdict(err, sfit) {
				e.Check(bytes.Equal(got, model[so:so+256]), "%s: %s", what, cli.Diff(model[so:so+256], got))
				for k := range got {
					got[k] ^= 0xFF // a copy: must not reach the image
				}
				nt = nt || wrote
			}
		case "ws":
			err := disk.WriteSector(image, o.T, o.S, data)
			if verdict(err, sfit && o.Len == 256) {
				copy(model[so:], keep)
				wrote = true
			}
			e.Check(bytes.Equal(data, keep), "%s: changed its data argument", what)
		case "ms":
			err := disk.MarshalLogicalSector(image, &secSrc{o.T, o.S, data, ferr})
			if verdict(err, sfit && o.Len == 256 && !o.Fail) {
				copy(model[so:], keep)
				wrote = true
			}
		case "us":
			k := &secSink{-1, -1, nil, ferr}
			err := disk.UnmarshalLogicalSector(image, k, o.T, o.S)
			if verdict(err, sfit && !o.Fail) {
				e.Check(k.t == int(o.T) && k.s == int(o.S), "%s: structure says it came from track %d sector %d", what, k.t, k.s)
				e.Check(bytes.Equal(k.data, model[so:so+256]), "%s: %s", what, cli.Diff(model[so:so+256], k.data))
				nt = nt || wrote
			}
		case "mb":
			loose = false
			var b disk.Block
			copy(b[:], img.Bytes(o.Seed, 512))
			err := disk.MarshalBlock(image, &blkSrc{o.Block, b, ferr})
			if verdict(err, bfit && !o.Fail) {
				copy(model[bo:], b[:])
				wrote = true
			}
		case "ub":
			loose = false
			k := &blkSink{-1, disk.Block{}, ferr}
			err := disk.UnmarshalBlock(image, k, o.Block)
			if verdict(err, bfit && !o.Fail) {
				e.Check(k.i == int(o.Block), "%s: structure says it came from block %d", what, k.i)
				e.Check(bytes.Equal(k.b[:], model[bo:bo+512]), "%s: %s", what, cli.Diff(model[bo:bo+512], k.b[:]))
				nt = nt || wrote
			}
		case "ds":
			type both interface {
				disk.SectorSource
				disk.SectorSink
			}
			k := []both{&dos3.VTOC{}, &dos3.CatalogSector{}, &dos3.TrackSectorList{}}[o.Seed%3]
			if verdict(disk.UnmarshalLogicalSector(image, k, o.T, o.S), sfit) {
				e.Check(k.GetTrack() == o.T && k.GetSector() == o.S, "%s: %T says it came from track %d sector %d", what, k, k.GetTrack(), k.GetSector())
				if o.Len != 256 {
					e.Check(disk.MarshalLogicalSector(image, k) == nil, "%s: %T cannot be written back", what, k)
				} else { // move it
					t2, s2 := o.T2, o.S2%16
					k.SetTrack(t2)
					k.SetSector(s2)
					so2 := int(t2)*4096 + int(s2)*256
					loose = false
					if verdict(disk.MarshalLogicalSector(image, k), so2+256 <= c.Size) {
						copy(model[so2:so2+256], model[so:so+256])
						wrote = true
					}
				}
				nt = true
			}
		case "pb":
			type both interface {
				disk.BlockSource
				disk.BlockSink
			}
			loose = false
			k := []both{&prodos.VolumeDirectoryKeyBlock{}, &prodos.VolumeDirectoryBlock{}, &prodos.SubdirectoryKeyBlock{}, &prodos.SubdirectoryBlock{}}[o.Seed%4]
			if verdict(disk.UnmarshalBlock(image, k, o.Block), bfit) {
				e.Check(k.GetBlock() == o.Block, "%s: %T says it came from block %d", what, k, k.GetBlock())
				if o.Len != 256 {
					e.Check(disk.MarshalBlock(image, k) == nil, "%s: %T cannot be written back", what, k)
				} else {
					k.SetBlock(o.Block2)
					bo2 := int(o.Block2) * 512
					if verdict(disk.MarshalBlock(image, k), bo2+512 <= c.Size) {
						copy(model[bo2:bo2+512], model[bo:bo+512])
						wrote = true
					}
				}
				nt = true
			}
		default:
			return
		}
		if c.Size < 1<<19 || i == len(c.Ops)-1 {
			e.Check(bytes.Equal(buf, model), "%s: image (%d bytes, then guard): %s", what, c.Size, cli.Diff(model, buf))
		}
		e.Label("%s fits=%v", o.Kind, map[bool]bool{true: bfit, false: sfit}[o.Kind == "mb" || o.Kind == "ub" || o.Kind == "pb"])
	}
	if nt {
		e.Nontrivial()
	}
}
