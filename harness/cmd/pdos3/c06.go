package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zellyn/diskii/dos3"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type dfile struct {
	Name  []byte
	Type  byte // 00 01 02 04, or others for neighbours
	Lock  bool
	Len   int
	Seed  uint64
	Load  uint16
	Holes []int // sector numbers that are holes (text files)
	Zero  int   // trailing zero bytes inside a text file
	Del   bool
	Count uint16 // sector count shown in the catalog; 0 = the true one
	None  bool   // the catalog shows no sectors
}

type fileCase struct {
	Seed    uint64
	Scatter bool
	Chain   []img.TS
	Files   []dfile
	Order   string
	Ext     string
	Low     []byte // sectors of track 0 that hold data
	Junk    bool   // meaningless bytes of the lists are not zero
	Fill    bool   // rest of the last sector is garbage (length-declared files)
}

type builtFile struct {
	f      dfile
	name   string
	data   []byte // what retrieval must give
	stored []byte
	lists  int
}

func buildFiles(c fileCase) (image []byte, act, del []builtFile) {
	image = img.Bytes(c.Seed, img.Size)
	img.DosVTOC(image, c.Chain[0], 254, 1)
	ex := map[img.TS]bool{{T: 17, S: 0}: true}
	for _, ts := range c.Chain {
		ex[ts] = true
	}
	al := img.NewDosAlloc(c.Seed^99, c.Scatter, ex)
	for _, l := range c.Low {
		if ts := (img.TS{T: 0, S: l}); !ex[ts] {
			al.Low = append(al.Low, ts)
		}
	}
	if c.Junk {
		al.Junk = img.Bytes(c.Seed^7, 12)
	}
	names := map[string]bool{"": true}
	var slots [][]*img.DosEntry
	var row []*img.DosEntry
	for _, f := range c.Files {
		if len(slots) == len(c.Chain) {
			break
		}
		name := shown(f.Name)
		if names[name] {
			continue
		}
		content := img.Bytes(f.Seed, f.Len)
		raw := content
		var data []byte
		hs := map[int]bool{}
		for _, h := range f.Holes {
			hs[h] = true
		}
		hole := func(i int) bool { return hs[i] }
		fill := img.Bytes(f.Seed^1, 256)
		if !c.Fill {
			fill = nil
		}
		switch f.Type {
		case 0x00:
			for i := range raw {
				raw[i] |= 0x80
				if raw[i] == 0x8D && i%7 == 3 {
					raw[i] = 0
				}
			}
			for i := 0; i < f.Zero && i < len(raw); i++ {
				raw[len(raw)-1-i] = 0
			}
			fill = nil
		case 0x01, 0x02:
			hs[0] = false
			raw = append([]byte{byte(f.Len), byte(f.Len >> 8)}, content...)
		case 0x04:
			raw = append([]byte{byte(f.Load), byte(f.Load >> 8), byte(f.Len), byte(f.Len >> 8)}, content...)
			hs[0] = false
		}
		if f.Type != 0 {
			hs[(len(raw)+255)/256-1] = false // a hole at the end cannot be told from the end
		}
		if img.DosNeed(raw) > al.Left() {
			continue
		}
		list, stored := img.PutDosFile(image, al, raw, fill, hole)
		switch f.Type {
		case 0:
			data = bytes.TrimRight(stored, "\x00")
		case 1, 2:
			data = stored[2 : 2+f.Len]
		case 4:
			data = stored[4 : 4+f.Len]
		}
		count := f.Count
		if count == 0 {
			count = uint16(img.DosNeed(raw))
		}
		if f.None {
			count = 0
		}
		en := &img.DosEntry{Kind: "active", Name: f.Name, Type: f.Type, Lock: f.Lock, Count: count, List: list}
		b := builtFile{f: f, name: name, data: data, stored: stored, lists: (len(stored)/256 + 121) / 122}
		if f.Del {
			en.Kind = "deleted"
			del = append(del, b)
		} else {
			names[name] = true
			act = append(act, b)
		}
		row = append(row, en)
		if len(row) == 7 || (f.Seed&3 == 0) {
			slots = append(slots, row)
			row = nil
		}
	}
	if len(row) > 0 && len(slots) < len(c.Chain) {
		slots = append(slots, row)
	} else if len(row) > 0 {
		// No room in the catalog for the last row: they do not exist.
		for _, en := range row {
			for i := range act {
				if act[i].name == shown(en.Name) && en.Kind == "active" {
					act = append(act[:i], act[i+1:]...)
					break
				}
			}
			for i := range del {
				if del[i].name == shown(en.Name) && en.Kind == "deleted" {
					del = append(del[:i], del[i+1:]...)
					break
				}
			}
		}
	}
	img.DosCatalog(image, c.Chain, slots)
	return
}

func validFiles(c fileCase) bool {
	if !validCat(catCase{Chain: c.Chain, Dir: 1}) {
		return false
	}
	for _, f := range c.Files {
		if _, ok := typeFor[f.Type]; !ok || f.Len < 0 || f.Len > 140000 || (f.Type != 0 && f.Len > 65535) || len(f.Name) == 0 || len(f.Name) > 30 || f.Zero < 0 {
			return false
		}
	}
	low := map[byte]bool{}
	for _, l := range c.Low {
		if l < 1 || l > 15 || low[l] {
			return false
		}
		low[l] = true
	}
	return true
}

func drawLen(t *rapid.T) int {
	return rapid.OneOf(rapid.SampledFrom([]int{0, 1, 251, 252, 253, 254, 255, 256, 257, 508, 511, 512, 513, 31228, 31229, 31230, 31231, 31232, 31233, 31488, 62464, 62465, 65535}),
		rapid.IntRange(0, 3000), rapid.IntRange(0, 65535)).Draw(t, "len")
}

func drawDFile(t *rapid.T) dfile {
	f := dfile{
		Name: drawName(t), Lock: rapid.Bool().Draw(t, "lock"), Len: drawLen(t), Seed: rapid.Uint64().Draw(t, "seed"),
		Type: rapid.SampledFrom([]byte{0, 0, 1, 2, 4, 4, 4, 8, 0x10, 0x40}).Draw(t, "type"), Load: rapid.Uint16().Draw(t, "load"),
		Del: rapid.IntRange(0, 5).Draw(t, "del") == 0,
	}
	if f.Type == 0 && rapid.IntRange(0, 15).Draw(t, "long") == 0 {
		f.Len = rapid.OneOf(rapid.IntRange(65536, 138000), rapid.SampledFrom([]int{93696, 93697, 124928, 124929, 131072})).Draw(t, "longlen")
	}
	n := (f.Len + 255) / 256
	if f.Type != 0 && n > 1 && rapid.IntRange(0, 5).Draw(t, "sparse") == 0 {
		f.Holes = rapid.SliceOfN(rapid.IntRange(1, n), 0, 4).Draw(t, "holes")
	}
	if f.Type == 0 {
		if n > 0 {
			f.Holes = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 6).Draw(t, "holes")
			if rapid.IntRange(0, 5).Draw(t, "many") == 0 {
				for i := 0; i < n-1; i++ {
					if i%3 != 0 {
						f.Holes = append(f.Holes, i)
					}
				}
			}
		}
		f.Zero = rapid.SampledFrom([]int{0, 0, 0, 1, 255, 256, 300, 70000}).Draw(t, "zero")
	}
	if rapid.IntRange(0, 4).Draw(t, "lie") == 0 {
		f.Count = rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{1, 2, 3, 255, 256, 65535})).Draw(t, "count")
		f.None = rapid.IntRange(0, 2).Draw(t, "none") == 0
	}
	return f
}

func drawFiles(t *rapid.T, max int) fileCase {
	c := fileCase{Seed: rapid.Uint64().Draw(t, "seed"), Scatter: rapid.Bool().Draw(t, "scatter"), Chain: drawChain(t, 6),
		Order: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "order"), Fill: rapid.Bool().Draw(t, "fill"),
		Files: rapid.SliceOfN(rapid.Custom(drawDFile), 1, max).Draw(t, "files"),
	}
	if rapid.IntRange(0, 7).Draw(t, "low") == 0 {
		c.Low = rapid.SliceOfNDistinct(rapid.ByteRange(1, 15), 1, 4, rapid.ID[byte]).Draw(t, "lows")
	}
	c.Junk = rapid.IntRange(0, 3).Draw(t, "junk") == 0
	if c.Order == "po" {
		c.Ext = ".po"
	} else {
		c.Ext = rapid.SampledFrom([]string{".do", ".dsk", ""}).Draw(t, "ext")
	}
	return c
}

func fileLabels(e *fw.Env, act []builtFile) {
	for _, b := range act {
		holes := bytes.Contains(b.stored, make([]byte, 256))
		e.Label("type=%02X lists=%d holes=%v empty=%v", b.f.Type, b.lists, holes, len(b.data) == 0)
		if len(b.data) > 256 || holes || len(b.data) == 0 {
			e.Nontrivial()
		}
	}
}

func init() {
	fw.Rule("C06", "Drawn: DOS 3.3 images with up to 8 files of all types, 0 to 65,535 bytes (text up to 138,000; track/sector-list and sector boundaries favoured), sectors in order or scattered over the whole disk, text files with holes and trailing zeros, wrong catalog counts, deleted neighbours. Oracle: the bytes the files were built from. Non-trivial: a case with a file that is empty, has a hole, or spans several sectors; distinct by case.",
		"Length-declared files contain their declared length; names are unique and non-empty; the statement does not cover S, R, A and B files.")
	fw.Draw("C06", "getfile", 12000, 200000, func(t *rapid.T) fileCase { return drawFiles(t, 8) }, func(e *fw.Env, c fileCase) {
		if !validFiles(c) {
			return
		}
		image, act, del := buildFiles(c)
		reuse(e, image, c.Seed)
		keep := append([]byte{}, image...)
		op, err := dos3.OperatorFactory{}.Operator(image, 0)
		e.Check(err == nil, "cannot open: %v", err)
		files, _, err := dos3.ReadCatalog(image, 0)
		e.Check(err == nil && len(files) == len(act), "catalog: %d files, err %v; want %d files", len(files), err, len(act))
		known := map[string]bool{}
		for i, b := range act {
			known[b.name] = true
			e.Check(files[i].FilenameString() == b.name, "file %d is named %q, want %q", i, files[i].FilenameString(), b.name)
			if b.f.Type > 4 {
				_, _ = op.GetFile(b.name) // not covered, must not crash
				continue
			}
			what := fmt.Sprintf("%q (type %02X, %d bytes)", b.name, b.f.Type, b.f.Len)
			fi, err := op.GetFile(b.name)
			e.Check(err == nil, "GetFile %s: %v", what, err)
			e.Check(bytes.Equal(fi.Data, b.data), "GetFile %s: %s", what, cli.Diff(b.data, fi.Data))
			e.Check(fi.Descriptor.Name == b.name && fi.Descriptor.Length == len(b.data) && fi.Descriptor.Locked == b.f.Lock && fi.Descriptor.Type == typeFor[b.f.Type],
				"GetFile %s: descriptor %+v", what, fi.Descriptor)
			if b.f.Type == 4 {
				e.Check(fi.StartAddress == b.f.Load, "GetFile %s: load address %04X, want %04X", what, fi.StartAddress, b.f.Load)
			}
			if b.f.Type == 2 {
				e.Check(fi.StartAddress == 0x801, "GetFile %s: load address %04X, want 0801", what, fi.StartAddress)
			}
			cont, err := files[i].Contents(image)
			e.Check(err == nil, "Contents %s: %v", what, err)
			want := bytes.TrimRight(b.stored, "\x00")
			e.Check(len(cont) >= len(want) && bytes.Equal(cont[:len(want)], want) && len(bytes.TrimRight(cont[len(want):], "\x00")) == 0, "Contents %s: %s", what, cli.Diff(want, cont))
		}
		absent := func(n string) {
			if known[n] || n == "" {
				return
			}
			_, err := op.GetFile(n)
			e.Check(err != nil, "GetFile of %q, which no active file has, succeeded", n)
		}
		for _, b := range act {
			absent(b.name + "X")
			absent(b.name[:len(b.name)-1])
			absent(strings.ToLower(b.name))
			absent(b.name + " ")
		}
		for _, b := range del {
			absent(b.name)
			if len(b.name) > 29 {
				absent(b.name[:29])
			}
		}
		e.Check(bytes.Equal(op.GetBytes(), keep), "reading files changed the image: %s", cli.Diff(keep, op.GetBytes()))
		fileLabels(e, act)
	})
	fw.Draw("C06", "dump", 1200, 15000, func(t *rapid.T) fileCase { return drawFiles(t, 4) }, func(e *fw.Env, c fileCase) {
		if !validFiles(c) || (c.Order != "do" && c.Order != "po") {
			return
		}
		image, act, del := buildFiles(c)
		d := e.Dir()
		cli.Write(d, "disk"+c.Ext, img.Reorder(image, "do", c.Order))
		was := cli.Snapshot(d)
		known := map[string]bool{}
		for _, b := range act {
			known[b.name] = true
			if b.f.Type > 4 || strings.ContainsRune(b.name, 0) {
				continue
			}
			args := []string{"dump", "--", "disk" + c.Ext, b.name}
			r := cli.RunV(e, d, args).OK(e)
			e.Check(bytes.Equal(r.Out, b.data), "%q: %s", args, cli.Diff(b.data, r.Out))
		}
		absent := func(n string) {
			if !known[n] && !strings.ContainsRune(n, 0) && n != "" {
				cli.RunV(e, d, []string{"dump", "--", "disk" + c.Ext, n}).Refused(e)
			}
		}
		for _, b := range del {
			absent(b.name)
		}
		if len(act) > 0 {
			n := act[c.Seed%uint64(len(act))].name
			absent(n + []string{"X", " ", ".", ",D1", strings.Repeat("X", 30)}[c.Seed/7%5])
		}
		cli.Unchanged(e, d, was, "dump")
		fileLabels(e, act)
	})
}
