package main

import (
	"bytes"
	"strings"

	"github.com/zellyn/diskii/dos3"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type entry struct {
	Kind  string // unused unused0 deleted active
	Name  []byte
	Type  byte
	Lock  bool
	Count uint16
	List  img.TS
}

type catCase struct {
	Seed   uint64 // content of the rest of the disk
	Volume byte
	Dir    byte
	Chain  []img.TS
	Slots  [][]entry
	Order  string // of the file, for the command
	Ext    string
}

var dosTypes = []byte{0x00, 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40}

var typeFor = map[byte]types.Filetype{
	0x00: types.FiletypeASCIIText, 0x01: types.FiletypeIntegerBASIC, 0x02: types.FiletypeApplesoftBASIC, 0x04: types.FiletypeBinary,
	0x08: types.FiletypeS, 0x10: types.FiletypeRelocatable, 0x20: types.FiletypeNewA, 0x40: types.FiletypeNewB,
}

func drawName(t *rapid.T) []byte {
	ch := rapid.OneOf(rapid.ByteRange('A', 'Z'), rapid.ByteRange(' ', '_'), rapid.ByteRange(0x00, 0x7F))
	return rapid.SliceOfN(ch, 1, 30).Draw(t, "name")
}

func drawTS(t *rapid.T) img.TS {
	return img.TS{T: byte(rapid.IntRange(1, 34).Draw(t, "t")), S: byte(rapid.IntRange(0, 15).Draw(t, "s"))}
}

func drawEntry(t *rapid.T) entry {
	return entry{
		Kind:  rapid.SampledFrom([]string{"active", "active", "active", "deleted", "unused", "unused0"}).Draw(t, "kind"),
		Name:  drawName(t),
		Type:  rapid.SampledFrom(dosTypes).Draw(t, "type"),
		Lock:  rapid.Bool().Draw(t, "lock"),
		Count: uint16(rapid.OneOf(rapid.IntRange(0, 600), rapid.IntRange(0, 65535)).Draw(t, "count")),
		List:  drawTS(t),
	}
}

func drawChain(t *rapid.T, maxLen int) []img.TS {
	n := rapid.IntRange(1, maxLen).Draw(t, "chainlen")
	if rapid.Bool().Draw(t, "standard") && n <= 15 {
		var c []img.TS
		for s := 15; s > 15-n; s-- {
			c = append(c, img.TS{T: 17, S: byte(s)})
		}
		return c
	}
	// Anywhere: a drawn start and stride over all sectors but the VTOC and 0/0.
	all := make([]img.TS, 0, 558)
	for i := 1; i < 560; i++ {
		if i != 17*16 {
			all = append(all, img.TS{T: byte(i / 16), S: byte(i % 16)})
		}
	}
	start := rapid.IntRange(0, len(all)-1).Draw(t, "start")
	stride := rapid.SampledFrom([]int{1, 5, 7, 11, 16 + 1, 101, 557, 541}).Draw(t, "stride") // all coprime to 558 or 1
	var c []img.TS
	used := map[int]bool{}
	for i := 0; len(c) < n && i < 558; i++ {
		k := (start + i*stride) % len(all)
		if used[k] {
			break
		}
		used[k] = true
		c = append(c, all[k])
	}
	return c
}

func buildCat(c catCase) []byte {
	image := img.Bytes(c.Seed, img.Size)
	img.DosVTOC(image, c.Chain[0], c.Volume, c.Dir)
	slots := make([][]*img.DosEntry, len(c.Chain))
	for i := range c.Slots {
		for _, s := range c.Slots[i] {
			if s.Kind == "unused0" {
				slots[i] = append(slots[i], nil)
				continue
			}
			slots[i] = append(slots[i], &img.DosEntry{Kind: s.Kind, Name: s.Name, Type: s.Type, Lock: s.Lock, Count: s.Count, List: s.List})
		}
	}
	img.DosCatalog(image, c.Chain, slots)
	return image
}

func validCat(c catCase) bool {
	if len(c.Chain) == 0 || len(c.Slots) > len(c.Chain) || c.Volume == 255 || (c.Dir != 1 && c.Dir != 255) {
		return false
	}
	seen := map[img.TS]bool{{T: 17, S: 0}: true, {}: true}
	for _, ts := range c.Chain {
		if ts.T > 34 || ts.S > 15 || seen[ts] {
			return false
		}
		seen[ts] = true
	}
	for _, ss := range c.Slots {
		if len(ss) > 7 {
			return false
		}
		for _, s := range ss {
			if _, ok := typeFor[s.Type]; !ok || s.List.T == 0 || s.List.T > 34 || s.List.S > 15 || len(s.Name) > 30 {
				return false
			}
		}
	}
	return true
}

func shown(name []byte) string {
	b := append([]byte{}, name...)
	for i := range b {
		b[i] &= 0x7F
	}
	return strings.TrimRight(string(b), " ")
}

func drawCat(t *rapid.T, maxChain int) catCase {
	c := catCase{Seed: rapid.Uint64().Draw(t, "seed"), Volume: byte(rapid.IntRange(0, 254).Draw(t, "vol")),
		Dir:   rapid.SampledFrom([]byte{1, 255}).Draw(t, "dir"),
		Chain: drawChain(t, maxChain),
		Order: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "order"),
	}
	for range c.Chain {
		c.Slots = append(c.Slots, rapid.SliceOfN(rapid.Custom(drawEntry), 0, 7).Draw(t, "slots"))
	}
	if c.Order == "po" {
		c.Ext = rapid.SampledFrom([]string{".po", ".PO"}).Draw(t, "ext")
	} else {
		c.Ext = rapid.SampledFrom([]string{".do", ".dsk", "", ".Dsk"}).Draw(t, "ext")
	}
	return c
}

type want struct {
	name  string
	count int
	lock  bool
	typ   types.Filetype
	list  img.TS
}

func expect(c catCase) (act, del []want) {
	for _, ss := range c.Slots {
		for _, s := range ss {
			w := want{shown(s.Name), int(s.Count), s.Lock, typeFor[s.Type], s.List}
			switch s.Kind {
			case "active":
				act = append(act, w)
			case "deleted":
				n := s.Name
				if len(n) > 29 {
					n = n[:29]
				}
				w.name = shown(n)
				del = append(del, w)
			}
		}
	}
	return
}

// reuse makes the buffer hold another DOS 3.3 disk first and reads that, as
// when a second disk is read into the memory of the first.
func reuse(e *fw.Env, image []byte, seed uint64) {
	if seed%3 != 0 {
		return
	}
	keep := append([]byte{}, image...)
	other, data := img.DosDisk(seed>>2, int(seed>>3%9))
	copy(image, other)
	op, err := dos3.OperatorFactory{}.Operator(image, 0)
	e.Check(err == nil, "cannot open: %v", err)
	ds, err := op.Catalog("")
	e.Check(err == nil && len(ds) == len(data), "the disk read before: %d files, err %v; want %d files", len(ds), err, len(data))
	for n, want := range data {
		fi, err := op.GetFile(n)
		e.Check(err == nil && bytes.Equal(fi.Data, want), "the disk read before: GetFile %q: err %v: %s", n, err, cli.Diff(want, fi.Data))
	}
	_, _, err = dos3.ReadCatalog(image, 0)
	e.Check(err == nil, "the disk read before: %v", err)
	copy(image, keep)
	e.Label("buffer reused")
}

func checkCat(e *fw.Env, image []byte, seed uint64, act, del []want) {
	reuse(e, image, seed)
	keep := append([]byte{}, image...)
	op, err := dos3.OperatorFactory{}.Operator(image, 0)
	e.Check(err == nil, "cannot open: %v", err)
	e.Check(dos3.OperatorFactory{}.SeemsToMatch(image, 0), "well-formed DOS 3.3 image does not seem to match")
	ds, err := op.Catalog("")
	e.Check(err == nil, "Catalog: %v", err)
	e.Check(len(ds) == len(act), "Catalog lists %d files, want %d", len(ds), len(act))
	for i, d := range ds {
		w := act[i]
		e.Check(d.Name == w.name, "file %d is named %q, want %q", i, d.Name, w.name)
		e.Check(d.Sectors == w.count, "file %d %q: %d sectors, want %d", i, w.name, d.Sectors, w.count)
		e.Check(d.Locked == w.lock, "file %d %q: locked=%v, want %v", i, w.name, d.Locked, w.lock)
		e.Check(d.Type == w.typ, "file %d %q: type %v, want %v", i, w.name, d.Type, w.typ)
	}
	files, deleted, err := dos3.ReadCatalog(image, 0)
	e.Check(err == nil, "ReadCatalog: %v", err)
	e.Check(len(files) == len(act) && len(deleted) == len(del), "ReadCatalog gives %d files and %d deleted, want %d and %d", len(files), len(deleted), len(act), len(del))
	for i := range files {
		f := files[i]
		e.Check(f.FilenameString() == act[i].name && int(f.SectorCount) == act[i].count && f.TrackSectorListTrack == act[i].list.T && f.TrackSectorListSector == act[i].list.S && f.Status() == dos3.FileDescStatusNormal,
			"file %d: %q %d sectors list %d/%d status %d, want %+v", i, f.FilenameString(), f.SectorCount, f.TrackSectorListTrack, f.TrackSectorListSector, f.Status(), act[i])
	}
	for i := range deleted {
		f := deleted[i]
		e.Check(f.FilenameString() == del[i].name && f.Status() == dos3.FileDescStatusDeleted, "deleted file %d: %q, want %q", i, f.FilenameString(), del[i].name)
	}
	e.Check(bytes.Equal(op.GetBytes(), keep), "reading the catalog changed the image: %s", cli.Diff(keep, op.GetBytes()))
}

func catLabels(e *fw.Env, c catCase, act, del []want) {
	hole := false
	for _, ss := range c.Slots {
		for i, s := range ss {
			if strings.HasPrefix(s.Kind, "unused") && i+1 < len(ss) {
				hole = true
			}
		}
	}
	if len(c.Chain) > 1 || len(del) > 0 || hole {
		e.Nontrivial()
	}
	e.Label("chain>1=%v deleted=%v gap-before-active=%v", len(c.Chain) > 1, len(del) > 0, hole)
	if len(act) > 105 {
		e.Label("more than 105 files")
	}
}

func init() {
	fw.Rule("C05", "Drawn: DOS 3.3 images built by an independent writer: volume, catalog chains of 1 to 60 sectors (in the thorough tier up to 558) on any tracks, slots never used, zeroed, deleted or active, any names, types, lock bits and counts, the rest of the disk random. The command is run on DOS-order and ProDOS-order files. Oracle: the list the image was built from. Non-trivial: more than one catalog sector, or a deleted entry, or an unused slot before a used one; distinct by case.",
		"File names are stored with the high bit set, as DOS does.")
	fw.Draw("C05", "catalog", 16000, 200000, func(t *rapid.T) catCase {
		m := 5
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			m = 60
		}
		return drawCat(t, m)
	}, func(e *fw.Env, c catCase) {
		if !validCat(c) {
			return
		}
		act, del := expect(c)
		checkCat(e, buildCat(c), c.Seed, act, del)
		catLabels(e, c, act, del)
	})
	fw.Draw("C05", "catalog-long", 200, 4000, func(t *rapid.T) catCase {
		c := catCase{Seed: rapid.Uint64().Draw(t, "seed"), Volume: 254, Dir: 1, Chain: drawChain(t, 558)}
		en := rapid.Custom(drawEntry).Draw(t, "e")
		en.Kind = "active"
		for i := range c.Chain {
			x := en
			x.Count = uint16(i)
			ss := []entry{x, {Kind: "unused0", List: img.TS{T: 1}}, x}
			if i%3 == 0 {
				ss[0].Kind = "deleted"
			}
			c.Slots = append(c.Slots, ss)
		}
		return c
	}, func(e *fw.Env, c catCase) {
		if !validCat(c) {
			return
		}
		act, del := expect(c)
		checkCat(e, buildCat(c), c.Seed, act, del)
		catLabels(e, c, act, del)
	})
	fw.Draw("C05", "command", 1500, 15000, func(t *rapid.T) catCase {
		m := 12
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			m = 80
		}
		return drawCat(t, m)
	}, func(e *fw.Env, c catCase) {
		if !validCat(c) || (c.Order != "do" && c.Order != "po") {
			return
		}
		act, del := expect(c)
		image := buildCat(c)
		d := e.Dir()
		file := img.Reorder(image, "do", c.Order)
		cli.Write(d, "disk"+c.Ext, file)
		var text strings.Builder
		for _, w := range act {
			text.WriteString(w.name + "\n")
		}
		was := cli.Snapshot(d)
		for _, args := range [][]string{{"ls", "disk" + c.Ext}, {"ls", "--order", c.Order, "--system", "dos3", "-s", "disk" + c.Ext}} {
			r := cli.RunV(e, d, args).OK(e)
			e.Check(string(r.Out) == text.String(), "%q printed %.300q, want %.300q", args, r.Out, text.String())
		}
		cli.Unchanged(e, d, was, "ls")
		catLabels(e, c, act, del)
	})
}
