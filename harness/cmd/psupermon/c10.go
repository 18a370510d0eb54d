package main

import (
	"fmt"

	"github.com/zellyn/diskii/supermon"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
)

func init() {
	fw.Rule("C10", "a case is a generated disk (fragmented or not, with or without a symbol table, nearly full to empty) and a history of put/get/delete/re-open; after every step the raw bytes, the live operator and a re-opened one are compared with a map model. Sector maps with up to two entries altered are accepted or refused as the model says. Non-trivial: at least one put succeeded and a later step deleted, overwrote or read something.",
		"files 3 and 4 of a disk with a symbol table are never put or deleted by name",
		"an empty file name is not used")
	fw.Draw("C10", "history", 4000, 60000, func(t *rapid.T) history {
		h := history{Names: drawNames(t)}
		h.Disk = drawDisk(t, rapid.IntRange(0, 3).Draw(t, "st") > 0, h.Names)
		n := rapid.IntRange(1, 14).Draw(t, "nops")
		for i := 0; i < n; i++ {
			h.Ops = append(h.Ops, drawOp(t, len(h.Names), []string{"put", "put", "put", "get", "del", "del", "reopen"}))
		}
		return h
	}, runHistory)
	fw.Draw("C10", "sectormap", 4000, 60000, func(t *rapid.T) history {
		h := history{}
		h.Disk = drawDisk(t, false, nil)
		n := rapid.IntRange(1, 20).Draw(t, "nops")
		for i := 0; i < n; i++ {
			o := drawOp(t, 1, []string{"put", "put", "del", "reopen"})
			o.Form = 2
			h.Ops = append(h.Ops, o)
		}
		return h
	}, runSectorMap)
}

func runHistory(e *fw.Env, h history) {
	if len(h.Ops) > 200 || len(h.Disk.Files) > 300 {
		return
	}
	w := newWorld(e, h.Disk)
	if w == nil {
		return
	}
	w.check("at the start")
	puts := 0
	for i, o := range h.Ops {
		before := len(w.files)
		w.step(i, o, h.Names)
		if o.Kind == "put" && len(w.files) >= before {
			puts++
		} else if puts > 0 {
			e.Nontrivial()
		}
		if puts > 1 {
			e.Nontrivial()
		}
	}
}

// runSectorMap drives the exported SectorMap operations directly.
func runSectorMap(e *fw.Env, h history) {
	h.Disk.ST = false
	b := h.Disk.Build()
	sm, err := supermon.LoadSectorMap(b)
	e.Check(err == nil && len(sm) == 560, "LoadSectorMap: %v (%d entries)", err, len(sm))
	model := img.NOwner(b) // owner of each sector, by the model
	first := append([]byte(nil), b...)
	files := map[byte][]byte{}
	for i, f := range model {
		if f < 0xFE {
			files[f] = append(files[f], b[i*256:i*256+256]...)
		}
	}
	free := func() int {
		n := 0
		for _, f := range model {
			if f != 0xFE {
				n++
			}
		}
		for _, c := range files {
			n -= len(c) / 256
		}
		return n
	}
	check := func(what string, persisted bool) {
		e.Check(sm.FreeSectors() == free(), "%s: FreeSectors %d, want %d", what, sm.FreeSectors(), free())
		by := sm.SectorsByFile()
		e.Check(len(by) == len(files), "%s: SectorsByFile has %d files, want %d", what, len(by), len(files))
		ff := sm.FirstFreeFile()
		want := byte(0)
		for f := 1; f < 0xFE; f++ {
			if _, ok := files[byte(f)]; !ok {
				want = byte(f)
				break
			}
		}
		e.Check(ff == want, "%s: FirstFreeFile %02X, want %02X", what, ff, want)
		owned := map[int]bool{}
		for f, c := range files {
			ts := sm.SectorsForFile(f)
			e.Check(len(ts) == len(c)/256 && len(by[f]) == len(ts), "%s: file %02X has %d sectors, want %d", what, f, len(ts), len(c)/256)
			last := -1
			for k, x := range ts {
				i := int(x.Track)*16 + int(x.Sector)
				e.Check(i > last && i < 560 && x.Sector < 16, "%s: file %02X: sectors out of order (%v)", what, f, ts)
				e.Check(by[f][k] == x, "%s: SectorsByFile and SectorsForFile disagree about %02X", what, f)
				e.Check(!owned[i], "%s: sector %d belongs to two files", what, i)
				e.Check(sm.FileForSector(x.Track, x.Sector) == f, "%s: FileForSector(%d,%d) is not %02X", what, x.Track, x.Sector, f)
				e.Check(model[i] != 0xFE, "%s: reserved sector %d given to file %02X", what, i, f)
				owned[i] = true
				last = i
			}
			got, err := sm.ReadFile(b, f)
			e.Check(err == nil && string(got) == string(c), "%s: ReadFile(%02X): %v, %d bytes, want %d", what, f, err, len(got), len(c))
		}
		for i := 0; i < 560; i++ {
			f := sm.FileForSector(byte(i/16), byte(i%16))
			if model[i] == 0xFE {
				e.Check(f == 0xFE, "%s: reserved sector %d now belongs to %02X", what, i, f)
			} else if !owned[i] {
				e.Check(f == 0xFF, "%s: sector %d should be free, belongs to %02X", what, i, f)
			}
		}
		e.Check(sm.FileForSector(35, 0) == 0 && sm.FileForSector(0, 16) == 0, "%s: FileForSector outside the disk is not 0", what)
		e.Check(sm.Verify() == nil, "%s: Verify: %v", what, sm.Verify())
		if persisted {
			o := img.NOwner(b)
			e.Check(string(o[:]) == string(sm), "%s: the map on disk is not the map in memory", what)
		}
		for i := range model {
			if model[i] != 0xFE || i == 10 || i == 11 {
				continue
			}
			hi := 256
			if i == 9 {
				hi = 0xD0
			}
			e.Check(string(b[i*256:i*256+hi]) == string(first[i*256:i*256+hi]), "%s: reserved sector %d changed", what, i)
		}
	}
	check("at the start", true)
	dirty := false
	for i, o := range h.Ops {
		what := fmt.Sprintf("op %d %s %02X", i, o.Kind, o.Num)
		if o.Num == 0 || o.Num > 0xFD {
			continue
		}
		switch o.Kind {
		case "put":
			_, existed := files[o.Num]
			capacity := free() + len(files[o.Num])/256
			size := o.Size
			if o.Rel {
				size += capacity * 256
			}
			if size < 1 || size > 600*256 {
				continue
			}
			data := img.Bytes(o.Fill, size)
			before := append([]byte(nil), b...)
			smBefore := append([]byte(nil), sm...)
			got, err := sm.WriteFile(b, o.Num, append([]byte(nil), data...), o.Over)
			fits := (size+255)/256 <= capacity
			if !fits || (existed && !o.Over) {
				e.Check(err != nil, "%s: %d bytes with %d sectors available (existed %v, overwrite %v) was accepted", what, size, capacity, existed, o.Over)
				e.Check(string(before) == string(b) && string(smBefore) == string(sm), "%s: refused (%v) but changed the disk", what, err)
				break
			}
			e.Check(err == nil, "%s: %v", what, err)
			e.Check(got == existed, "%s: reports existed=%v, want %v", what, got, existed)
			files[o.Num] = pad(data)
			dirty = false
			e.Nontrivial()
			e.Label("write, overwrote %v", existed)
		case "del":
			sm.Delete(o.Num)
			delete(files, o.Num)
			dirty = true
		case "reopen":
			e.Check(sm.Persist(b) == nil, "%s: Persist failed", what)
			dirty = false
			sm, err = supermon.LoadSectorMap(append([]byte(nil), b...))
			e.Check(err == nil, "%s: LoadSectorMap: %v", what, err)
		}
		check(what, !dirty)
	}
}
