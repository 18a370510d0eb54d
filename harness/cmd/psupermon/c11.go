package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
	"verif/ngen"
)

type symOp struct {
	Kind string // add del disk
	Sym  int
	Case int
	Addr uint16
}

type symHistory struct {
	Disk  img.NDisk
	Fill  int // symbols added to the table at the start, beyond Disk.Syms
	Names []string
	Ops   []symOp
}

func fillSyms(d *img.NDisk, n int) {
	seen := map[string]bool{}
	for _, s := range d.Syms {
		seen[s.Name] = true
	}
	r := img.Rand(d.Seed ^ 0x99)
	for i := 0; n > 0; i++ {
		nm := fmt.Sprintf("Q%c%c%c", ngen.Letters[i%26], ngen.Letters[i/26%26], ngen.Letters[i/676%26])
		if seen[nm] {
			continue
		}
		d.Syms = append(d.Syms, img.NSym{Name: nm, Addr: uint16(r.Intn(0xFFFF) + 1)})
		n--
	}
}

func init() {
	fw.Rule("C11", "a case is a disk with a generated symbol table (single chains per hash, scattered slots, empty to full) and a history of adding, re-pointing, deleting symbols and writing/re-reading, checked in memory and on disk against a map; or one name, valid or not; or one table with one bad link; or a history of symbolic puts and deletes through the operator. Non-trivial: at least one symbol was added, re-pointed or deleted next to another one of the same hash, or the name has 3+ characters, or the link is bad.",
		"names that Unicode upper-casing or case folding turns into ASCII ngen.Letters are not used as invalid names")
	mk := func(t *rapid.T, fill int) symHistory {
		h := symHistory{Fill: fill}
		h.Names = rapid.SliceOfNDistinct(rapid.Custom(symName), 1, 6, strings.ToUpper).Draw(t, "names")
		h.Disk = img.NDisk{Seed: rapid.Uint64().Draw(t, "seed"), Frag: rapid.Bool().Draw(t, "frag"), Slots: rapid.Bool().Draw(t, "slots"), ST: true}
		for _, n := range h.Names {
			if rapid.Bool().Draw(t, "has") {
				h.Disk.Syms = append(h.Disk.Syms, img.NSym{Name: strings.ToUpper(n), Addr: drawAddr(t)})
			}
		}
		if fill == 0 {
			ns := rapid.IntRange(0, 10).Draw(t, "nsyms")
			for i := 0; i < ns; i++ {
				h.Disk.Syms = append(h.Disk.Syms, img.NSym{Name: symName(t), Addr: drawAddr(t)})
			}
		}
		n := rapid.IntRange(1, 12).Draw(t, "nops")
		for i := 0; i < n; i++ {
			h.Ops = append(h.Ops, symOp{
				Kind: rapid.SampledFrom([]string{"add", "add", "add", "del", "del", "disk"}).Draw(t, "kind"),
				Sym:  rapid.IntRange(0, len(h.Names)-1).Draw(t, "sym"),
				Case: rapid.IntRange(0, 2).Draw(t, "case"),
				Addr: drawAddr(t),
			})
		}
		return h
	}
	fw.Draw("C11", "table", 5000, 80000, func(t *rapid.T) symHistory { return mk(t, 0) }, runSymbols)
	fw.Draw("C11", "fulltable", 240, 6000, func(t *rapid.T) symHistory {
		return mk(t, rapid.IntRange(805, 819).Draw(t, "fill"))
	}, runSymbols)
	fw.Draw("C11", "names", 20000, 400000, drawNameCase, runName)
	fw.Draw("C11", "links", 600, 10000, drawLinkCase, runLink)
	fw.Draw("C11", "operator", 1500, 20000, func(t *rapid.T) history {
		h := history{Names: drawNames(t)}
		h.Disk = drawDisk(t, true, h.Names)
		if rapid.IntRange(0, 9).Draw(t, "fullst") == 0 {
			fillSyms(&h.Disk, rapid.IntRange(800, 819).Draw(t, "fill"))
		}
		n := rapid.IntRange(1, 12).Draw(t, "nops")
		for i := 0; i < n; i++ {
			o := drawOp(t, len(h.Names), []string{"put", "put", "del", "del", "reopen"})
			if rapid.IntRange(0, 4).Draw(t, "symbolic") > 0 {
				o.Form = rapid.IntRange(3, 5).Draw(t, "sform")
			}
			o.Rel, o.Size = false, 1+o.Size&0x1FF
			h.Ops = append(h.Ops, o)
		}
		return h
	}, runHistory)
}

func runSymbols(e *fw.Env, h symHistory) {
	if len(h.Ops) > 300 || h.Fill > 819 || len(h.Names) == 0 {
		return
	}
	d := h.Disk
	d.ST = true
	fillSyms(&d, h.Fill)
	w := worldOf(e, d.Build(), true)
	b := append([]byte(nil), w.op.GetBytes()...)
	sm, err := supermon.LoadSectorMap(b)
	e.Check(err == nil, "LoadSectorMap: %v", err)
	st, err := sm.ReadSymbolTable(b)
	e.Check(err == nil, "ReadSymbolTable: %v", err)
	w.checkTable("at the start", st)
	hashes := map[int]int{}
	count := func() {
		hashes = map[int]int{}
		for _, a := range w.syms {
			hashes[img.NHash(a)]++
		}
	}
	for i, o := range h.Ops {
		if o.Sym < 0 {
			return
		}
		name := h.Names[o.Sym%len(h.Names)]
		if !img.NValidName(name) {
			return
		}
		key := strings.ToUpper(name)
		given := inCase(key, o.Case)
		what := fmt.Sprintf("op %d %s %s", i, o.Kind, given)
		count()
		switch o.Kind {
		case "add":
			if o.Addr == 0 {
				e.Check(st.AddSymbol(given, 0) != nil, "%s: address 0 accepted", what)
				break
			}
			what += fmt.Sprintf(" at %04X", o.Addr)
			old, has := w.syms[key]
			before := append(supermon.SymbolTable(nil), st...)
			err := st.AddSymbol(given, o.Addr)
			if !has && len(w.syms) == 819 {
				e.Check(err != nil, "%s: accepted by a full table", what)
				e.Check(reflect.DeepEqual(before, st), "%s: refused (%v) but changed the table", what, err)
				e.Label("refused: table full")
				e.Nontrivial()
				break
			}
			e.Check(err == nil, "%s: %v", what, err)
			w.syms[key] = o.Addr
			if hashes[img.NHash(o.Addr)] > 0 || has && hashes[img.NHash(old)] > 1 {
				e.Nontrivial()
			}
			switch {
			case !has:
				e.Label("added")
			case img.NHash(old) == img.NHash(o.Addr):
				e.Label("re-pointed, same hash")
			default:
				e.Label("re-pointed, other hash")
			}
		case "del":
			old, has := w.syms[key]
			got := st.DeleteSymbol(given)
			e.Check(got == has, "%s: DeleteSymbol = %v, but the symbol was there: %v", what, got, has)
			delete(w.syms, key)
			if has && hashes[img.NHash(old)] > 1 {
				e.Nontrivial()
			}
			e.Label("deleted: %v", has)
		case "disk":
			err := sm.WriteSymbolTable(b, st)
			e.Check(err == nil, "%s: WriteSymbolTable: %v", what, err)
			sm, err = supermon.LoadSectorMap(b)
			e.Check(err == nil, "%s: LoadSectorMap: %v", what, err)
			st, err = sm.ReadSymbolTable(b)
			e.Check(err == nil, "%s: the table written cannot be read: %v", what, err)
			e.Label("written and read")
		}
		w.checkTable(what, st)
		// What would be on disk now.
		b2 := append([]byte(nil), b...)
		sm2 := append(supermon.SectorMap(nil), sm...)
		mem := append(supermon.SymbolTable(nil), st...)
		err := sm2.WriteSymbolTable(b2, st)
		e.Check(err == nil, "%s: WriteSymbolTable: %v", what, err)
		e.Check(reflect.DeepEqual(mem, st), "%s: writing the table changed it", what)
		w.checkBytes(what, b2)
		st2, err := sm2.ReadSymbolTable(b2)
		e.Check(err == nil, "%s: the table written cannot be read: %v", what, err)
		w.checkTable(what+" (re-read)", st2)
		for _, s := range st2 {
			if s.Address != 0 {
				e.Check(s.Name == strings.ToUpper(s.Name), "%s: %q is not in upper case on disk", what, s.Name)
			}
		}
		// The queries by address.
		by := st.SymbolsByAddress()
		total := 0
		for a, ss := range by {
			for _, s := range ss {
				e.Check(w.syms[strings.ToUpper(s.Name)] == a && a != 0, "%s: SymbolsByAddress lists %q at %04X", what, s.Name, a)
				total++
			}
			e.Check(len(st.SymbolsForAddress(a)) == len(ss), "%s: SymbolsForAddress(%04X) and SymbolsByAddress disagree", what, a)
		}
		e.Check(total == len(w.syms), "%s: SymbolsByAddress lists %d symbols, want %d", what, total, len(w.syms))
	}
}

type nameCase struct {
	Name string
	Addr uint16
	Seed uint64
}

func drawNameCase(t *rapid.T) nameCase {
	c := nameCase{Addr: drawAddr(t), Seed: rapid.Uint64().Draw(t, "seed")}
	switch rapid.IntRange(0, 6).Draw(t, "kind") {
	case 6: // a valid name with a letter that folds to an ASCII one
		n := []rune(symName(t))
		n[rapid.IntRange(0, len(n)-1).Draw(t, "at")] = rapid.SampledFrom([]rune("ſıK")).Draw(t, "fold")
		c.Name = string(n)
	case 0, 1:
		c.Name = inCase(symName(t), rapid.IntRange(0, 2).Draw(t, "case"))
	case 2: // ngen.Letters and digits of any length: over and under the limits
		c.Name = rapid.StringMatching("[A-Za-z0-9]{1,12}").Draw(t, "alnum")
	case 3: // digits only: the 48-bit limit
		c.Name = rapid.StringMatching("[0-9]{3,10}").Draw(t, "digits")
	case 4: // a valid name with one bad character
		n := []byte(symName(t))
		i := rapid.IntRange(0, len(n)-1).Draw(t, "at")
		n[i] = rapid.SampledFrom([]byte(" .-_+*/@[`{:;<=>?!\x00\x01\x1f\x7f\t\n,'\"()~^#$%&|\\]}")).Draw(t, "bad")
		c.Name = string(n)
	default:
		c.Name = rapid.StringN(1, 10, 12).Draw(t, "any")
	}
	return c
}

// foldsToASCII: upper-casing or folding may turn some non-ASCII ngen.Letters into
// ASCII ones; such names are left open.
func foldsToASCII(s string) bool {
	for _, r := range s {
		if r < 0x80 {
			continue
		}
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			if f < 0x80 {
				return true
			}
		}
		if unicode.ToUpper(r) < 0x80 {
			return true
		}
	}
	return false
}

func runName(e *fw.Env, c nameCase) {
	if c.Addr == 0 || c.Name == "" {
		return
	}
	d := img.NDisk{Seed: c.Seed, ST: true, Syms: []img.NSym{{Name: "QQQ", Addr: 0x1234}}}
	b := d.Build()
	op := open(e, b)
	sm, err := supermon.LoadSectorMap(b)
	e.Check(err == nil, "LoadSectorMap: %v", err)
	st, err := sm.ReadSymbolTable(b)
	e.Check(err == nil, "ReadSymbolTable: %v", err)
	valid := img.NValidName(c.Name)
	err = st.AddSymbol(c.Name, c.Addr)
	if err == nil {
		b2 := append([]byte(nil), b...)
		err = append(supermon.SectorMap(nil), sm...).WriteSymbolTable(b2, st)
		if err == nil {
			if !valid {
				ents, _ := img.NTable(b2)
				e.Failf("invalid name %q was accepted and stored as %v", c.Name, ents)
			}
			ents, ok := img.NTable(b2)
			found := false
			for _, x := range ents {
				if x.Name == strings.ToUpper(c.Name) {
					e.Check(x.Addr == c.Addr, "%q stored at %04X, want %04X", c.Name, x.Addr, c.Addr)
					found = true
				}
			}
			e.Check(ok && found, "%q is stored as %v", c.Name, ents)
			sm2, _ := supermon.LoadSectorMap(b2)
			st2, err := sm2.ReadSymbolTable(b2)
			e.Check(err == nil, "table with %q cannot be read: %v", c.Name, err)
			e.Check(st2.ByName(c.Name) == c.Addr, "after writing and reading, %q is at %04X, want %04X", c.Name, st2.ByName(c.Name), c.Addr)
			want := strings.ToUpper(c.Name)
			ok = false
			for _, s := range st2 {
				ok = ok || (s.Address == c.Addr && s.Name == want)
			}
			e.Check(ok, "after writing and reading, %q is not listed as %q", c.Name, want)
		}
	}
	e.Check((err == nil) == valid, "name %q: error %v, valid %v", c.Name, err, valid)
	// The same through a put.
	if !numLike(c.Name) && !strings.Contains(c.Name, ":") {
		_, err := op.PutFile(putInfo(c.Name, []byte{1}), false)
		e.Check((err == nil) == valid, "put %q: error %v, valid %v", c.Name, err, valid)
		if valid {
			_, err := op.GetFile(strings.ToLower(c.Name))
			e.Check(err == nil, "get after put %q: %v", c.Name, err)
		}
	}
	if len(c.Name) >= 3 {
		e.Nontrivial()
	}
	e.Label("valid %v", valid)
}

type linkCase struct {
	Seed  uint64
	Syms  []img.NSym
	Which int
	Link  uint16
}

func drawLinkCase(t *rapid.T) linkCase {
	c := linkCase{Seed: rapid.Uint64().Draw(t, "seed")}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Syms = append(c.Syms, img.NSym{Name: symName(t), Addr: drawAddr(t)})
	}
	c.Which = rapid.IntRange(0, n-1).Draw(t, "which")
	c.Link = rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(0xCFF0, 0xD040), rapid.Uint16Range(0xDFE0, 0xE010),
		rapid.Custom(func(t *rapid.T) uint16 { return 0xD000 + 5*rapid.Uint16Range(0, 12).Draw(t, "slot") })).Draw(t, "link")
	return c
}

func runLink(e *fw.Env, c linkCase) {
	d := img.NDisk{Seed: c.Seed, ST: true, Syms: c.Syms}
	b := d.Build()
	ents, ok := img.NTable(b)
	if !ok || len(ents) == 0 || c.Which < 0 {
		return
	}
	x := ents[c.Which%len(ents)]
	o := img.NOwner(b)
	k := 0
	for i, f := range o {
		if f == 3 {
			for j := 0; j < 256; j++ {
				switch k*256 + j {
				case x.Slot*5 + 2:
					b[i*256+j] = byte(c.Link)
				case x.Slot*5 + 3:
					b[i*256+j] = byte(c.Link >> 8)
				}
			}
			k++
		}
	}
	bad := ""
	switch l := int(c.Link); {
	case l == 0:
	case l < 0xD000 || l >= 0xDFFF:
		bad = "out of range"
	case (l-0xD000)%5 != 0:
		bad = "misaligned"
	case (l-0xD000)/5 == x.Slot:
		bad = "to itself"
	default:
		h := -1
		for _, y := range ents {
			if y.Slot == (l-0xD000)/5 {
				h = img.NHash(y.Addr)
			}
		}
		if h == -1 && img.NHash(x.Addr) == 0 {
			return // a link to an unused slot, which hashes alike: left open
		}
		if h != img.NHash(x.Addr) {
			bad = "to another hash"
		}
	}
	sm, err := supermon.LoadSectorMap(b)
	e.Check(err == nil, "LoadSectorMap: %v", err)
	st, err := sm.ReadSymbolTable(b)
	if bad != "" {
		e.Check(err != nil && st == nil, "a table with a link %s (%04X) was accepted", bad, c.Link)
		e.Nontrivial()
		e.Label("link %s", bad)
		return
	}
	e.Check(err == nil, "a table with the good link %04X was refused: %v", c.Link, err)
	e.Label("good link")
}

func putInfo(name string, data []byte) types.FileInfo {
	return types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: len(data), Type: types.FiletypeBinary}, Data: data}
}
