package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	derrors "github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
	"verif/ngen"
)

// op is one step of a history.
type op struct {
	Kind string // put get del reopen
	Form int    // how the file is named: 0 05, 1 df05, 2 DF05, 3 SYM, 4 05:SYM, 5 DF05:SYM
	Num  byte
	Sym  int // index into the case's names
	Case int // 0 upper, 1 lower, 2 mixed
	Size int
	Rel  bool // Size is relative to the space available
	Fill uint64
	Over bool
	Bad  string // for refused operations: type length name0..
}

type history struct {
	Disk  img.NDisk
	Names []string
	Ops   []op
}

var (
	symName   = ngen.SymName
	numLike   = ngen.NumLike
	fileSym   = ngen.FileSym
	drawDisk  = ngen.Disk
	drawNum   = ngen.Num
	drawAddr  = ngen.Addr
	drawNames = ngen.Names
	inCase    = ngen.InCase
	pad       = ngen.Pad
)

func drawOp(t *rapid.T, nnames int, kinds []string) op {
	o := op{
		Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
		Form: rapid.IntRange(0, 5).Draw(t, "form"),
		Num:  drawNum(t),
		Sym:  rapid.IntRange(0, nnames-1).Draw(t, "sym"),
		Case: rapid.IntRange(0, 2).Draw(t, "case"),
		Fill: rapid.Uint64().Draw(t, "fill"),
		Over: rapid.Bool().Draw(t, "over"),
	}
	if rapid.IntRange(0, 3).Draw(t, "rel") == 0 {
		o.Rel = true
		o.Size = rapid.SampledFrom([]int{-512, -256, -255, -1, 0, 0, 1, 256, 1000}).Draw(t, "delta")
	} else {
		o.Size = rapid.OneOf(rapid.SampledFrom([]int{1, 2, 255, 256, 257, 511, 512, 513}), rapid.IntRange(1, 2000), rapid.IntRange(1, 20000)).Draw(t, "size")
	}
	return o
}

// world is a disk under test and the model of it.
type world struct {
	e     *fw.Env
	op    types.Operator
	first []byte // the image as built
	res   [560]bool
	files map[byte][]byte
	syms  map[string]uint16
	st    bool
	chain bool // links formed single chains at the start
}

func open(e *fw.Env, b []byte) types.Operator {
	o, err := supermon.OperatorFactory{}.Operator(b, 0)
	e.Check(err == nil, "cannot open the NakedOS disk: %v", err)
	return o
}

func newWorld(e *fw.Env, d img.NDisk) *world {
	return worldOf(e, d.Build(), d.ST)
}

// worldOf models the image b, decoded by the reference code.
func worldOf(e *fw.Env, b []byte, st bool) *world {
	w := &world{e: e, first: append([]byte(nil), b...), files: map[byte][]byte{}, syms: map[string]uint16{}, st: st, chain: true}
	o := img.NOwner(b)
	for i, f := range o {
		switch {
		case f == 0xFE:
			w.res[i] = true
		case f != 0xFF:
			w.files[f] = append(w.files[f], b[i*256:i*256+256]...)
		}
	}
	if st {
		ents, ok := img.NTable(b)
		if !ok {
			panic("built disk has no symbol table")
		}
		for _, x := range ents {
			w.syms[x.Name] = x.Addr
		}
	} else if len(w.files[3]) == 4096 && len(w.files[4]) == 4096 {
		return nil // would look like a symbol table
	}
	w.op = open(e, b)
	return w
}

func (w *world) free() int {
	n := 0
	for _, r := range w.res {
		if !r {
			n++
		}
	}
	for _, c := range w.files {
		n -= len(c) / 256
	}
	return n
}

// name returns the name an operation uses, its number part and symbol part.
func (o op) name(names []string) (full string, num byte, sym string) {
	s := ""
	if len(names) > 0 && o.Sym >= 0 {
		s = names[o.Sym%len(names)]
	}
	cs := inCase(s, o.Case)
	switch o.Form {
	case 0:
		return fmt.Sprintf("%02X", o.Num), o.Num, ""
	case 1:
		return fmt.Sprintf("df%02x", o.Num), o.Num, ""
	case 3:
		return cs, 0, strings.ToUpper(s)
	case 4:
		return fmt.Sprintf("%02x:%s", o.Num, cs), o.Num, strings.ToUpper(s)
	case 5:
		return fmt.Sprintf("DF%02X:%s", o.Num, cs), o.Num, strings.ToUpper(s)
	}
	return fmt.Sprintf("DF%02X", o.Num), o.Num, ""
}

func (w *world) symFile(sym string) byte {
	if a := w.syms[sym]; a > 0xDF00 && a < 0xDFFE {
		return byte(a)
	}
	return 0
}

func (w *world) unusedFile() bool {
	for f := 1; f < 0xFE; f++ {
		if _, ok := w.files[byte(f)]; !ok {
			return true
		}
	}
	return false
}

// table reports that file is part of the symbol table.
func (w *world) table(file byte) bool { return w.st && (file == 3 || file == 4) }

// put performs a put on the disk and on the model. It returns the refusal
// reasons the model sees ("" if it must succeed).
func (w *world) put(what string, o op, names []string) {
	e := w.e
	name, num, sym := o.name(names)
	if sym != "" && (numLike(sym) || !img.NValidName(sym)) {
		return
	}
	target := num
	fresh := false
	if num == 0 {
		if target = w.symFile(sym); target == 0 {
			fresh = true
		}
	}
	if !fresh && (target == 0 || target > 0xFD) {
		return
	}
	capacity := w.free()
	_, existed := w.files[target]
	if existed {
		capacity += len(w.files[target]) / 256
	}
	size := o.Size
	if o.Rel {
		size = capacity*256 + o.Size
	}
	if size < 1 || size > 600*256 {
		return
	}
	if !w.st && (target == 3 || target == 4) && (size+255)/256 == 16 {
		return
	}
	why := ""
	add := func(s string) { why = strings.TrimSpace(why + " " + s) }
	if existed && !o.Over {
		add("exists")
	}
	if (size+255)/256 > capacity {
		add("space")
	}
	if sym != "" {
		if !w.st {
			add("notable")
		} else if _, ok := w.syms[sym]; !ok && len(w.syms) == 819 {
			add("tablefull")
		}
	}
	if fresh && !w.unusedFile() {
		add("nofile")
	}
	if !fresh && w.table(target) && why == "" {
		return // replacing the symbol table itself
	}
	data := img.Bytes(o.Fill, size)
	given := append([]byte(nil), data...)
	before := append([]byte(nil), w.op.GetBytes()...)
	got, err := w.op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: size, Type: types.FiletypeBinary}, Data: given}, o.Over)
	what = fmt.Sprintf("%s: put %q (%d bytes, overwrite %v)", what, name, size, o.Over)
	e.Check(bytes.Equal(given, data), "%s changed the data it was given", what)
	if why != "" {
		e.Check(err != nil, "%s succeeded, but must be refused (%s)", what, why)
		w.refused(what, before, err, why)
		e.Label("put refused: %s", why)
		return
	}
	e.Check(err == nil, "%s failed: %v", what, err)
	if fresh {
		// The new symbol says which number was chosen.
		ents, ok := img.NTable(w.op.GetBytes())
		e.Check(ok, "%s destroyed the symbol table", what)
		for _, x := range ents {
			if x.Name == sym && x.Addr > 0xDF00 && x.Addr < 0xDFFE {
				target = byte(x.Addr)
			}
		}
		e.Check(target != 0, "%s: no symbol %s for the new file", what, sym)
		_, used := w.files[target]
		e.Check(!used, "%s took the file number %02X, which was in use", what, target)
		existed = false
	}
	e.Check(got == existed, "%s: reports existed=%v, but it was %v", what, got, existed)
	w.files[target] = pad(data)
	if sym != "" {
		w.syms[sym] = 0xDF00 + uint16(target)
		e.Label("put with symbol")
	}
	e.Label("put, form %d, overwrote %v", o.Form, existed)
	if w.free() == 0 {
		e.Label("disk full")
	}
}

// refused checks that a refused operation changed nothing and is classified.
func (w *world) refused(what string, before []byte, err error, why string) {
	e := w.e
	now := w.op.GetBytes()
	e.Check(bytes.Equal(before, now), "%s was refused (%v) but changed the disk: %s", what, err, cli.Diff(before, now))
	cls := classes(err)
	switch why {
	case "exists":
		e.Check(cls == "exists", "%s: error %q is classified as %q, want exists", what, err, cls)
	case "space":
		e.Check(cls == "space", "%s: error %q is classified as %q, want space", what, err, cls)
	case "missing":
		e.Check(cls == "missing", "%s: error %q is classified as %q, want missing", what, err, cls)
	case "exists space":
		e.Check(cls == "exists" || cls == "space", "%s: error %q is classified as %q", what, err, cls)
	}
	if !strings.Contains(why, "exists") {
		e.Check(!strings.Contains(cls, "exists"), "%s (%s): error %q is classified as file-exists", what, why, err)
	}
	if !strings.Contains(why, "space") {
		e.Check(!strings.Contains(cls, "space"), "%s (%s): error %q is classified as out-of-space", what, why, err)
	}
}

func classes(err error) string {
	var c []string
	if derrors.IsFileExists(err) {
		c = append(c, "exists")
	}
	if derrors.IsOutOfSpace(err) {
		c = append(c, "space")
	}
	if derrors.IsFileNotFound(err) {
		c = append(c, "missing")
	}
	return strings.Join(c, " ")
}

func (w *world) del(what string, o op, names []string) {
	e := w.e
	if o.Form > 3 {
		o.Form = 3
	}
	name, num, sym := o.name(names)
	if sym != "" && (numLike(sym) || !img.NValidName(sym)) {
		return
	}
	target := num
	if num == 0 {
		target = w.symFile(sym)
	}
	if target > 0xFD || w.table(target) {
		return
	}
	before := append([]byte(nil), w.op.GetBytes()...)
	got, err := w.op.Delete(name)
	what = fmt.Sprintf("%s: delete %q", what, name)
	e.Check(err == nil, "%s failed: %v", what, err)
	_, existed := w.files[target]
	e.Check(got == existed, "%s: reports existed=%v, but it was %v", what, got, existed)
	if target == 0 { // no such name
		e.Check(bytes.Equal(before, w.op.GetBytes()), "%s of an unknown name changed the disk", what)
		e.Label("delete of an unknown name")
		return
	}
	delete(w.files, target)
	if sym != "" {
		if !existed {
			// A symbol without a file: whether it goes too is left open.
			ents, _ := img.NTable(w.op.GetBytes())
			for _, x := range ents {
				if x.Name == sym {
					return
				}
			}
		}
		delete(w.syms, sym)
		e.Label("delete by symbol")
	} else {
		e.Label("delete by number, existed %v", existed)
	}
}

func (w *world) get(what string, o op, names []string) {
	e := w.e
	if o.Form > 3 {
		o.Form = 3
	}
	name, num, sym := o.name(names)
	if sym != "" && numLike(sym) {
		return
	}
	target := num
	if num == 0 {
		target = w.symFile(sym)
	}
	before := append([]byte(nil), w.op.GetBytes()...)
	fi, err := w.op.GetFile(name)
	what = fmt.Sprintf("%s: get %q", what, name)
	e.Check(bytes.Equal(before, w.op.GetBytes()), "%s changed the disk", what)
	want, ok := w.files[target]
	switch {
	case target == 0:
		e.Check(err != nil, "%s of an unknown name succeeded", what)
		w.refused(what, before, err, "missing")
		e.Label("get of an unknown name")
	case !ok:
		e.Check(err != nil, "%s of a file that does not exist returned %d bytes", what, len(fi.Data))
	default:
		e.Check(err == nil, "%s failed: %v", what, err)
		e.Check(w.table(target) || bytes.Equal(fi.Data, want), "%s: %s", what, cli.Diff(want, fi.Data))
		e.Check(fi.Descriptor.Length == len(want) && fi.Descriptor.Sectors == len(want)/256, "%s: length %d, sectors %d for %d bytes", what, fi.Descriptor.Length, fi.Descriptor.Sectors, len(want))
		e.Label("get")
	}
}

// symNames returns the symbols that point at a file.
func (w *world) symNames(file byte) []string {
	var out []string
	for n, a := range w.syms {
		if a == 0xDF00+uint16(file) {
			out = append(out, n)
		}
	}
	return out
}

// check compares the disk, in memory and re-opened, with the model.
func (w *world) check(what string) {
	e := w.e
	b := w.op.GetBytes()
	w.checkBytes(what, b)
	w.checkOps(what, w.op)
	re := append([]byte(nil), b...)
	w.checkOps(what+" (re-opened)", open(e, re))
	sm, err := supermon.LoadSectorMap(b)
	e.Check(err == nil, "%s: LoadSectorMap: %v", what, err)
	e.Check(sm.Verify() == nil, "%s: Verify: %v", what, sm.Verify())
	e.Check(sm.FreeSectors() == w.free(), "%s: FreeSectors %d, want %d", what, sm.FreeSectors(), w.free())
	if w.st {
		st, err := sm.ReadSymbolTable(b)
		e.Check(err == nil, "%s: the symbol table on disk is not readable: %v", what, err)
		w.checkTable(what, st)
	}
}

func (w *world) checkTable(what string, st supermon.SymbolTable) {
	e := w.e
	e.Check(len(st) == 819, "%s: symbol table has %d entries", what, len(st))
	n := 0
	for i, s := range st {
		if s.Address == 0 {
			continue
		}
		n++
		a, ok := w.syms[strings.ToUpper(s.Name)]
		e.Check(ok, "%s: symbol %q (slot %d, %04X) should not exist", what, s.Name, i, s.Address)
		e.Check(a == s.Address, "%s: symbol %q is at %04X, want %04X", what, s.Name, s.Address, a)
	}
	e.Check(n == len(w.syms), "%s: %d symbols, want %d", what, n, len(w.syms))
	for name, a := range w.syms {
		e.Check(st.ByName(name) == a, "%s: ByName(%q) = %04X, want %04X", what, name, st.ByName(name), a)
	}
}

func (w *world) checkBytes(what string, b []byte) {
	e := w.e
	e.Check(len(b) == img.Size, "%s: image is %d bytes", what, len(b))
	o := img.NOwner(b)
	have := map[byte][]byte{}
	for i, f := range o {
		switch f {
		case 0:
			e.Failf("%s: sector %X of track %d has the illegal owner 0", what, i%16, i/16)
		case 0xFF:
			e.Check(!w.res[i], "%s: reserved sector %X of track %d became free", what, i%16, i/16)
		case 0xFE:
			e.Check(w.res[i], "%s: sector %X of track %d became reserved", what, i%16, i/16)
			lo, hi := 0, 256
			switch i {
			case 9:
				hi = 0xD0
			case 10, 11:
				hi = 0
			}
			if hi > lo {
				e.Check(bytes.Equal(b[i*256+lo:i*256+hi], w.first[i*256+lo:i*256+hi]), "%s: reserved sector %X of track %d changed", what, i%16, i/16)
			}
		default:
			e.Check(!w.res[i], "%s: reserved sector %X of track %d given to file %02X", what, i%16, i/16, f)
			have[f] = append(have[f], b[i*256:i*256+256]...)
		}
	}
	for f, want := range w.files {
		if w.table(f) {
			e.Check(len(have[f]) == 4096, "%s: symbol table file %02X has %d bytes", what, f, len(have[f]))
			continue
		}
		e.Check(bytes.Equal(have[f], want), "%s: file %02X on disk: %s", what, f, cli.Diff(want, have[f]))
	}
	for f := range have {
		_, ok := w.files[f]
		e.Check(ok, "%s: file %02X (%d bytes) should not exist", what, f, len(have[f]))
	}
	if w.st {
		ents, ok := img.NTable(b)
		e.Check(ok, "%s: no symbol table on disk", what)
		e.Check(len(ents) == len(w.syms), "%s: %d symbols on disk, want %d", what, len(ents), len(w.syms))
		for _, x := range ents {
			a, ok := w.syms[x.Name]
			e.Check(ok, "%s: symbol %q (%04X) on disk should not exist", what, x.Name, x.Addr)
			e.Check(a == x.Addr, "%s: symbol %q on disk is at %04X, want %04X", what, x.Name, x.Addr, a)
		}
		if w.chain {
			err := img.NCheckTable(ents)
			e.Check(err == nil, "%s: %v", what, err)
		}
	}
}

func (w *world) checkOps(what string, o types.Operator) {
	e := w.e
	descs, err := o.Catalog("")
	e.Check(err == nil, "%s: Catalog: %v", what, err)
	e.Check(len(descs) == len(w.files), "%s: Catalog lists %d files, want %d", what, len(descs), len(w.files))
	seen := map[byte]bool{}
	last := byte(0)
	for _, d := range descs {
		num, full := byte(0), d.Fullname
		if len(full) >= 4 && full[:2] == "DF" {
			if v, err := strconv.ParseUint(full[2:4], 16, 8); err == nil {
				num = byte(v)
			}
		}
		want, ok := w.files[num]
		e.Check(ok && !seen[num], "%s: Catalog lists %q", what, full)
		seen[num] = true
		e.Check(num > last, "%s: Catalog lists %02X after %02X", what, num, last)
		last = num
		e.Check(d.Sectors == len(want)/256 && d.Length == len(want), "%s: Catalog gives %q %d sectors, length %d; want %d bytes", what, full, d.Sectors, d.Length, len(want))
		e.Check(!d.Locked && d.Type == types.FiletypeBinary, "%s: Catalog gives %q type %v, locked %v", what, full, d.Type, d.Locked)
		plain := fmt.Sprintf("DF%02X", num)
		syms := w.symNames(num)
		if len(syms) == 0 {
			e.Check(full == plain && d.Name == plain, "%s: Catalog shows %q / %q for %s, which has no symbol", what, full, d.Name, plain)
		} else {
			ok := false
			for _, s := range syms {
				ok = ok || (strings.EqualFold(d.Name, s) && strings.EqualFold(full, plain+":"+s))
			}
			e.Check(ok, "%s: Catalog shows %q / %q for %s, whose symbols are %v", what, full, d.Name, plain, syms)
		}
	}
	for f, want := range w.files {
		if w.table(f) {
			continue
		}
		fi, err := o.GetFile(fmt.Sprintf("DF%02X", f))
		e.Check(err == nil, "%s: GetFile DF%02X: %v", what, f, err)
		e.Check(bytes.Equal(fi.Data, want), "%s: GetFile DF%02X: %s", what, f, cli.Diff(want, fi.Data))
		d := fi.Descriptor
		e.Check(d.Length == len(want) && d.Sectors == len(want)/256 && !d.Locked && d.Type == types.FiletypeBinary, "%s: GetFile DF%02X describes the file as %+v; want %d bytes", what, f, d, len(want))
		plain, named := fmt.Sprintf("DF%02X", f), false
		syms := w.symNames(f)
		for _, s := range syms {
			named = named || strings.EqualFold(d.Name, s)
		}
		e.Check(named || len(syms) == 0 && d.Name == plain, "%s: GetFile DF%02X gives the name %q; its symbols are %v", what, f, d.Name, syms)
		start := uint16(0)
		if f == 1 {
			start = 0x1800
		}
		e.Check(fi.StartAddress == start, "%s: GetFile DF%02X gives the start address %04X, want %04X", what, f, fi.StartAddress, start)
	}
	for n := range w.syms {
		if numLike(n) {
			continue
		}
		f := w.symFile(n)
		fi, err := o.GetFile(n)
		if want, ok := w.files[f]; ok {
			e.Check(err == nil, "%s: GetFile %s: %v", what, n, err)
			if !w.table(f) {
				e.Check(bytes.Equal(fi.Data, want), "%s: GetFile %s: %s", what, n, cli.Diff(want, fi.Data))
			}
		} else {
			e.Check(err != nil, "%s: GetFile %s (at %04X) returned %d bytes", what, n, w.syms[n], len(fi.Data))
		}
	}
}

func (w *world) step(i int, o op, names []string) {
	what := fmt.Sprintf("op %d", i)
	switch o.Kind {
	case "put":
		w.put(what, o, names)
	case "get":
		w.get(what, o, names)
	case "del":
		w.del(what, o, names)
	case "reopen":
		w.op = open(w.e, append([]byte(nil), w.op.GetBytes()...))
	}
	w.check(what + " " + o.Kind)
}
