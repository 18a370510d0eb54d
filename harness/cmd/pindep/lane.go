package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/applesoft"
	"github.com/zellyn/diskii/basic/integer"
	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/dos3"
	derrors "github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"

	"verif/fw"
	"verif/img"
)

// A lane is the work on one image: where it comes from, and a list of operations.
type lane struct {
	Kind   string // for img.SysImage
	Seed   uint64
	Stored string // order of the image file
	Ext    string
	Order  string
	System string
	Flip   int // 0, or one byte of the image (1 + position) to change
	Ops    []op
}

type op struct {
	K int // which operation
	A int
	N string
}

const nOps = 18

var facs = func() []types.OperatorFactory {
	return []types.OperatorFactory{dos3.OperatorFactory{}, supermon.OperatorFactory{}, prodos.OperatorFactory{}}
}

// world is a lane being worked on.
type world struct {
	l    lane
	dir  string
	in   []byte // the image file's bytes, given to OpenImage
	orig uint64
	op   types.Operator
	ord  types.DiskOrder
	bmp  prodos.VolumeBitMap
	buf  []byte
	// What earlier operations returned: rendered then, and rendered again at the end.
	kept []kept
}

type kept struct {
	step int
	was  string
	now  func() string
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func data(b []byte) string { return fmt.Sprintf("%d bytes, %016x", len(b), hash(b)) }

func pos(n, size int) int {
	if n < 0 {
		n = -(n + 1)
	}
	return n % size
}

func start(l lane, dir string) *world {
	w := &world{l: l, dir: dir}
	if l.Kind == "twins" {
		w.in = img.Reorder(twins(l.Seed), "po", l.Stored)
	} else {
		w.in = img.SysImage(l.Kind, l.Seed, l.Stored)
	}
	if l.Flip > 0 && len(w.in) > 0 {
		w.in[(l.Flip-1)%len(w.in)] ^= 0x01
	}
	w.orig = hash(w.in)
	w.buf = img.Bytes(l.Seed+7, disk.FloppyDiskBytes)
	return w
}

func (w *world) open() string {
	var err error
	w.op, w.ord, err = disk.OpenImage(w.in, "image"+w.l.Ext, types.DiskOrder(w.l.Order), w.l.System, facs(), 0)
	if err != nil {
		w.op = nil
		return "not opened: " + class(err)
	}
	return fmt.Sprintf("opened as %s, %s", w.op.Name(), w.ord)
}

// class tells errors apart by the predicates of the errors package only.
func class(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("error (%v %v %v)", derrors.IsFileExists(err), derrors.IsFileNotFound(err), derrors.IsOutOfSpace(err))
}

// show renders results; those that come with an error do not count.
func show(err error, vs ...any) string {
	if err != nil {
		return class(err) + "; "
	}
	b, jerr := json.Marshal(vs)
	if jerr != nil {
		return "cannot be shown; "
	}
	return string(b) + "; "
}

// keep renders a result now, and remembers to render it again at the end.
func (w *world) keep(step int, f func() string) string {
	s := f()
	w.kept = append(w.kept, kept{step, s, f})
	return s
}

// step runs operation i of the lane (-1: open) and renders what it returned.
func (w *world) step(i int) (res string) {
	if msg := fw.NoPanic(func() {
		if i < 0 {
			res = w.open()
		} else {
			res = w.do(i, w.l.Ops[i])
		}
	}); msg != "" {
		return "panic"
	}
	return res
}

func (w *world) do(step int, o op) string {
	if w.op == nil && o.K < 7 {
		return "no image"
	}
	switch o.K {
	case 0, 1:
		sub := ""
		if o.K == 1 {
			sub = o.N
		}
		ds, err := w.op.Catalog(sub)
		return w.keep(step, func() string { return show(err, ds) })
	case 2:
		fi, err := w.op.GetFile(o.N)
		return w.keep(step, func() string {
			return show(err, fi.Descriptor, fi.StartAddress, data(fi.Data))
		})
	case 3:
		n := pos(o.A, 3000)
		d := img.Bytes(uint64(o.A), n)
		fi := types.FileInfo{Descriptor: types.Descriptor{Name: o.N, Length: n, Type: types.FiletypeBinary}, Data: d}
		existed, err := w.op.PutFile(fi, o.A&1 == 0)
		return show(err, existed) + data(w.op.GetBytes())
	case 4:
		existed, err := w.op.Delete(o.N)
		return show(err, existed) + data(w.op.GetBytes())
	case 5:
		return data(w.op.GetBytes())
	case 6:
		// Write it to a file and go on with that file.
		f := filepath.Join(w.dir, "image"+w.l.Ext)
		if err := disk.WriteBack(f, w.op, w.ord, true); err != nil {
			return class(err)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return "cannot read the file back"
		}
		op, ord, err := disk.OpenFilename(f, types.DiskOrder(w.l.Order), w.l.System, facs(), 0)
		if err != nil {
			return data(b) + ", not opened: " + class(err)
		}
		w.op, w.ord = op, ord
		return fmt.Sprintf("%s, %s, %s", data(b), op.Name(), ord)
	case 7:
		var order []int
		switch pos(o.A, 4) {
		case 0:
			order = disk.LogicalToPhysicalByName["do"]
		case 1:
			order = disk.PhysicalToLogicalByName["po"]
		default:
			order = img.Perm(uint64(o.A), 16)
		}
		b, err := disk.Swizzle(w.in, order)
		return w.keep(step, func() string { return show(err, data(b)) })
	case 8:
		l, err := applesoft.Decode(asProg(uint64(o.A)+w.l.Seed), 0x801)
		return w.keep(step, func() string { return show(err, l.String()) })
	case 9:
		l, err := integer.Decode(intProg(uint64(o.A) + w.l.Seed))
		return w.keep(step, func() string { return show(err, l.String()) })
	case 10:
		infos := types.FiletypeInfos(o.A&1 == 0)
		ft, err := types.FiletypeForName(o.N)
		return w.keep(step, func() string { return show(nil, infos, types.Filetype(pos(o.A, 256)).String()) + show(err, ft) })
	case 11:
		s := string(img.Bytes(uint64(o.A)+w.l.Seed, pos(o.A, 200)))
		return fmt.Sprintf("%q %q", basic.ChevronControlCodes(s), integer.ChevronControlCodes(s))
	case 12:
		return w.sector(step, o)
	case 13:
		return w.block(step, o)
	case 14:
		return w.bitmap(o)
	case 15:
		sop, ok := w.op.(supermon.Operator)
		if !ok {
			return "no NakedOS disk"
		}
		a, sa, sym, err := sop.ST.ParseCompoundSymbol(o.N)
		n, nf, s2, err2 := sop.ST.FilesForCompoundName(o.N)
		by, sect := sop.ST.SymbolsByAddress(), sop.SM.SectorsByFile()
		return w.keep(step, func() string {
			return show(err, a, sa, sym) + show(err2, n, nf, s2) + show(nil, by, sect)
		}) + fmt.Sprint(sop.SM.FreeSectors())
	case 16:
		t, s := byte(pos(o.A, 36)), byte(pos(o.A/36, 17))
		got, err := disk.ReadSector(w.buf, t, s)
		err2 := disk.WriteSector(w.buf, byte(pos(o.A/7, 36)), s, img.Bytes(uint64(o.A), 256))
		return w.keep(step, func() string { return show(err, data(got)) + class(err2) }) + data(w.buf)
	case 17:
		fs, del, err := dos3.ReadCatalog(w.in, 0)
		return w.keep(step, func() string { return show(err, fs, del) })
	}
	return "nothing"
}

// sector reads a sector of the lane's buffer as one of the DOS 3.3
// structures and writes it back.
func (w *world) sector(step int, o op) string {
	t, s := byte(pos(o.A, 35)), byte(pos(o.A/35, 16))
	src := w.buf
	if o.A&1 == 0 && len(w.in) >= disk.FloppyDiskBytes {
		src, t = w.in, 17
	}
	var v dos3.VTOC
	var c dos3.CatalogSector
	var l dos3.TrackSectorList
	e1 := disk.UnmarshalLogicalSector(src, &v, t, s)
	e2 := disk.UnmarshalLogicalSector(src, &c, t, s)
	e3 := disk.UnmarshalLogicalSector(src, &l, t, s)
	b1, f1 := v.ToSector()
	b2, f2 := c.ToSector()
	b3, f3 := l.ToSector()
	free := ""
	for i := range v.FreeSectors {
		for n := byte(0); n < 16; n++ {
			if v.FreeSectors[i].IsFree(n) {
				free += fmt.Sprintf("%d/%d ", i, n)
			}
		}
	}
	d := dos3.DefaultVTOC()
	return w.keep(step, func() string {
		return show(e1, v) + show(e2, c) + show(e3, l) + show(f1, data(b1)) + show(f2, data(b2)) + show(f3, data(b3)) + show(nil, d, hash([]byte(free)))
	}) + class(v.Validate())
}

// block does the same with a block and the ProDOS structures.
func (w *world) block(step int, o op) string {
	n := uint16(pos(o.A, 280))
	src := w.buf
	if o.A&1 == 0 && len(w.in) >= 11*512 {
		src, n = w.in, []uint16{2, 3, 10}[pos(o.A/2, 3)]
	}
	var k prodos.VolumeDirectoryKeyBlock
	var v prodos.VolumeDirectoryBlock
	var sk prodos.SubdirectoryKeyBlock
	var sb prodos.SubdirectoryBlock
	out := ""
	for _, x := range []interface {
		disk.BlockSink
		disk.BlockSource
		Validate() []error
	}{&k, &v, &sk, &sb} {
		err := disk.UnmarshalBlock(src, x, n)
		b, err2 := x.ToBlock()
		out += class(err) + show(err2, len(x.Validate()), data(b[:]))
	}
	var ix prodos.IndexBlock
	copy(ix[:], src)
	ix.Set(byte(o.A), uint16(o.A/3))
	return out + w.keep(step, func() string {
		return show(nil, k, v, sk, sb, ix.Get(byte(o.A)), ix.Get(byte(o.A+1)))
	})
}

// bitmap marks blocks in the lane's own volume bitmap.
func (w *world) bitmap(o op) string {
	const blocks = 5000
	if w.bmp == nil {
		w.bmp = prodos.NewVolumeBitMap(6, blocks)
	}
	n := uint16(pos(o.A, blocks))
	if o.A&1 == 0 {
		w.bmp.MarkUnused(n)
	} else {
		w.bmp.MarkUsed(n)
	}
	used := make([]byte, blocks)
	for b := uint16(0); b < blocks; b++ {
		if !w.bmp.IsFree(b) {
			used[b] = 1
		}
	}
	out := img.Bytes(w.l.Seed, 20*512)
	err := w.bmp.Write(out)
	return data(used) + show(err, data(out))
}

// asProg makes an Applesoft program of a few lines.
func asProg(seed uint64) []byte {
	r := img.Rand(seed)
	var p []byte
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		body := img.Bytes(seed+uint64(i)*31, r.Intn(30))
		for j := range body {
			body[j] = 1 + body[j]%0xE9
		}
		next := 0x801 + len(p) + 5 + len(body)
		p = append(p, byte(next), byte(next>>8), byte(i*10), byte(r.Intn(4)))
		p = append(append(p, body...), 0)
	}
	return append(p, 0, 0)
}

// intProg makes an Integer BASIC program of a few lines.
func intProg(seed uint64) []byte {
	r := img.Rand(seed)
	var p []byte
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		body := img.Bytes(seed+uint64(i)*17, r.Intn(30))
		for j := range body {
			switch b := body[j]; {
			case b < 0x80:
				body[j] = 0x12 + b%0x60
			case b&0x7f == 0x01, b >= 0xB0 && b <= 0xB9:
				body[j] = 0xC1
			}
		}
		p = append(p, byte(4+len(body)), byte(i*10), byte(r.Intn(4)))
		p = append(append(p, body...), 1)
	}
	return p
}

// alone runs a lane from start to end and returns what each step returned,
// followed by what is left at the end.
func alone(l lane, dir string) []string {
	w := start(l, dir)
	res := []string{w.step(-1)}
	for i := range l.Ops {
		res = append(res, w.step(i))
	}
	return append(res, w.end())
}

// end checks that nothing returned earlier has changed since.
func (w *world) end() string {
	var changed []string
	for _, k := range w.kept {
		now := ""
		if msg := fw.NoPanic(func() { now = k.now() }); msg != "" {
			now = "panic"
		}
		if now != k.was {
			changed = append(changed, fmt.Sprintf("what operation %d returned has changed from %s to %s", k.step, clip(k.was), clip(now)))
		}
	}
	if w.l.Kind != "hdv" && hash(w.in) != w.orig {
		changed = append(changed, "the bytes of the image file have changed")
	}
	sort.Strings(changed)
	return strings.Join(changed, "; ")
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// twins makes a ProDOS floppy whose subdirectories often have the same name.
func twins(seed uint64) []byte {
	b := img.Bytes(seed, disk.FloppyDiskBytes)
	r := img.Rand(seed)
	dirs := []*img.PDir{{Name: "VOL", Chain: []uint16{2, 3, 4, 5}, Fill: seed}}
	for i := 0; i < 2+r.Intn(5); i++ {
		parent := dirs[r.Intn(len(dirs))]
		if len(parent.Slots) > 8 {
			parent = dirs[0]
		}
		name := []string{"SUB", "SUB", "P0"}[r.Intn(3)]
		key := uint16(20 + i)
		d := &img.PDir{Name: name, Chain: []uint16{key}, Parent: parent, PSlot: len(parent.Slots), Fill: seed + uint64(i)}
		d.Slots = []*img.PEntry{{Storage: 1, Name: fmt.Sprintf("IN%d", i), Type: 4, Key: 12, Blocks: 1, EOF: 9, Fill: seed}}
		parent.Slots = append(parent.Slots, &img.PEntry{Storage: 0xD, Name: name, Type: 0xF, Key: key, Blocks: 1, EOF: 512, Dir: d, Fill: seed})
		dirs = append(dirs, d)
	}
	for _, d := range dirs {
		img.WriteDir(b, d, 280, 6)
	}
	return b
}
