package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zellyn/diskii/prodos"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

// A slot of a directory: files, subdirectories (Sub), deleted or empty.
type slot struct {
	Kind   string // file dir deleted deldir empty
	Name   string
	Type   byte
	Store  byte
	Key    uint16
	Blocks uint16
	EOF    uint32
	Fill   uint64
	Sub    *dir
}

type dir struct {
	Extra  int // empty blocks beyond those needed
	PBlock bool
	Stale  int // error of the header's file count
	Slots  []slot
}

type volCase struct {
	Blocks  int // 280 = floppy
	Name    string
	Root    dir
	Place   uint64 // placement of directory blocks
	Scatter bool
	High    bool // use the highest blocks of the device
	Junk    uint64
	File    string // order of the file, for the command
	Many    int    // further subdirectories of the volume directory
}

func pname(t *rapid.T) string {
	if rapid.Bool().Draw(t, "small") {
		return rapid.SampledFrom([]string{"A", "B", "AA", "A.B", "SUB", "SUB.DIR", "ABCDEFGHIJKLMNO", "B1"}).Draw(t, "n")
	}
	return rapid.StringMatching("[A-Z][A-Z0-9.]{0,14}").Draw(t, "name")
}

func drawDir(t *rapid.T, depth int, budget *int) dir {
	d := dir{Extra: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "extra"), PBlock: rapid.Bool().Draw(t, "pblock")}
	if rapid.IntRange(0, 9).Draw(t, "stale") == 0 {
		d.Stale = rapid.IntRange(-3, 3).Draw(t, "staleby")
	}
	n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 20), rapid.SampledFrom([]int{11, 12, 13, 25, 26, 40})).Draw(t, "n")
	if long := rapid.IntRange(0, 24).Draw(t, "long"); long == 0 {
		// Many plain entries before the others: directories of up to ten blocks.
		k := rapid.OneOf(rapid.IntRange(30, 110), rapid.IntRange(30, 110), rapid.IntRange(30, 700)).Draw(t, "before")
		for i := 0; i < k; i++ {
			d.Slots = append(d.Slots, slot{Kind: "file", Name: fmt.Sprintf("L%d", i), Store: 1, Type: 4, Key: uint16(i), Blocks: 1, EOF: uint32(i)})
		}
	}
	for i := 0; i < n; i++ {
		s := slot{
			Kind: rapid.SampledFrom([]string{"file", "file", "dir", "deleted", "deldir", "empty"}).Draw(t, "kind"),
			Name: pname(t), Type: rapid.Byte().Draw(t, "type"), Store: byte(rapid.IntRange(1, 3).Draw(t, "store")), Key: rapid.Uint16().Draw(t, "key"),
			Blocks: rapid.Uint16().Draw(t, "blocks"), EOF: rapid.Uint32Range(0, 1<<24-1).Draw(t, "eof"), Fill: rapid.Uint64().Draw(t, "fill"),
		}
		if s.Kind == "dir" {
			if depth == 0 || *budget <= 0 {
				s.Kind = "file"
			} else {
				*budget--
				sub := drawDir(t, depth-1, budget)
				s.Sub = &sub
			}
		}
		d.Slots = append(d.Slots, s)
	}
	return d
}

func drawDeep(t *rapid.T, depth int) dir {
	d := dir{PBlock: rapid.Bool().Draw(t, "pblock")}
	pre := rapid.SampledFrom([]int{0, 0, 1, 13, 14}).Draw(t, "pre")
	for i := 0; i < pre; i++ {
		d.Slots = append(d.Slots, slot{Kind: "file", Name: fmt.Sprintf("F%d", i), Store: 1, Type: 4})
	}
	if depth > 0 {
		sub := drawDeep(t, depth-1)
		d.Slots = append(d.Slots, slot{Kind: "dir", Name: pname(t), Sub: &sub})
	}
	return d
}

func drawVol(t *rapid.T) volCase {
	c := volCase{Name: pname(t), Place: rapid.Uint64().Draw(t, "place"), Scatter: rapid.Bool().Draw(t, "scatter"), Junk: rapid.Uint64().Draw(t, "junk"),
		File: rapid.SampledFrom([]string{"po", "po", "do"}).Draw(t, "file")}
	c.Blocks = rapid.OneOf(rapid.Just(280), rapid.IntRange(200, 1600)).Draw(t, "blocks")
	if rapid.IntRange(0, 30).Draw(t, "big") == 0 {
		c.Blocks = rapid.SampledFrom([]int{65535, 65536, 40000, 33000}).Draw(t, "bigblocks")
		c.High = true
	}
	if rapid.IntRange(0, 4).Draw(t, "deep") == 0 {
		c.Root = drawDeep(t, rapid.IntRange(1, 14).Draw(t, "depth"))
	} else {
		budget := rapid.IntRange(0, 12).Draw(t, "budget")
		c.Root = drawDir(t, rapid.IntRange(0, 4).Draw(t, "maxdepth"), &budget)
	}
	if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		c.Many = rapid.OneOf(rapid.IntRange(20, 300), rapid.SampledFrom([]int{127, 128, 129, 255, 256, 257})).Draw(t, "subdirs")
		c.Blocks = rapid.IntRange(500, 1600).Draw(t, "manyblocks")
		c.High = false
	}
	return c
}

// sample keeps all of a short list, and the ends and every k-th of a long one.
func sample(ps []string) []string {
	if len(ps) <= 60 {
		return ps
	}
	var out []string
	for i, p := range ps {
		if i < 8 || i >= len(ps)-8 || i%(len(ps)/16) == 3 {
			out = append(out, p)
		}
	}
	return out
}

type builtVol struct {
	image []byte
	dirs  map[string]*img.PDir
	order []string
	files []string // paths of plain files
}

func buildVol(c volCase) *builtVol {
	if c.Blocks < 24 || c.Blocks > 65536 || len(c.Name) == 0 || len(c.Name) > 15 {
		return nil
	}
	v := &builtVol{dirs: map[string]*img.PDir{}}
	v.image = make([]byte, c.Blocks*512)
	if c.Junk%3 != 0 && c.Blocks < 4000 {
		copy(v.image, img.Bytes(c.Junk, len(v.image)))
	}
	if c.Blocks == 280 {
		// Sector 0 of track 17 must not look like a DOS VTOC in either order.
		for _, s := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15} {
			v.image[(17*16+s)*256+3] = 0
		}
	}
	var free []int
	last := min(c.Blocks, 65536)
	bitmap := (c.Blocks + 4095) / 4096
	first := 6 + bitmap
	if first >= last {
		return nil
	}
	n := min(last-first, 3000)
	base := first
	if c.High {
		base = last - n
	}
	for i := 0; i < n; i++ {
		free = append(free, base+i)
	}
	if c.Scatter {
		p := img.Perm(c.Place, n)
		f2 := make([]int, n)
		for i, k := range p {
			f2[i] = free[k]
		}
		free = f2
	}
	get := func() (uint16, bool) {
		if len(free) == 0 {
			return 0, false
		}
		b := free[0]
		free = free[1:]
		return uint16(b), true
	}
	ok := true
	var place func(d dir, name, path string, parent *img.PDir, pslot int) *img.PDir
	place = func(d dir, name, path string, parent *img.PDir, pslot int) *img.PDir {
		need := 1
		for img.Capacity(need) < len(d.Slots) {
			need++
		}
		need += max(0, min(d.Extra, 5))
		pd := &img.PDir{Name: name, Parent: parent, PSlot: pslot, PBlock: d.PBlock, Fill: uint64(len(path)), Stale: d.Stale}
		if parent == nil {
			pd.Chain = []uint16{2}
			std := []uint16{3, 4, 5}
			for i := 1; i < need; i++ {
				if i <= 3 && !c.Scatter {
					pd.Chain = append(pd.Chain, std[i-1])
					continue
				}
				b, k := get()
				ok = ok && k
				pd.Chain = append(pd.Chain, b)
			}
		} else {
			for i := 0; i < need; i++ {
				b, k := get()
				ok = ok && k
				pd.Chain = append(pd.Chain, b)
			}
		}
		v.dirs[path] = pd
		v.order = append(v.order, path)
		used := map[string]bool{}
		for i, s := range d.Slots {
			if s.Kind == "empty" || len(s.Name) == 0 || len(s.Name) > 15 {
				pd.Slots = append(pd.Slots, nil)
				continue
			}
			nm := s.Name
			for k := 0; used[nm] && (s.Kind == "file" || s.Kind == "dir"); k++ {
				nm = fmt.Sprintf("Q%d", k)
			}
			pe := &img.PEntry{Name: nm, Type: s.Type, Storage: s.Store&3 | 1, Key: s.Key, Blocks: s.Blocks, EOF: s.EOF & 0xFFFFFF, Fill: s.Fill}
			switch s.Kind {
			case "deleted":
				pe.Deleted = true
			case "deldir":
				pe.Deleted, pe.Storage, pe.Type = true, 0xD, 0x0F
			case "dir":
				used[nm] = true
				sub := s.Sub
				if sub == nil {
					sub = &dir{}
				}
				full := nm
				if path != "" {
					full = path + "/" + nm
				}
				pe.Storage, pe.Type, pe.Dir = 0xD, 0x0F, place(*sub, nm, full, pd, i)
				pe.Key = pe.Dir.Chain[0]
			default:
				used[nm] = true
				full := nm
				if path != "" {
					full = path + "/" + nm
				}
				v.files = append(v.files, full)
			}
			pd.Slots = append(pd.Slots, pe)
		}
		return pd
	}
	root := c.Root
	if c.Many > 0 && c.Many <= 1000 {
		root.Slots = append([]slot{}, root.Slots...)
		for i := 0; i < c.Many; i++ {
			in := dir{Slots: []slot{{Kind: "file", Name: fmt.Sprintf("IN%d", i), Store: 1, Type: 4, EOF: uint32(i)}}}
			root.Slots = append(root.Slots, slot{Kind: "dir", Name: fmt.Sprintf("S.%d", i), Sub: &in})
		}
	}
	place(root, c.Name, "", nil, 0)
	if !ok {
		return nil
	}
	for _, p := range v.order {
		img.WriteDir(v.image, v.dirs[p], c.Blocks, 6)
	}
	return v
}

func volLabels(e *fw.Env, c volCase, v *builtVol) {
	depth, long, gap := 0, false, false
	for p, d := range v.dirs {
		if p != "" {
			depth = max(depth, strings.Count(p, "/")+1)
		}
		long = long || len(d.Chain) > 1
		for i, s := range d.Slots {
			gap = gap || ((s == nil || s.Deleted) && i+1 < len(d.Slots))
		}
	}
	if depth > 0 || long || gap {
		e.Nontrivial()
	}
	e.Label("depth=%d", min(depth, 8))
	e.Label("dirs=%d+", len(v.dirs)/5*5)
	e.Label("multi-block=%v gap=%v floppy=%v", long, gap, c.Blocks == 280)
}

func badPaths(v *builtVol) []string {
	isDir := map[string]bool{}
	for p := range v.dirs {
		isDir[p] = true
	}
	cand := append([]string{"NO.SUCH.DIR", "NO/SUCH"}, v.files...)
	for _, p := range v.order {
		if p != "" {
			cand = append(cand, p+"/NOPE", p+"X", p[:len(p)-1], p+"/"+p)
			if i := strings.LastIndexByte(p, '/'); i >= 0 {
				cand = append(cand, p[i+1:]) // the last part alone
			}
		}
	}
	var out []string
	for _, p := range cand {
		if !isDir[p] && !strings.HasSuffix(p, "/") && p != "" {
			out = append(out, p)
		}
	}
	return out
}

func init() {
	fw.Rule("C08", "Drawn: ProDOS volumes built by an independent writer: floppies and .hdv devices of up to 65,536 blocks, directory trees of any shape up to 14 levels deep, directories over several blocks placed in order, scattered or at the top of the device, files, deleted files, deleted subdirectories, empty slots, equal names at different levels, parent pointers in both styles, file counts in the directory headers now and then out of step. Every directory is listed, and paths that name none are tried. Oracle: the tree the volume was built from. Non-trivial: a subdirectory, a multi-block directory, or a deleted or empty slot before a used one; distinct by case.",
		"Names are unique within a directory; paths are given in stored case without leading or trailing slash.")
	fw.Draw("C08", "catalog", 6000, 80000, drawVol, func(e *fw.Env, c volCase) {
		v := buildVol(c)
		if v == nil {
			return
		}
		keep := append([]byte{}, v.image...)
		if c.Junk%5 == 0 && c.Blocks < 4000 {
			// The buffer held another volume before.
			other := img.ProDisk(c.Junk, c.Blocks, int(c.Junk%9))
			copy(v.image, other)
			op, err := prodos.OperatorFactory{}.Operator(v.image, 0)
			e.Check(err == nil, "cannot open: %v", err)
			ds, err := op.Catalog("")
			e.Check(err == nil && len(ds) == int(c.Junk%9)+1, "the volume read before: %d entries, err %v", len(ds), err)
			ds, err = op.Catalog("SUB")
			e.Check(err == nil && len(ds) == 1, "the volume read before, SUB: %d entries, err %v", len(ds), err)
			copy(v.image, keep)
			e.Label("buffer reused")
		}
		op, err := prodos.OperatorFactory{}.Operator(v.image, 0)
		e.Check(err == nil, "cannot open: %v", err)
		e.Check(prodos.OperatorFactory{}.SeemsToMatch(v.image, 0), "well-formed ProDOS volume does not seem to match")
		for _, p := range sample(v.order) {
			ds, err := op.Catalog(p)
			e.Check(err == nil, "Catalog(%q): %v", p, err)
			i := 0
			for _, s := range v.dirs[p].Slots {
				if s == nil || s.Deleted {
					continue
				}
				e.Check(i < len(ds), "Catalog(%q) lists %d entries, %q is missing", p, len(ds), s.Name)
				d := ds[i]
				e.Check(d.Name == s.Name && d.Type == types.Filetype(s.Type) && d.Blocks == int(s.Blocks) && d.Length == int(s.EOF),
					"Catalog(%q) entry %d: %+v, want name %q type %02X blocks %d length %d", p, i, d, s.Name, s.Type, s.Blocks, s.EOF)
				i++
			}
			e.Check(i == len(ds), "Catalog(%q) lists %d entries, want %d", p, len(ds), i)
		}
		for _, p := range sample(badPaths(v)) {
			_, err := op.Catalog(p)
			e.Check(err != nil, "Catalog(%q), which is no subdirectory, succeeded", p)
		}
		e.Check(bytes.Equal(op.GetBytes(), keep), "listing changed the image: %s", cli.Diff(keep, op.GetBytes()))
		volLabels(e, c, v)
	})
	fw.Draw("C08", "command", 1200, 15000, func(t *rapid.T) volCase {
		c := drawVol(t)
		if c.Blocks > 2000 {
			c.Blocks = 700
		}
		return c
	}, func(e *fw.Env, c volCase) {
		v := buildVol(c)
		if v == nil {
			return
		}
		d := e.Dir()
		name, file := "disk.hdv", v.image
		if c.Blocks == 280 {
			if c.File != "do" && c.File != "po" {
				return
			}
			name, file = "disk."+c.File, img.Reorder(v.image, "po", c.File)
		}
		cli.Write(d, name, file)
		was := cli.Snapshot(d)
		for i, p := range v.order {
			if i > 5 && i != len(v.order)-1 {
				continue
			}
			want := ""
			for _, s := range v.dirs[p].Slots {
				if s != nil && !s.Deleted {
					want += s.Name + "\n"
				}
			}
			args := []string{"ls", name}
			if i%2 == 1 {
				args = append(args, "--system", "prodos")
			}
			if p != "" {
				args = append(args, p)
			}
			r := cli.RunV(e, d, args).OK(e)
			e.Check(string(r.Out) == want, "%q printed %.300q, want %.300q", args, r.Out, want)
		}
		for i, p := range badPaths(v) {
			if i < 3 {
				cli.RunV(e, d, []string{"ls", name, p}).Refused(e)
			}
		}
		cli.Unchanged(e, d, was, "ls")
		volLabels(e, c, v)
	})
}
