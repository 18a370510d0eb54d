package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
	"verif/ngen"
)

type fakeSys struct {
	Name             string
	Order            string
	MatchDO, MatchPO bool
	OpenDO, OpenPO   bool // whether opening succeeds
}

type openCase struct {
	Seed   uint64
	Size   int
	Ext    string
	Order  string
	System string
	Sys    []fakeSys
	Debug  int
	Via    int    // 0 OpenImage, 1 OpenFilename, 2 OpenFile
	Dir    string // directory part of the name
}

func init() {
	fw.Rule("C04", "Drawn: image size, file name, order, system, and a list of stand-in systems each with its own order and, per file order, whether it claims to match and whether it can be opened. Oracle: the selection rules written as a table; the stand-ins also check the bytes they are shown. The real systems are then given generated images of every system, sound and with one identifying field made illegal. Non-trivial: at least two candidate (order, system) pairs, or a refusal, or a real image in a known order; distinct by case.",
		"A 143,360-byte file named .hdv under automatic order is left open by the statement and not generated.")
	fw.Draw("C04", "select", 30000, 400000, func(t *rapid.T) openCase {
		c := openCase{Seed: rapid.Uint64().Draw(t, "seed"),
			Size:   img.Size,
			Ext:    ngen.Ext(t),
			Order:  rapid.SampledFrom([]string{"auto", "auto", "auto", "do", "po", "raw", "", "xx"}).Draw(t, "order"),
			System: rapid.SampledFrom([]string{"auto", "auto", "auto", "a", "b", "prodos", "zz"}).Draw(t, "system"),
		}
		c.Via = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2}).Draw(t, "via")
		c.Dir = rapid.SampledFrom([]string{"", "", "d/", "d.po/", "d.do/", "d.hdv/", "d.x/"}).Draw(t, "dir")
		if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
			c.Size = rapid.OneOf(
				rapid.SampledFrom([]int{116480, 512, 1024, 819200, img.Size - 512, img.Size + 512, 511, 513, 143359, 143361, 100}),
				rapid.IntRange(1, 2000), rapid.Map(rapid.IntRange(1, 2000), func(n int) int { return n * 512 })).Draw(t, "size")
			if rapid.Bool().Draw(t, "hdv") {
				c.Ext = ".hdv"
			}
		}
		c.Sys = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) fakeSys {
			bias := rapid.SampledFrom([]bool{true, true, true, false})
			return fakeSys{
				Name:    rapid.SampledFrom([]string{"a", "b", "prodos", "a"}).Draw(t, "name"),
				Order:   rapid.SampledFrom([]string{"do", "po", "raw"}).Draw(t, "order"),
				MatchDO: rapid.Bool().Draw(t, "mdo"), MatchPO: rapid.Bool().Draw(t, "mpo"),
				OpenDO: bias.Draw(t, "odo"), OpenPO: bias.Draw(t, "opo"),
			}
		}), 0, 4).Draw(t, "sys")
		return c
	}, runOpen)

	type big struct {
		Blocks int
		Extra  int
	}
	fw.Enum("C04", "hdv-limit", func(_ string, yield func(big) bool) {
		for _, c := range []big{{65535, 0}, {65536, 0}, {65537, 0}, {65536, 1}, {65535, 511}, {65536, 256}, {70000, 0}, {131072, 0}} {
			if !yield(c) {
				return
			}
		}
	}, func(e *fw.Env, c big) {
		size := c.Blocks*512 + c.Extra
		if size < 512 || size > 100<<20 {
			return
		}
		b := make([]byte, size)
		copy(b, img.Bytes(3, 4096))
		fac := &fakeFactory{name: "prodos", order: types.DiskOrderPO}
		op, ord, err := disk.OpenImage(b, "big.hdv", "auto", "auto", []types.OperatorFactory{fac}, 0)
		ok := size%512 == 0 && size <= 32<<20
		e.Check(ok == (err == nil), "size %d: err=%v, want opened=%v", size, err, ok)
		if ok {
			e.Check(ord == types.DiskOrderPO && bytes.Equal(op.GetBytes(), b), "size %d: wrong order %q or bytes", size, ord)
		}
		e.Nontrivial()
	})
}

func runOpen(e *fw.Env, c openCase) {
	if c.Size <= 0 || c.Size > 2<<20 {
		return
	}
	ext := ""
	if i := strings.LastIndexByte(c.Ext, '.'); i >= 0 {
		ext = strings.ToLower(c.Ext[i:])
	}
	floppy := c.Size == img.Size
	if ext == "." {
		return // whether that is an extension is left open
	}
	if floppy && ext == ".hdv" && c.Order == "auto" {
		return
	}
	file := img.Bytes(c.Seed, c.Size)
	keep := append([]byte{}, file...)
	type view struct{ do, po []byte }
	views := map[string]view{}
	if floppy {
		for _, o := range []string{"do", "po", "raw"} {
			views[o] = view{img.Reorder(file, "do", o), img.Reorder(file, "po", o)}
		}
	}
	bad := ""
	facs := []types.OperatorFactory{}
	for _, s := range c.Sys {
		s := s
		if _, ok := img.L2P[s.Order]; !ok {
			return
		}
		which := func(b []byte) string {
			if !floppy {
				if !bytes.Equal(b, keep) {
					bad = "device bytes were rearranged"
				}
				return "po"
			}
			switch {
			case bytes.Equal(b, views[s.Order].do):
				return "do"
			case bytes.Equal(b, views[s.Order].po):
				return "po"
			}
			bad = fmt.Sprintf("system %s (%s order) was shown bytes of neither file order", s.Name, s.Order)
			return "do"
		}
		facs = append(facs, &fakeFactory{name: s.Name, order: types.DiskOrder(s.Order),
			match: func(b []byte) bool {
				if which(b) == "do" {
					return s.MatchDO
				}
				return s.MatchPO
			},
			open: func(b []byte) error {
				ok := s.OpenPO
				if which(b) == "do" {
					ok = s.OpenDO
				}
				if !ok {
					return fmt.Errorf("cannot open")
				}
				return nil
			}})
	}
	// Oracle.
	wantSys, wantOrder := -1, ""
	candidates := 0
	sel := []int{}
	for i, s := range c.Sys {
		if c.System == "auto" || c.System == s.Name {
			sel = append(sel, i)
		}
	}
	switch {
	case floppy:
		var orders []string
		switch c.Order {
		case "do", "po":
			orders = []string{c.Order}
		case "auto":
			switch ext {
			case ".do", ".po":
				orders = []string{ext[1:]}
			case ".dsk", "":
				orders = []string{"do", "po"}
			}
		}
		candidates = len(orders) * len(sel)
		open := func(i int, o string) bool {
			return (o == "do" && c.Sys[i].OpenDO) || (o == "po" && c.Sys[i].OpenPO)
		}
		match := func(i int, o string) bool {
			return (o == "do" && c.Sys[i].MatchDO) || (o == "po" && c.Sys[i].MatchPO)
		}
		if len(orders) == 1 && c.System != "auto" {
			if len(sel) > 0 && open(sel[0], orders[0]) {
				wantSys, wantOrder = sel[0], orders[0]
			}
			// Which of several systems of the same name: the first.
		} else {
		search:
			for _, o := range orders {
				for _, i := range sel {
					if match(i, o) && open(i, o) {
						wantSys, wantOrder = i, o
						break search
					}
				}
			}
		}
	case ext == ".hdv" && c.Size%512 == 0 && (c.Order == "auto" || c.Order == "po") && (c.System == "auto" || c.System == "prodos"):
		for i, s := range c.Sys {
			if s.Name == "prodos" {
				if s.OpenPO {
					wantSys, wantOrder = i, "po"
				}
				break
			}
		}
	}
	var op types.Operator
	var ord types.DiskOrder
	var err error
	name := c.Dir + "name" + c.Ext
	if strings.Contains(c.Ext, "/") || strings.Contains(name, "..") {
		return
	}
	if c.Via == 0 {
		op, ord, err = disk.OpenImage(file, name, types.DiskOrder(c.Order), c.System, facs, 0)
	} else {
		name = filepath.Join(e.Dir(), name)
		if filepath.Dir(name) != e.Dir() {
			if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
				panic(err)
			}
		}
		_, _, err = disk.OpenFilename(name, types.DiskOrder(c.Order), c.System, facs, 0)
		e.Check(err != nil, "opening a file that does not exist succeeded")
		if err := os.WriteFile(name, file, 0o644); err != nil {
			panic(err)
		}
		if c.Via == 1 {
			op, ord, err = disk.OpenFilename(name, types.DiskOrder(c.Order), c.System, facs, 0)
		} else {
			f, ferr := os.Open(name)
			if ferr != nil {
				panic(ferr)
			}
			op, ord, err = disk.OpenFile(f, types.DiskOrder(c.Order), c.System, facs, 0)
		}
		now, rerr := os.ReadFile(name)
		e.Check(rerr == nil && bytes.Equal(now, keep), "opening the file changed it")
	}
	e.Check(bad == "", "%s", bad)
	e.Check((err == nil) == (wantSys >= 0), "err=%v, want opened=%v (system %d order %q)", err, wantSys >= 0, wantSys, wantOrder)
	if err == nil {
		e.Check(string(ord) == wantOrder, "reported order %q, want %q", ord, wantOrder)
		f, ok := op.(*fakeOp)
		e.Check(ok, "got a foreign operator %T", op)
		e.Check(f.name == c.Sys[wantSys].Name && string(f.order) == c.Sys[wantSys].Order, "opened with system %s/%s, want %s/%s", f.name, f.order, c.Sys[wantSys].Name, c.Sys[wantSys].Order)
		want := keep
		if floppy {
			want = img.Reorder(keep, wantOrder, string(f.order))
		}
		e.Check(bytes.Equal(f.data, want), "wrong bytes: %s", cli.Diff(want, f.data))
	} else {
		e.Check(op == nil, "an operator was returned together with an error")
	}
	if candidates > 1 || err != nil {
		e.Nontrivial()
	}
	e.Label("floppy=%v opened=%v candidates>1=%v order=%s", floppy, err == nil, candidates > 1, ord)
}
