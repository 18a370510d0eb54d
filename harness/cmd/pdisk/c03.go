package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

// fakeOp is an operator that just holds its bytes.
type fakeOp struct {
	name  string
	order types.DiskOrder
	data  []byte
}

func (o *fakeOp) Name() string                               { return o.name }
func (o *fakeOp) DiskOrder() types.DiskOrder                 { return o.order }
func (o *fakeOp) HasSubdirs() bool                           { return false }
func (o *fakeOp) Catalog(string) ([]types.Descriptor, error) { return nil, nil }
func (o *fakeOp) GetFile(string) (types.FileInfo, error) {
	return types.FileInfo{}, fmt.Errorf("none")
}
func (o *fakeOp) Delete(string) (bool, error)                { return false, nil }
func (o *fakeOp) PutFile(types.FileInfo, bool) (bool, error) { return false, fmt.Errorf("none") }
func (o *fakeOp) GetBytes() []byte                           { return o.data }

// fakeFactory is a system under the control of a case.
type fakeFactory struct {
	name  string
	order types.DiskOrder
	match func([]byte) bool
	open  func([]byte) error
}

func (f *fakeFactory) Name() string                          { return f.name }
func (f *fakeFactory) DiskOrder() types.DiskOrder            { return f.order }
func (f *fakeFactory) SeemsToMatch(b []byte, debug int) bool { return f.match == nil || f.match(b) }
func (f *fakeFactory) Operator(b []byte, debug int) (types.Operator, error) {
	if f.open != nil {
		if err := f.open(b); err != nil {
			return nil, err
		}
	}
	return &fakeOp{f.name, f.order, b}, nil
}

type change struct {
	T, S int
	Pos  int // a byte offset, or -1 for the whole sector
	Val  byte
}

type wbCase struct {
	Seed     uint64
	Flat     bool
	File     string // order of the file
	Sys      string // order of the system
	Explicit bool   // order given, or found from the extension
	Changes  []change
	HDV      int // blocks of an .hdv device, 0 = floppy
	Exists   int // output: 0 absent, 1 present and overwrite, 2 present without overwrite
	ViaFile  bool
}

func init() {
	fw.Rule("C03", "Drawn: image content, file order (do/po), order of a stand-in file system (do/po/raw) and how the order is given; a list of changed bytes or sectors; floppies and .hdv devices of any size; output absent, present, or present and protected. Oracle: an independent sector move in both directions. Non-trivial: the two orders differ or at least one sector is changed; distinct by case.")
	fw.Draw("C03", "open-writeback", 6000, 80000, func(t *rapid.T) wbCase {
		c := wbCase{Seed: rapid.Uint64().Draw(t, "seed"), Flat: rapid.Bool().Draw(t, "flat"),
			File:     rapid.SampledFrom([]string{"do", "po"}).Draw(t, "file"),
			Sys:      rapid.SampledFrom([]string{"do", "po", "raw"}).Draw(t, "sys"),
			Explicit: rapid.Bool().Draw(t, "explicit"),
			Exists:   rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "exists"),
			ViaFile:  rapid.Bool().Draw(t, "viafile"),
		}
		if rapid.IntRange(0, 4).Draw(t, "hdv?") == 0 {
			c.HDV = rapid.OneOf(rapid.IntRange(1, 600), rapid.SampledFrom([]int{279, 281, 1600, 227, 228, 65535, 65536})).Draw(t, "blocks")
		}
		c.Changes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) change {
			return change{rapid.IntRange(0, 34).Draw(t, "t"), rapid.IntRange(0, 15).Draw(t, "s"), rapid.IntRange(-1, 255).Draw(t, "pos"), rapid.Byte().Draw(t, "val")}
		}), 0, 4).Draw(t, "changes")
		return c
	}, runWB)
}

func runWB(e *fw.Env, c wbCase) {
	if _, ok := img.L2P[c.Sys]; !ok || (c.File != "do" && c.File != "po") || c.HDV == 280 || c.HDV < 0 || c.HDV > 65536 {
		return
	}
	var file []byte
	name, order := "x."+c.File, types.DiskOrderAuto
	if c.Explicit {
		name, order = "x.dsk", types.DiskOrder(c.File)
	}
	fac := &fakeFactory{name: "thing", order: types.DiskOrder(c.Sys)}
	if c.HDV > 0 {
		file = img.Bytes(c.Seed, c.HDV*512)
		name, order = "x.hdv", types.DiskOrderAuto
		fac = &fakeFactory{name: "prodos", order: types.DiskOrderPO}
	} else {
		file = content(c.Seed, c.Flat)
	}
	keep := append([]byte{}, file...)
	d := e.Dir()
	var op types.Operator
	var got types.DiskOrder
	var err error
	facs := []types.OperatorFactory{fac}
	if c.ViaFile {
		p := cli.Write(d, name, file)
		op, got, err = disk.OpenFilename(p, order, "auto", facs, 0)
		os.Remove(p)
	} else {
		op, got, err = disk.OpenImage(file, name, order, "auto", facs, 0)
	}
	e.Check(err == nil, "cannot open: %v", err)
	wantOrder := c.File
	if c.HDV > 0 {
		wantOrder = "po"
	}
	e.Check(string(got) == wantOrder, "reported order %q, want %q", got, wantOrder)
	logical := keep
	if c.HDV == 0 {
		logical = img.Reorder(keep, c.File, c.Sys)
	}
	e.Check(bytes.Equal(op.GetBytes(), logical), "opened %s as %s: %s", c.File, c.Sys, cli.Diff(logical, op.GetBytes()))
	model := append([]byte{}, logical...)
	ob := op.GetBytes()
	for _, ch := range c.Changes {
		off := (ch.T*16 + ch.S) * 256
		if off < 0 || off+256 > len(ob) || ch.Pos > 255 {
			continue
		}
		for i := 0; i < 256; i++ {
			if ch.Pos < 0 || ch.Pos == i {
				ob[off+i] ^= ch.Val | 1
				model[off+i] ^= ch.Val | 1
			}
		}
	}
	want := model
	if c.HDV == 0 {
		want = img.Reorder(model, c.Sys, c.File)
	}
	out := filepath.Join(d, "out.img")
	if c.Exists > 0 {
		cli.Write(d, "out.img", bytes.Repeat([]byte("old"), []int{60000, 60000, 0, 1}[c.Seed%4]))
	}
	was := cli.Snapshot(d)
	err = disk.WriteBack(out, op, got, c.Exists == 1)
	if c.Exists == 2 {
		e.Check(err != nil, "WriteBack replaced an existing file without overwrite")
		cli.Unchanged(e, d, was, "refused WriteBack")
		e.Label("protected")
		return
	}
	e.Check(err == nil, "WriteBack: %v", err)
	res := cli.Read(e, d, "out.img")
	e.Check(bytes.Equal(res, want), "written back %s from %s: %s", c.File, c.Sys, cli.Diff(want, res))
	e.Check(bytes.Equal(op.GetBytes(), model), "WriteBack changed the operator's bytes: %s", cli.Diff(model, op.GetBytes()))
	if len(c.Changes) > 0 || c.File != c.Sys {
		e.Nontrivial()
	}
	e.Label("file=%s sys=%s hdv=%v changed=%v", c.File, c.Sys, c.HDV > 0, len(c.Changes) > 0)
}
