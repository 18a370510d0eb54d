package main

import (
	"bytes"
	"fmt"
	"reflect"

	derrors "github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
)

type refuseCase struct {
	H     history
	Fill  int  // symbols to fill the table with
	Every bool // every file number in use
}

var badNames = []string{"A:B:C", "05:06", "FE:FOO", "00:FOO", "FOO:BAR", "DFFE:FOO", ":FOO", "XY", "ABCDEFGHIJ", "A B C", "F.OO", "05:A-B-C", "05:AB", "000000000", "FOO!", "05:DF07"}

func init() {
	fw.Rule("C13", "a case is a generated disk (often full, with a full symbol table, or with every file number used) and a history mixing operations that must be refused, for every reason, with ones that must succeed; bytes, listing and lookups are compared before and after each refusal, and later operations against the model. Non-trivial: at least one operation was refused.",
		"when a put is both too big and onto an existing file either reason may be reported",
		"the empty name and NN: (empty symbol) are left open")
	fw.Draw("C13", "refuse", 2500, 40000, func(t *rapid.T) refuseCase {
		c := refuseCase{}
		c.H.Names = drawNames(t)
		c.H.Disk = drawDisk(t, rapid.IntRange(0, 3).Draw(t, "st") > 0, c.H.Names)
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			c.Fill = rapid.IntRange(812, 819).Draw(t, "fill")
		case 1:
			c.Every = true
			c.H.Disk.Extra = 0
		}
		n := rapid.IntRange(1, 10).Draw(t, "nops")
		for i := 0; i < n; i++ {
			o := drawOp(t, len(c.H.Names), []string{"put", "put", "put", "get", "del", "reopen", "bad", "bad", "bad"})
			if o.Kind == "bad" {
				o.Bad = rapid.SampledFrom([]string{"type", "length", "empty", "name", "delete"}).Draw(t, "bad")
				o.Sym = rapid.IntRange(0, len(badNames)-1).Draw(t, "badname")
				o.Size = rapid.IntRange(1, 600).Draw(t, "badsize")
				o.Rel = false
			}
			c.H.Ops = append(c.H.Ops, o)
		}
		return c
	}, runRefuse)
	fw.Draw("C13", "classes", 400, 5000, func(t *rapid.T) string { return rapid.String().Draw(t, "text") }, runClasses)
}

// runClasses checks the error predicates on errors made with any text.
func runClasses(e *fw.Env, text string) {
	for want, err := range map[string]error{
		"space": derrors.OutOfSpacef("%s", text), "exists": derrors.FileExistsf("%s", text),
		"missing": derrors.FileNotFoundf("%s", text), "": derrors.New(text)} {
		e.Check(classes(err) == want, "error of class %q is classified as %q", want, classes(err))
		e.Check(err.Error() == text, "error text %q became %q", text, err.Error())
	}
	e.Check(classes(nil) == "", "no error is classified as %q", classes(nil))
	e.Nontrivial()
}

func runRefuse(e *fw.Env, c refuseCase) {
	if len(c.H.Ops) > 100 || c.Fill > 819 || len(c.H.Names) == 0 {
		return
	}
	d := c.H.Disk
	if c.Fill > 0 && d.ST {
		fillSyms(&d, c.Fill)
	}
	if c.Every {
		d.Files = nil
		for f := 1; f < 0xFE; f++ {
			d.Files = append(d.Files, img.NFile{Num: byte(f), Sectors: 1})
		}
	}
	w := newWorld(e, d)
	if w == nil {
		return
	}
	for i, o := range c.H.Ops {
		before := append([]byte(nil), w.op.GetBytes()...)
		cat, err := w.op.Catalog("")
		e.Check(err == nil, "Catalog: %v", err)
		if o.Kind == "bad" {
			w.bad(fmt.Sprintf("op %d", i), o, c.H.Names)
		} else {
			w.step(i, o, c.H.Names)
		}
		if bytes.Equal(before, w.op.GetBytes()) && o.Kind != "get" && o.Kind != "reopen" {
			e.Nontrivial()
			now, err := w.op.Catalog("")
			e.Check(err == nil && reflect.DeepEqual(cat, now), "op %d %s left the disk as it was but changed the listing", i, o.Kind)
			w.check(fmt.Sprintf("op %d %s", i, o.Kind))
		}
	}
}

// bad performs an operation that is refused whatever the disk holds.
func (w *world) bad(what string, o op, names []string) {
	e := w.e
	size := o.Size
	if size < 1 || size > 5000 || o.Sym < 0 {
		return
	}
	name, num, sym := o.name(names)
	if numLike(sym) || (num != 0 && w.table(num)) || sym != "" && w.table(w.symFile(sym)) {
		return
	}
	fi := types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: size, Type: types.FiletypeBinary}, Data: img.Bytes(o.Fill, size)}
	switch o.Bad {
	case "type":
		fi.Descriptor.Type = []types.Filetype{types.FiletypeASCIIText, types.FiletypeApplesoftBASIC, types.FiletypeIntegerBASIC, types.FiletypeTypeless, types.Filetype(0xF8)}[o.Sym%5]
		if ty := types.Filetype(o.Fill % 0x400); o.Fill%3 == 0 && ty != types.FiletypeBinary {
			fi.Descriptor.Type = ty
		} else if o.Fill%3 == 1 {
			fi.Descriptor.Type = []types.Filetype{types.FiletypeNewB, types.FiletypeNewA, 0x106, 0x206, 0x10006, -6, 7, 5, 0x86, 0x16}[o.Sym%10]
		}
	case "length":
		fi.Descriptor.Length = []int{size + 1, size - 1, 0, size + 256, -1}[o.Sym%5]
	case "empty":
		fi.Descriptor.Length, fi.Data = 0, []byte{}
		if o.Sym%2 == 0 {
			fi.Data = nil
		}
	case "name":
		fi.Descriptor.Name = badNames[o.Sym%len(badNames)]
	case "delete":
		n := []string{"NOSUCH", "A:B", "05:FOO", "DFFE", "FE", "00", "F!", "1234567"}[o.Sym%8]
		if _, ok := w.syms[n]; ok {
			return
		}
		before := append([]byte(nil), w.op.GetBytes()...)
		got, err := w.op.Delete(n)
		e.Check(err == nil && !got, "%s: delete of the unknown %q returned %v, %v", what, n, got, err)
		e.Check(bytes.Equal(before, w.op.GetBytes()), "%s: delete of the unknown %q changed the disk", what, n)
		e.Label("delete unknown")
		return
	default:
		return
	}
	before := append([]byte(nil), w.op.GetBytes()...)
	_, err := w.op.PutFile(fi, o.Over)
	what = fmt.Sprintf("%s: put %q (bad %s)", what, fi.Descriptor.Name, o.Bad)
	e.Check(err != nil, "%s was accepted", what)
	e.Check(bytes.Equal(before, w.op.GetBytes()), "%s was refused (%v) but changed the disk", what, err)
	e.Label("bad %s", o.Bad)
}
