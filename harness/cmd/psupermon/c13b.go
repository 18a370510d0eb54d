package main

import (
	"bytes"
	"reflect"

	"github.com/zellyn/diskii/supermon"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
)

// Disks the tool itself would not have written: symbol table entries whose
// stored name no valid symbol has, odd links, images cut short. Whatever an
// operation makes of them, if it returns an error it must change nothing.

type oddEntry struct {
	Slot int
	Addr uint16
	Six  [6]byte
	Link uint16
}

type oddCase struct {
	H      history
	Odd    []oddEntry
	Cut    int // bytes cut off the end
	Lookup int // operations also use these names
}

func init() {
	fw.Draw("C13", "odd", 1500, 30000, func(t *rapid.T) oddCase {
		c := oddCase{}
		c.H.Names = drawNames(t)
		c.H.Disk = drawDisk(t, true, c.H.Names)
		n := rapid.IntRange(0, 3).Draw(t, "nodd")
		for i := 0; i < n; i++ {
			o := oddEntry{Slot: rapid.IntRange(0, 818).Draw(t, "slot"), Addr: drawAddr(t)}
			switch rapid.IntRange(0, 2).Draw(t, "okind") {
			case 0: // a short name
				o.Six = img.NEncode(symName(t)[:rapid.IntRange(0, 2).Draw(t, "short")])
			case 1: // an over-long one
				o.Six = [6]byte{0x21, 0x84, 0x10, 0x42, 0x08, 0x21 | byte(rapid.IntRange(0, 7).Draw(t, "top"))<<5}
			default:
				for j := range o.Six {
					o.Six[j] = rapid.Byte().Draw(t, "six")
				}
			}
			if rapid.IntRange(0, 5).Draw(t, "linked") == 0 {
				o.Link = 0xD000 + 5*uint16(rapid.IntRange(0, 818).Draw(t, "to"))
			}
			c.Odd = append(c.Odd, o)
		}
		if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
			c.Cut = rapid.SampledFrom([]int{1, 256, 4096, 20000, 100000, 143360 - 12*256}).Draw(t, "cutby")
		}
		n = rapid.IntRange(1, 8).Draw(t, "nops")
		for i := 0; i < n; i++ {
			c.H.Ops = append(c.H.Ops, drawOp(t, len(c.H.Names), []string{"put", "get", "del"}))
		}
		return c
	}, runOdd)
}

func runOdd(e *fw.Env, c oddCase) {
	if len(c.H.Ops) > 100 || len(c.H.Names) == 0 || len(c.Odd) > 819 || !c.H.Disk.ST || c.Cut < 0 || c.Cut > img.Size-12*256 {
		return
	}
	b := c.H.Disk.Build()
	own := img.NOwner(b)
	set := func(file byte, off int, v byte) {
		for i, f := range own {
			if f == file {
				if off < 256 {
					b[i*256+off] = v
					return
				}
				off -= 256
			}
		}
	}
	for _, x := range c.Odd {
		if x.Slot < 0 || x.Slot > 818 {
			return
		}
		for i, v := range []byte{byte(x.Addr), byte(x.Addr >> 8), byte(x.Link), byte(x.Link >> 8), x.Six[5]} {
			set(3, x.Slot*5+i, v)
			set(4, x.Slot*5+i, x.Six[i])
		}
	}
	b = b[:len(b)-c.Cut]
	op, err := supermon.OperatorFactory{}.Operator(b, 0)
	if err != nil {
		return
	}
	nop, ok := op.(supermon.Operator)
	e.Check(ok, "the operator is a %T", op)
	for i, o := range c.H.Ops {
		size := o.Size
		if o.Rel {
			size = nop.SM.FreeSectors()*256 + o.Size
		}
		if size < 1 || size > 600*256 {
			continue
		}
		before := append([]byte(nil), op.GetBytes()...)
		sm := append(supermon.SectorMap(nil), nop.SM...)
		st := append(supermon.SymbolTable(nil), nop.ST...)
		name, _, _ := o.name(c.H.Names)
		var err error
		switch o.Kind {
		case "put":
			_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: name, Length: size, Type: types.FiletypeBinary}, Data: img.Bytes(o.Fill, size)}, o.Over)
		case "get":
			_, err = op.GetFile(name)
		case "del":
			_, err = op.Delete(name)
		default:
			return
		}
		if err == nil {
			continue
		}
		e.Nontrivial()
		e.Label("odd disk: %s refused", o.Kind)
		e.Check(bytes.Equal(before, op.GetBytes()), "op %d: %s %q was refused (%v) but changed the image", i, o.Kind, name, err)
		e.Check(bytes.Equal(sm, nop.SM), "op %d: %s %q was refused (%v) but changed the sector map", i, o.Kind, name, err)
		e.Check(len(st) == len(nop.ST) && (len(st) == 0 || reflect.DeepEqual(st, append(supermon.SymbolTable(nil), nop.ST...))), "op %d: %s %q was refused (%v) but changed the symbol table", i, o.Kind, name, err)
	}
}
