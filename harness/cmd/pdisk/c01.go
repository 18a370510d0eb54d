package main

import (
	"bytes"

	"github.com/zellyn/diskii/disk"
	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

type permCase struct {
	Seed  uint64
	Order []int
	Flat  bool // sectors differ in one byte only
}

func content(seed uint64, flat bool) []byte {
	if !flat {
		return img.Bytes(seed, img.Size)
	}
	b := make([]byte, img.Size)
	p := img.Perm(seed, 560)
	for i, v := range p {
		pos := int(seed>>8) % 255
		b[i*256+pos] = byte(v)
		b[i*256+pos+1] = byte(v >> 8)
	}
	return b
}

func drawPerm(t *rapid.T) []int {
	if rapid.Bool().Draw(t, "named") {
		n := rapid.SampledFrom([]string{"do", "po", "raw"}).Draw(t, "name")
		o := img.L2P[n]
		r := append([]int{}, o[:]...)
		if rapid.Bool().Draw(t, "inverse") {
			for l, p := range o {
				r[p] = l
			}
		}
		return r
	}
	if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
		// A permutation of simple shape: swapped pairs, or rotated or reversed runs.
		r := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
		a := rapid.IntRange(0, 14).Draw(t, "from")
		b := rapid.IntRange(a+1, 15).Draw(t, "to")
		switch rapid.SampledFrom([]string{"pairs", "rotate", "reverse"}).Draw(t, "shape") {
		case "pairs":
			p := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}).Draw(t, "pairs")
			for k := rapid.IntRange(1, 8).Draw(t, "npairs"); k > 0; k-- {
				r[p[2*k-2]], r[p[2*k-1]] = p[2*k-1], p[2*k-2]
			}
		case "rotate":
			for i := a; i < b; i++ {
				r[i] = i + 1
			}
			r[b] = a
		default:
			for i := a; i <= b; i++ {
				r[i] = a + b - i
			}
		}
		return r
	}
	return rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}).Draw(t, "perm")
}

func isPerm(o []int) bool {
	if len(o) != 16 {
		return false
	}
	var seen [16]bool
	for _, v := range o {
		if v < 0 || v > 15 || seen[v] {
			return false
		}
		seen[v] = true
	}
	return true
}

func init() {
	fw.Rule("C01", "Drawn: an image content (random, or 560 sectors that differ in two bytes) and a permutation of 16 sectors (the documented maps, their inverses, or any); wrong sizes and non-permutations; whole `reorder` runs between the two orders. Enumerated: the exported order tables. Oracle: an independent sector move. Non-trivial: a permutation that moves at least one sector, or an input that must be refused; distinct by case.")
	fw.Draw("C01", "permute", 6000, 100000, func(t *rapid.T) permCase {
		return permCase{Seed: rapid.Uint64().Draw(t, "seed"), Order: drawPerm(t), Flat: rapid.Bool().Draw(t, "flat")}
	}, func(e *fw.Env, c permCase) {
		if !isPerm(c.Order) {
			return
		}
		in := content(c.Seed, c.Flat)
		keep := append([]byte{}, in...)
		order := append([]int{}, c.Order...)
		out, err := disk.Swizzle(in, order)
		e.Check(err == nil, "Swizzle refused a permutation: %v", err)
		want := make([]byte, img.Size)
		moved := false
		inv := make([]int, 16)
		for s, d := range c.Order {
			moved = moved || s != d
			inv[d] = s
			for tr := 0; tr < 35; tr++ {
				copy(want[tr*4096+d*256:tr*4096+d*256+256], keep[tr*4096+s*256:])
			}
		}
		e.Check(bytes.Equal(out, want), "order %v: %s", c.Order, cli.Diff(want, out))
		e.Check(bytes.Equal(in, keep), "the input buffer was changed: %s", cli.Diff(keep, in))
		for i := range order {
			e.Check(order[i] == c.Order[i], "the order argument was changed")
		}
		back, err := disk.Swizzle(out, inv)
		e.Check(err == nil, "Swizzle refused the inverse: %v", err)
		e.Check(bytes.Equal(back, keep), "inverse does not restore: %s", cli.Diff(keep, back))
		if moved {
			e.Nontrivial()
		}
		e.Label("moved=%v", moved)
	})

	type refuse struct {
		Size  int
		Order []int
		First []int // accepted just before, on the same input
	}
	fw.Draw("C01", "refuse", 15000, 200000, func(t *rapid.T) refuse {
		c := refuse{Size: img.Size, Order: drawPerm(t)}
		if rapid.Bool().Draw(t, "after") {
			c.First = append([]int{}, c.Order...)
		}
		kind := rapid.IntRange(0, 4).Draw(t, "kind")
		if kind == 0 || kind == 4 {
			c.Size = rapid.OneOf(
				rapid.SampledFrom([]int{0, 1, 255, 256, 4096, 116480, img.Size - 1, img.Size + 1, img.Size - 256, img.Size + 256, img.Size - 4096, img.Size + 4096, 2 * img.Size, 819200, img.Size - 512, img.Size + 512}),
				rapid.IntRange(0, 300000)).Draw(t, "size")
		}
		switch kind {
		case 1: // duplicate
			i := rapid.IntRange(0, 15).Draw(t, "i")
			j := rapid.IntRange(0, 14).Draw(t, "j")
			if j >= i {
				j++
			}
			c.Order[i] = c.Order[j]
		case 2: // out of range
			c.Order[rapid.IntRange(0, 15).Draw(t, "i")] = rapid.SampledFrom([]int{-1, 16, 17, 255, 256, 1 << 20, -16}).Draw(t, "v")
		case 3: // wrong length
			if rapid.Bool().Draw(t, "short") {
				c.Order = c.Order[:rapid.IntRange(1, 15).Draw(t, "n")]
			} else {
				c.Order = append(c.Order, rapid.SliceOfN(rapid.IntRange(-1, 17), 1, 4).Draw(t, "more")...)
			}
		case 4:
			c.Order = rapid.SliceOfN(rapid.IntRange(-2, 18), 1, 18).Draw(t, "any")
		}
		return c
	}, func(e *fw.Env, c refuse) {
		if len(c.Order) == 0 || c.Size < 0 || c.Size > 1<<24 {
			return
		}
		in := img.Bytes(7, c.Size)
		keep := append([]byte{}, in...)
		if isPerm(c.First) {
			_, err := disk.Swizzle(in, c.First)
			e.Check((c.Size == img.Size) == (err == nil), "size %d order %v: err=%v", c.Size, c.First, err)
		}
		_, err := disk.Swizzle(in, c.Order)
		ok := c.Size == img.Size && isPerm(c.Order)
		e.Check(ok == (err == nil), "size %d order %v: err=%v, want accepted=%v", c.Size, c.Order, err, ok)
		e.Check(bytes.Equal(in, keep), "the input buffer was changed")
		if !ok {
			e.Nontrivial()
		}
		e.Label("accepted=%v size-ok=%v", ok, c.Size == img.Size)
	})

	type tab struct{ Name string }
	fw.Enum("C01", "tables", func(_ string, yield func(tab) bool) {
		for _, n := range []string{"do", "po", "raw"} {
			if !yield(tab{n}) {
				return
			}
		}
	}, func(e *fw.Env, c tab) {
		want, known := img.L2P[c.Name]
		if !known {
			return
		}
		e.Nontrivial()
		l2p, ok := disk.LogicalToPhysicalByName[types.DiskOrder(c.Name)]
		e.Check(ok && len(l2p) == 16, "no logical-to-physical map for %q", c.Name)
		p2l, ok := disk.PhysicalToLogicalByName[types.DiskOrder(c.Name)]
		e.Check(ok && len(p2l) == 16, "no physical-to-logical map for %q", c.Name)
		for l := 0; l < 16; l++ {
			e.Check(l2p[l] == want[l], "%s: logical %X is physical %X, documented %X", c.Name, l, l2p[l], want[l])
			e.Check(p2l[want[l]] == l, "%s: physical %X is logical %X, documented %X", c.Name, want[l], p2l[want[l]], l)
		}
	})

	type reorder struct {
		Seed uint64
		From string
		Flat bool
	}
	fw.Draw("C01", "command", 1000, 10000, func(t *rapid.T) reorder {
		return reorder{rapid.Uint64().Draw(t, "seed"), rapid.SampledFrom([]string{"do", "po"}).Draw(t, "from"), rapid.Bool().Draw(t, "flat")}
	}, func(e *fw.Env, c reorder) {
		to := map[string]string{"do": "po", "po": "do"}[c.From]
		if to == "" {
			return
		}
		in := content(c.Seed, c.Flat)
		d := e.Dir()
		cli.Write(d, "a."+c.From, in)
		cli.RunV(e, d, []string{"reorder", "a." + c.From, "b." + to}).OK(e)
		got := cli.Read(e, d, "b."+to)
		want := img.Reorder(in, c.From, to)
		e.Check(bytes.Equal(got, want), "reorder %s to %s: %s", c.From, to, cli.Diff(want, got))
		e.Check(bytes.Equal(cli.Read(e, d, "a."+c.From), in), "reorder changed its input file")
		cli.RunV(e, d, []string{"reorder", "b." + to, "c." + c.From}).OK(e)
		e.Check(bytes.Equal(cli.Read(e, d, "c."+c.From), in), "reordering back does not restore the image")
		e.Nontrivial()
	})
}
