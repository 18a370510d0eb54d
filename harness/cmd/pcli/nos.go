package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"verif/cli"
	"verif/fw"
	"verif/img"
	"verif/ngen"
)

// nos is the reference reading of a NakedOS image in physical order.
type nos struct {
	b     []byte
	files map[byte][]byte
	syms  map[string]uint16
	st    bool
	chain bool
	res   [560]bool
}

func readNOS(b []byte) nos {
	n := nos{b: b, files: map[byte][]byte{}, syms: map[string]uint16{}}
	for i, f := range img.NOwner(b) {
		switch {
		case f == 0xFE:
			n.res[i] = true
		case f != 0xFF:
			n.files[f] = append(n.files[f], b[i*256:i*256+256]...)
		}
	}
	if ents, ok := img.NTable(b); ok {
		n.st = true
		n.chain = img.NCheckTable(ents) == nil
		for _, x := range ents {
			n.syms[x.Name] = x.Addr
		}
	}
	return n
}

func (n nos) free() int {
	k := 0
	for _, r := range n.res {
		if !r {
			k++
		}
	}
	for _, c := range n.files {
		k -= len(c) / 256
	}
	return k
}

func (n nos) table(f byte) bool { return n.st && (f == 3 || f == 4) }

// symFile is the file a symbol names (0: none).
func (n nos) symFile(sym string) byte {
	if a := n.syms[sym]; a > 0xDF00 && a < 0xDFFE {
		return byte(a)
	}
	return 0
}

// usable says that the image can be used in a case: no symbol that looks like
// a file number.
func (n nos) usable() bool {
	for s := range n.syms {
		if ngen.NumLike(s) {
			return false
		}
	}
	return true
}

func (n nos) copy() nos {
	m := n
	m.files, m.syms = map[byte][]byte{}, map[string]uint16{}
	for k, v := range n.files {
		m.files[k] = v
	}
	for k, v := range n.syms {
		m.syms[k] = v
	}
	return m
}

// why returns the reasons for which putting size bytes as file (0: a new one)
// with a symbol must be refused.
func (n nos) why(file byte, sym string, size int, over bool) string {
	var why []string
	capacity := n.free()
	if c, ok := n.files[file]; ok {
		capacity += len(c) / 256
		if !over {
			why = append(why, "exists")
		}
	}
	if (size+255)/256 > capacity {
		why = append(why, "space")
	}
	if sym != "" {
		if !n.st {
			why = append(why, "notable")
		} else if _, ok := n.syms[sym]; !ok && len(n.syms) == 819 {
			why = append(why, "tablefull")
		}
	}
	if file == 0 {
		used := true
		for f := 1; f < 0xFE; f++ {
			if _, ok := n.files[byte(f)]; !ok {
				used = false
			}
		}
		if used {
			why = append(why, "nofile")
		}
	}
	return strings.Join(why, " ")
}

// same compares the image b (physical order) with the model.
func (n nos) same(e *fw.Env, what string, b []byte) {
	got := readNOS(b)
	for i := range got.res {
		e.Check(got.res[i] == n.res[i], "%s: sector %X of track %d: reserved %v, want %v", what, i%16, i/16, got.res[i], n.res[i])
		if !n.res[i] {
			continue
		}
		hi := 256
		switch i {
		case 9:
			hi = 0xD0
		case 10, 11:
			hi = 0
		}
		e.Check(bytes.Equal(b[i*256:i*256+hi], n.b[i*256:i*256+hi]), "%s: reserved sector %X of track %d changed", what, i%16, i/16)
	}
	e.Check(got.st == n.st, "%s: has a symbol table %v, want %v", what, got.st, n.st)
	for f, want := range n.files {
		c, ok := got.files[f]
		e.Check(ok, "%s: file %02X is gone", what, f)
		if !n.table(f) {
			e.Check(bytes.Equal(c, want), "%s: file %02X: %s", what, f, cli.Diff(want, c))
		}
	}
	for f, c := range got.files {
		_, ok := n.files[f]
		e.Check(ok, "%s: file %02X (%d bytes) should not exist", what, f, len(c))
	}
	for s, a := range n.syms {
		e.Check(got.syms[s] == a, "%s: symbol %s is at %04X, want %04X", what, s, got.syms[s], a)
	}
	for s, a := range got.syms {
		_, ok := n.syms[s]
		e.Check(ok, "%s: symbol %s (%04X) should not exist", what, s, a)
	}
	if n.st && n.chain {
		ents, _ := img.NTable(b)
		err := img.NCheckTable(ents)
		e.Check(err == nil, "%s: %v", what, err)
	}
}

// nname is a generated NakedOS file name.
type nname struct {
	Form int // 0 05, 1 df05, 2 DF05, 3 SYM, 4 05:SYM, 5 DF05:SYM
	Num  byte
	Sym  int
	Case int
}

func (o nname) parts(names []string) (full string, num byte, sym string) {
	s := ""
	if len(names) > 0 && o.Sym >= 0 {
		s = names[o.Sym%len(names)]
	}
	cs := ngen.InCase(s, o.Case)
	switch o.Form {
	case 0:
		return fmt.Sprintf("%02X", o.Num), o.Num, ""
	case 1:
		return fmt.Sprintf("df%02x", o.Num), o.Num, ""
	case 3:
		return cs, 0, strings.ToUpper(s)
	case 4:
		return fmt.Sprintf("%02x:%s", o.Num, cs), o.Num, strings.ToUpper(s)
	case 5:
		return fmt.Sprintf("DF%02X:%s", o.Num, cs), o.Num, strings.ToUpper(s)
	}
	return fmt.Sprintf("DF%02X", o.Num), o.Num, ""
}

// list checks the output of ls.
func (n nos) list(e *fw.Env, what string, out []byte, short bool) {
	lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	if len(out) == 0 {
		lines = nil
	}
	seen := map[byte]bool{}
	last := byte(0)
	for _, l := range lines {
		num := byte(0)
		isNum := func(s string) byte {
			if len(s) == 4 && strings.EqualFold(s[:2], "DF") {
				if v, err := strconv.ParseUint(s[2:], 16, 8); err == nil {
					return byte(v)
				}
			}
			return 0
		}
		sym := ""
		if short {
			if sym = strings.ToUpper(l); n.symFile(sym) != 0 {
				num = n.symFile(sym)
			} else {
				num, sym = isNum(l), ""
			}
		} else {
			p := strings.SplitN(l, ":", 2)
			num = isNum(p[0])
			if len(p) == 2 {
				sym = strings.ToUpper(p[1])
			}
		}
		_, ok := n.files[num]
		e.Check(ok, "%s lists %q, which does not exist", what, l)
		e.Check(!seen[num], "%s lists %q, but lists file %02X twice", what, l, num)
		seen[num] = true
		e.Check(num > last, "%s lists %02X after %02X", what, num, last)
		last = num
		if sym != "" {
			e.Check(n.symFile(sym) == num, "%s lists %q, but %s is at %04X", what, l, sym, n.syms[sym])
			continue
		}
		for s, a := range n.syms {
			e.Check(a != 0xDF00+uint16(num), "%s lists %q without its symbol %s", what, l, s)
		}
	}
	for f := range n.files {
		e.Check(seen[f], "%s does not list file %02X", what, f)
	}
}
