package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	derrors "github.com/zellyn/diskii/errors"
	"github.com/zellyn/diskii/supermon"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/img"
)

type resolveCase struct {
	Disk    img.NDisk
	NoTable bool
	Queries []string
	Names   []string
	Ops     []op // puts and deletes after which the names are looked up again
}

func drawQuery(t *rapid.T, syms []img.NSym) string {
	sym := func() string {
		if len(syms) > 0 && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
			return inCase(syms[rapid.IntRange(0, len(syms)-1).Draw(t, "which")].Name, rapid.IntRange(0, 2).Draw(t, "case"))
		}
		return inCase(symName(t), rapid.IntRange(0, 2).Draw(t, "case"))
	}
	num := func() string {
		f := rapid.SampledFrom([]string{"%02X", "%02x", "DF%02X", "df%02x", "Df%02X"}).Draw(t, "fmt")
		return fmt.Sprintf(f, rapid.OneOf(rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 0xFD, 0xFE, 0xFF})).Draw(t, "n"))
	}
	hex := func() string {
		return rapid.SampledFrom([]string{"0000", "FFFF", "ffff", "1234", "10000", "DF05", "df05", "ABC", "0x12", "-1", "+1", "12G4", "BEEF", "00001", "dfff", "1_0", "$1234", "$DF05", "$0", "0X12", "1234H", "DF05h", " 1234", "1234 ", "12 34", "#12", "0b1", "0o7", "١٢"}).Draw(t, "hex")
	}
	part := func() string {
		switch rapid.IntRange(0, 5).Draw(t, "part") {
		case 0:
			return num()
		case 1:
			return hex()
		case 2:
			return rapid.SampledFrom([]string{"", "AB", "A B C", "FOO!", "ABCDEFGHIJ", "000000000", " FOO", "FOO "}).Draw(t, "odd")
		}
		return sym()
	}
	switch rapid.IntRange(0, 7).Draw(t, "shape") {
	case 0, 1, 2:
		return part()
	case 3:
		return num() + ":" + sym()
	case 4, 5:
		return part() + ":" + part()
	case 6:
		return part() + ":" + part() + ":" + part()
	}
	return rapid.StringN(0, 8, 10).Draw(t, "any")
}

func init() {
	fw.Rule("C12", "a case is a generated disk with a symbol table (or none) and a list of name strings, or such a disk and a short history of puts and deletes; every naming function, the listing and retrieval are compared with an independent resolver. Non-trivial: at least one query is a known symbol, a number, or a compound.",
		"strings that parse as a file number without having the form XX or DFXX (such as 0005), and names that Unicode folding turns into ASCII, are left open",
		"symbols that look like a file number (XX, DFXX) are not put in the table")
	fw.Draw("C12", "resolve", 25000, 300000, func(t *rapid.T) resolveCase {
		c := resolveCase{NoTable: rapid.IntRange(0, 5).Draw(t, "notable") == 0}
		c.Disk = drawDisk(t, !c.NoTable, drawNames(t))
		c.Queries = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return drawQuery(t, c.Disk.Syms) }), 1, 12).Draw(t, "queries")
		return c
	}, runResolve)
	fw.Draw("C12", "history", 3000, 40000, func(t *rapid.T) resolveCase {
		c := resolveCase{Names: drawNames(t)}
		c.Disk = drawDisk(t, true, c.Names)
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) op { return drawOp(t, len(c.Names), []string{"put", "put", "del", "reopen"}) }), 1, 6).Draw(t, "ops")
		c.Queries = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
			if rapid.IntRange(0, 2).Draw(t, "mine") == 0 {
				return rapid.SampledFrom(c.Names).Draw(t, "name")
			}
			return drawQuery(t, c.Disk.Syms)
		}), 1, 5).Draw(t, "queries")
		return c
	}, runResolve)
}

// fileNum is the reference reading of a file number: XX or DFXX.
func fileNum(s string) byte {
	h := strings.ToUpper(s)
	if len(h) == 4 && h[:2] == "DF" {
		h = h[2:]
	}
	if len(h) != 2 {
		return 0
	}
	v, err := strconv.ParseUint(h, 16, 8)
	if err != nil || v == 0 || v > 0xFD {
		return 0
	}
	return byte(v)
}

func runResolve(e *fw.Env, c resolveCase) {
	c.Disk.ST = !c.NoTable
	var keep []img.NSym
	for _, s := range c.Disk.Syms {
		if !numLike(s.Name) {
			keep = append(keep, s)
		}
	}
	c.Disk.Syms = keep
	w := newWorld(e, c.Disk)
	if w == nil {
		return
	}
	w.checkOps("listing", w.op)
	w.lookup(c)
	if len(c.Names) == 0 || len(c.Ops) > 50 {
		return
	}
	for i, o := range c.Ops {
		w.step(i, o, c.Names)
		w.lookup(c)
		e.Label("after a %s", o.Kind)
	}
}

// lookup asks every naming function about the files and the queries.
func (w *world) lookup(c resolveCase) {
	e := w.e
	b := w.op.GetBytes()
	var st supermon.SymbolTable
	if !c.NoTable {
		sm, err := supermon.LoadSectorMap(b)
		e.Check(err == nil, "LoadSectorMap: %v", err)
		st, err = sm.ReadSymbolTable(b)
		e.Check(err == nil, "ReadSymbolTable: %v", err)
	}
	// Names of files.
	for f := 1; f < 0xFE; f++ {
		plain := fmt.Sprintf("DF%02X", f)
		n, full := supermon.NameForFile(byte(f), st), supermon.FullnameForFile(byte(f), st)
		syms := w.symNames(byte(f))
		if len(syms) == 0 {
			e.Check(n == plain && full == plain, "file %s is named %q / %q", plain, n, full)
			continue
		}
		ok := false
		for _, s := range syms {
			ok = ok || n == s && full == plain+":"+s
		}
		e.Check(ok, "file %s with symbols %v is named %q / %q", plain, syms, n, full)
	}
	for _, q := range c.Queries {
		if foldsToASCII(q) {
			continue
		}
		parts := strings.Split(q, ":")
		open := false
		for _, p := range parts {
			open = open || numLike(p) && fileNum(p) == 0
		}
		if !open {
			checkFileName(e, w, st, q, parts)
		}
		checkAddress(e, w, st, q, parts)
	}
}

func checkFileName(e *fw.Env, w *world, st supermon.SymbolTable, q string, parts []string) {
	// FileForName
	want := fileNum(q)
	if want == 0 {
		want = w.symFile(strings.ToUpper(q))
	}
	got, err := st.FileForName(q)
	if want != 0 {
		e.Check(err == nil && got == want, "FileForName(%q) = %02X, %v; want %02X", q, got, err, want)
		e.Nontrivial()
		e.Label("resolves")
	} else {
		e.Check(err != nil && derrors.IsFileNotFound(err), "FileForName(%q) = %02X, %v; want file-not-found", q, got, err)
		e.Label("does not resolve")
	}
	fi, err := w.op.GetFile(q)
	if data, ok := w.files[want]; ok && want != 0 {
		e.Check(err == nil, "GetFile(%q): %v", q, err)
		e.Check(w.table(want) && len(fi.Data) == 4096 || bytes.Equal(fi.Data, data), "GetFile(%q) returned the wrong bytes (want those of file %02X)", q, want)
	} else {
		e.Check(err != nil, "GetFile(%q) succeeded", q)
	}
	// FilesForCompoundName
	num, named, sym, err := st.FilesForCompoundName(q)
	res := fmt.Sprintf("FilesForCompoundName(%q) = %02X, %02X, %q, %v", q, num, named, sym, err)
	switch {
	case len(parts) > 2:
		e.Check(err != nil, "%s; want an error", res)
	case len(parts) == 1:
		if q == "" {
			return
		}
		e.Check(err == nil, "%s", res)
		if n := fileNum(q); n != 0 {
			e.Check(num == n && named == 0 && sym == "", "%s; want the number %02X only", res, n)
		} else if want != 0 {
			e.Check(num == want && named == want && strings.EqualFold(sym, q), "%s; want %02X, %02X, %q", res, want, want, q)
		} else {
			e.Check(num == 0 && named == 0 && sym == q, "%s; want only the symbol", res)
		}
	default:
		n := fileNum(parts[0])
		if n == 0 || fileNum(parts[1]) != 0 {
			e.Check(err != nil, "%s; want an error", res)
			e.Label("bad compound")
			return
		}
		if parts[1] == "" {
			return
		}
		e.Check(err == nil, "%s", res)
		f := w.symFile(strings.ToUpper(parts[1]))
		e.Check(num == n && named == f && strings.EqualFold(sym, parts[1]), "%s; want %02X, %02X, %q", res, n, f, parts[1])
		e.Nontrivial()
		e.Label("compound, known symbol %v", f != 0)
	}
}

func hexAddr(s string) (uint16, bool) {
	if s == "" {
		return 0, false
	}
	v := 0
	for _, c := range strings.ToUpper(s) {
		switch {
		case c >= '0' && c <= '9':
			v = v<<4 + int(c-'0')
		case c >= 'A' && c <= 'F':
			v = v<<4 + int(c-'A'+10)
		default:
			return 0, false
		}
		if v > 0xFFFF {
			return 0, false
		}
	}
	return uint16(v), true
}

func checkAddress(e *fw.Env, w *world, st supermon.SymbolTable, q string, parts []string) {
	addr, symAddr, sym, err := st.ParseCompoundSymbol(q)
	res := fmt.Sprintf("ParseCompoundSymbol(%q) = %04X, %04X, %q, %v", q, addr, symAddr, sym, err)
	bad := func(why string) { e.Check(err != nil, "%s; want an error (%s)", res, why); e.Label("address: %s", why) }
	switch {
	case q == "":
		bad("empty")
	case len(parts) > 2:
		bad("colons")
	case len(parts) == 1:
		a, known := w.syms[strings.ToUpper(q)]
		h, isHex := hexAddr(q)
		switch {
		case known:
			e.Check(err == nil && addr == 0 && symAddr == a && strings.EqualFold(sym, q), "%s; want the symbol at %04X", res, a)
			e.Label("address: known symbol")
		case isHex:
			e.Check(err == nil && addr == h && symAddr == 0 && sym == "", "%s; want the address %04X", res, h)
			e.Label("address: hex")
		case img.NValidName(q):
			e.Check(err == nil && addr == 0 && symAddr == 0 && strings.EqualFold(sym, q), "%s; want a new symbol name", res)
			e.Label("address: new symbol")
		default:
			bad("neither")
		}
	default:
		h, isHex := hexAddr(parts[0])
		switch {
		case parts[0] == "" || parts[1] == "":
			bad("empty part")
		case !isHex:
			bad("bad hex")
		case !img.NValidName(parts[1]):
			bad("bad symbol")
		default:
			a := w.syms[strings.ToUpper(parts[1])]
			e.Check(err == nil && addr == h && symAddr == a && strings.EqualFold(sym, parts[1]), "%s; want %04X, %04X", res, h, a)
			e.Label("address: compound")
		}
	}
}
