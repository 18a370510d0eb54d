// Package ngen generates NakedOS disks and names.
package ngen

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/img"
)

// Letters is the alphabet.
const Letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func SymName(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "small") == 0 {
		return rapid.SampledFrom([]string{"FOO", "FHELLO", "FAB", "ABC", "FILE0", "FILE9", "F45", "DF00", "DFFE", "FACE", "ZZZZZZZZZ", "00000000", "Z99", "A0A"}).Draw(t, "n")
	}
	n := rapid.IntRange(3, 9).Draw(t, "len")
	maxDigits := 48 - 5*n
	if maxDigits > n {
		maxDigits = n
	}
	digits := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, maxDigits), rapid.Just(maxDigits)).Draw(t, "digits")
	mask := rapid.Uint64().Draw(t, "where")
	s := make([]byte, n)
	for _, i := range img.Perm(mask, n) {
		if digits > 0 {
			s[i] = byte('0' + rapid.IntRange(0, 9).Draw(t, "d"))
			digits--
		} else {
			s[i] = Letters[rapid.IntRange(0, 25).Draw(t, "l")]
		}
	}
	return string(s)
}

// NumLike says whether a string could be taken for a file number.
func NumLike(s string) bool {
	v, err := strconv.ParseUint(s, 16, 16)
	return err == nil && (v > 0 && v < 0xFE || v > 0xDF00 && v < 0xDFFE)
}

func FileSym(t *rapid.T) string {
	n := SymName(t)
	if NumLike(n) {
		n = "F" + n[1:]
	}
	if NumLike(n) {
		n = "FXYZ"
	}
	return n
}

func Disk(t *rapid.T, st bool, names []string) img.NDisk {
	d := img.NDisk{Seed: rapid.Uint64().Draw(t, "seed"), Frag: rapid.Bool().Draw(t, "frag"), Slots: rapid.Bool().Draw(t, "slots"), ST: st}
	d.Extra = rapid.SampledFrom([]int{0, 1, 4, 30, 400, 500}).Draw(t, "extra")
	nf := rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 40)).Draw(t, "nfiles")
	for i := 0; i < nf; i++ {
		d.Files = append(d.Files, img.NFile{Num: Num(t), Sectors: rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 40)).Draw(t, "sectors")})
	}
	if rapid.IntRange(0, 9).Draw(t, "crowd") == 0 { // few file numbers left
		d.Crowd = true
		d.Extra = 0
		for i := range d.Files {
			d.Files[i].Sectors = 1 + d.Files[i].Sectors%3
		}
		d.Gaps = rapid.SliceOfN(rapid.Custom(Num), 0, 3).Draw(t, "gaps")
		in := map[byte]bool{}
		for _, g := range d.Gaps {
			in[g] = true
		}
		files := d.Files
		d.Files = nil
		for _, f := range files {
			if !in[f.Num] {
				d.Files = append(d.Files, f)
			}
		}
	}
	if !st {
		return d
	}
	for _, n := range names {
		if rapid.Bool().Draw(t, "has") {
			d.Syms = append(d.Syms, img.NSym{Name: n, Addr: Addr(t)})
		}
	}
	ns := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 8), rapid.IntRange(0, 40)).Draw(t, "nsyms")
	for i := 0; i < ns; i++ {
		d.Syms = append(d.Syms, img.NSym{Name: SymName(t), Addr: Addr(t)})
	}
	return d
}

func Num(t *rapid.T) byte {
	return byte(rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 0xFD), rapid.SampledFrom([]int{1, 2, 0xFD, 0xFC, 0x7F, 0x80})).Draw(t, "num"))
}

// Addr draws symbol addresses with many hash collisions.
func Addr(t *rapid.T) uint16 {
	switch rapid.IntRange(0, 4).Draw(t, "akind") {
	case 0:
		return 0xDF00 + uint16(Num(t))
	case 1: // hash 0, the hash of an empty entry
		return rapid.SampledFrom([]uint16{0x0101, 0x0202, 0xDFDF, 0x8000, 0x0080, 0xDF5F, 0x8101}).Draw(t, "h0")
	case 2: // one hash shared with file 5
		return rapid.SampledFrom([]uint16{0xDF05, 0xDF85, 0x5A00, 0x005A, 0xDA00, 0x015B}).Draw(t, "h5")
	case 3:
		return rapid.SampledFrom([]uint16{1, 0xFFFF, 0xDF00, 0xDFFE, 0xDFFF, 0xE000}).Draw(t, "edge")
	}
	a := rapid.Uint16().Draw(t, "addr")
	if a == 0 {
		a = 1
	}
	return a
}

func Names(t *rapid.T) []string {
	return rapid.SliceOfNDistinct(rapid.Custom(FileSym), 1, 5, strings.ToUpper).Draw(t, "names")
}

func InCase(s string, c int) string {
	switch c {
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if i%2 == 1 {
				b[i] = strings.ToLower(s)[i]
			}
		}
		return string(b)
	}
	return s
}

// Pad fills the last sector with zeros.
func Pad(b []byte) []byte {
	return append(append([]byte(nil), b...), make([]byte, (256-len(b)%256)%256)...)
}
