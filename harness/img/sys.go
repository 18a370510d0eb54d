package img

import "fmt"

// DosDisk builds a DOS 3.3 image (DOS order) with n files F0, F1 ... of
// binary, text and Applesoft types. It returns the raw bytes of the files too.
func DosDisk(seed uint64, n int) ([]byte, map[string][]byte) {
	b := Bytes(seed, Size)
	cat := []TS{{T: 17, S: 15}, {T: 17, S: 14}, {T: 17, S: 13}}
	ex := map[TS]bool{{T: 17, S: 0}: true}
	for _, c := range cat {
		ex[c] = true
	}
	a := NewDosAlloc(seed, true, ex)
	var slots [][]*DosEntry
	data := map[string][]byte{}
	n = min(max(n, 0), 20)
	for i := range cat {
		var row []*DosEntry
		for j := 0; j < 7 && i*7+j < n; j++ {
			k := i*7 + j
			name := fmt.Sprintf("F%d", k)
			ln := int(seed>>(k%32)) % 3000
			if ln < 1 {
				ln = 1
			}
			want := Bytes(seed+uint64(k), ln)
			var raw []byte
			typ := []byte{4, 2, 0}[k%3]
			switch typ {
			case 4:
				raw = append([]byte{0, 0x60, byte(ln), byte(ln >> 8)}, want...)
			case 2:
				raw = append([]byte{byte(ln), byte(ln >> 8)}, want...)
			default:
				for i := range want {
					want[i] |= 0x80
				}
				raw = append([]byte(nil), want...)
			}
			if a.Left() < DosNeed(raw) {
				break
			}
			list, _ := PutDosFile(b, a, raw, make([]byte, 256), nil)
			data[name] = want
			row = append(row, &DosEntry{Kind: "active", Name: []byte(name), Type: typ, Count: uint16(DosNeed(raw)), List: list})
		}
		slots = append(slots, row)
	}
	DosCatalog(b, cat, slots)
	DosVTOC(b, cat[0], 254, 1)
	return b, data
}

// ProDisk builds a ProDOS volume of the given size in block order: n files in
// the volume directory and one in the subdirectory SUB.
func ProDisk(seed uint64, blocks, n int) []byte {
	b := Bytes(seed, blocks*512)
	root := &PDir{Name: "VOL", Chain: []uint16{2, 3, 4, 5}, Fill: seed}
	n = min(max(n, 0), 30)
	for i := 0; i < n; i++ {
		root.Slots = append(root.Slots, &PEntry{Storage: 1, Name: fmt.Sprintf("P%d", i), Type: 4, Key: uint16(20 + i), Blocks: 1, EOF: 100, Fill: seed})
	}
	sub := &PDir{Name: "SUB", Chain: []uint16{10}, Parent: root, PSlot: n, Fill: seed + 1}
	sub.Slots = []*PEntry{{Storage: 1, Name: "INNER", Type: 4, Key: 12, Blocks: 1, EOF: 9, Fill: seed}}
	root.Slots = append(root.Slots, &PEntry{Storage: 0xD, Name: "SUB", Type: 0xF, Key: 10, Blocks: 1, EOF: 512, Dir: sub, Fill: seed})
	WriteDir(b, root, blocks, 6)
	WriteDir(b, sub, blocks, 6)
	return b
}

// SysImage builds an image of a system, in the file order given ("do" or
// "po"; ProDOS devices of other sizes have only one).
func SysImage(sys string, seed uint64, order string) []byte {
	switch sys {
	case "dos33":
		b, _ := DosDisk(seed, 1+int(seed%9))
		return Reorder(b, "do", order)
	case "prodos":
		return Reorder(ProDisk(seed, 280, int(seed%9)), "po", order)
	case "hdv":
		return ProDisk(seed, 400, int(seed%9))
	case "nakedos", "nakednost":
		d := NDisk{Seed: seed, Frag: seed&1 == 0, ST: sys == "nakedos", Slots: seed&2 == 0}
		for i := 0; i < 1+int(seed%7); i++ {
			d.Files = append(d.Files, NFile{Num: byte(0x10 + i), Sectors: 1 + i})
			d.Syms = append(d.Syms, NSym{Name: fmt.Sprintf("FIL%d", i), Addr: 0xDF10 + uint16(i)})
		}
		// One symbol of a file that does not exist.
		d.Syms = append(d.Syms, NSym{Name: "DANGLE", Addr: 0xDF70})
		return Reorder(d.Build(), "raw", order)
	case "zero":
		return make([]byte, Size)
	case "wrongsize":
		return Bytes(seed, []int{0, 1, 511, 512, 116480, 143359, 143361, 143872, 819200}[seed%9])
	}
	return Bytes(seed, Size)
}
