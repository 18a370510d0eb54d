package img

import (
	"fmt"
	"strings"
)

// NakedOS / Super-Mon disks, in physical sector order.

// NFile is a file of a generated NakedOS disk.
type NFile struct {
	Num     byte
	Sectors int
}

// NSym is a symbol of a generated symbol table.
type NSym struct {
	Name string
	Addr uint16
}

// NDisk describes a generated NakedOS disk.
type NDisk struct {
	Seed  uint64
	Extra int  // reserved sectors beyond the mandatory twelve
	Frag  bool // scattered sectors
	Slots bool // scattered symbol slots
	Files []NFile
	Crowd bool   // every file number but those in Gaps has at least one sector
	Gaps  []byte `json:",omitempty"`
	ST    bool
	Syms  []NSym
}

// Owner is a decoded sector map.
type Owner [560]byte

// NOwner decodes the sector map of a disk.
func NOwner(b []byte) Owner {
	var o Owner
	copy(o[:0x30], b[0x9D0:0xA00])
	copy(o[0x30:0x130], b[0xA00:0xB00])
	copy(o[0x130:0x230], b[0xB00:0xC00])
	return o
}

// NSetOwner stores a sector map.
func NSetOwner(b []byte, o Owner) {
	copy(b[0x9D0:0xA00], o[:0x30])
	copy(b[0xA00:0xB00], o[0x30:0x130])
	copy(b[0xB00:0xC00], o[0x130:0x230])
}

// NContents returns a file's bytes: its sectors in disk order.
func NContents(b []byte, o Owner, file byte) []byte {
	var out []byte
	for i, f := range o {
		if f == file {
			out = append(out, b[i*256:i*256+256]...)
		}
	}
	return out
}

// NValidName says whether a name can be a Super-Mon symbol.
func NValidName(name string) bool {
	if len(name) < 3 || len(name) > 9 {
		return false
	}
	bits := 0
	for _, c := range []byte(name) {
		switch {
		case c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z':
			bits += 5
		case c >= '0' && c <= '9':
			bits += 6
		default:
			return false
		}
	}
	return bits <= 48
}

// NEncode packs a valid name into six bytes.
func NEncode(name string) [6]byte {
	var bits []byte // one per bit, least significant first
	put := func(v, n int) {
		for i := 0; i < n; i++ {
			bits = append(bits, byte(v>>i&1))
		}
	}
	for _, c := range []byte(strings.ToUpper(name)) {
		switch {
		case c >= 'A':
			put(int(c-'A')+1, 5)
		case c <= '4':
			put(27+int(c-'0'), 6)
		default:
			put(32+27+int(c-'5'), 6)
		}
	}
	var out [6]byte
	for i, v := range bits {
		out[i/8] |= v << (i % 8)
	}
	return out
}

// NDecode unpacks a name.
func NDecode(six [6]byte) string {
	pos := 0
	get := func(n int) int {
		v := 0
		for i := 0; i < n; i++ {
			if pos+i < 48 {
				v |= int(six[(pos+i)/8]>>((pos+i)%8)&1) << i
			}
		}
		return v
	}
	s := ""
	for {
		v := get(5)
		switch {
		case v == 0:
			return s
		case v < 27:
			s += string(rune('A' + v - 1))
			pos += 5
		default:
			d := v - 27
			if get(6)&32 != 0 {
				d += 5
			}
			s += string(rune('0' + d))
			pos += 6
		}
	}
}

// NEntry is one live entry of a stored symbol table.
type NEntry struct {
	Slot int
	Name string
	Addr uint16
	Link int // slot, -1 none, -2 malformed
}

// NTable decodes the symbol table held in files 3 and 4; ok is false if the
// files do not have the right size.
func NTable(b []byte) (entries []NEntry, ok bool) {
	o := NOwner(b)
	t1, t2 := NContents(b, o, 3), NContents(b, o, 4)
	if len(t1) != 4096 || len(t2) != 4096 {
		return nil, false
	}
	for i := 0; i < 819; i++ {
		x, y := t1[i*5:i*5+5], t2[i*5:i*5+5]
		addr := uint16(x[0]) | uint16(x[1])<<8
		if addr == 0 {
			continue
		}
		link := int(x[2]) | int(x[3])<<8
		switch {
		case link == 0:
			link = -1
		case link < 0xD000 || (link-0xD000)%5 != 0 || (link-0xD000)/5 >= 819:
			link = -2
		default:
			link = (link - 0xD000) / 5
		}
		entries = append(entries, NEntry{i, NDecode([6]byte{y[0], y[1], y[2], y[3], y[4], x[4]}), addr, link})
	}
	return entries, true
}

// NHash is the Super-Mon hash of an address.
func NHash(a uint16) int { return int(byte(a)^byte(a>>8)) & 0x7f }

// NTableBytes builds the two halves of a symbol table. The symbols of each
// hash form one chain, in the order given by the seed.
func NTableBytes(syms []NSym, scatter bool, seed uint64) (t1, t2 []byte) {
	t1, t2 = make([]byte, 4096), make([]byte, 4096)
	slots := make([]int, 819)
	for i := range slots {
		slots[i] = i
	}
	if scatter {
		slots = Perm(seed^0x51, 819)
	}
	last := map[int]int{} // hash -> slot of the chain's tail
	for _, k := range Perm(seed^0x52, len(syms)) {
		s, slot := syms[k], slots[k]
		six := NEncode(s.Name)
		t1[slot*5], t1[slot*5+1] = byte(s.Addr), byte(s.Addr>>8)
		t1[slot*5+4] = six[5]
		copy(t2[slot*5:], six[:5])
		h := NHash(s.Addr)
		if p, ok := last[h]; ok {
			l := 0xD000 + 5*slot
			t1[p*5+2], t1[p*5+3] = byte(l), byte(l>>8)
		}
		last[h] = slot
	}
	return t1, t2
}

// Build makes the image. Files that do not fit are cut short or left out;
// repeated numbers are merged; with a symbol table files 3 and 4 hold it.
func (d NDisk) Build() []byte {
	b := Bytes(d.Seed, Size)
	var o Owner
	for i := range o {
		o[i] = 0xFF
		if i < 12 {
			o[i] = 0xFE
		}
	}
	var free []int
	for i := 12; i < 560; i++ {
		free = append(free, i)
	}
	perm := Perm(d.Seed^0x77, len(free))
	next := 0
	take := func(file byte, n int, scatter bool) {
		for ; n > 0 && next < len(free); n-- {
			i := free[next]
			if scatter {
				i = free[perm[next]]
			}
			next++
			o[i] = file
		}
	}
	ex := d.Extra
	if ex < 0 || ex > 500 {
		ex = 0
	}
	take(0xFE, ex, d.Frag)
	if d.ST {
		take(3, 16, d.Frag)
		take(4, 16, d.Frag)
	}
	for _, f := range d.Files {
		if f.Num == 0 || f.Num > 0xFD || (d.ST && (f.Num == 3 || f.Num == 4)) {
			continue
		}
		if f.Sectors < 0 || f.Sectors > 560 {
			continue
		}
		take(f.Num, f.Sectors, d.Frag)
	}
	if d.Crowd {
		has := map[byte]bool{}
		for _, f := range o {
			has[f] = true
		}
		for _, g := range d.Gaps {
			has[g] = true
		}
		for n := 1; n <= 0xFD; n++ {
			if !has[byte(n)] {
				take(byte(n), 1, d.Frag)
			}
		}
	}
	NSetOwner(b, o)
	if d.ST {
		t1, t2 := NTableBytes(d.Symbols(), d.Slots, d.Seed)
		put := func(file byte, t []byte) {
			k := 0
			for i, f := range o {
				if f == file {
					copy(b[i*256:i*256+256], t[k:])
					k += 256
				}
			}
		}
		put(3, t1)
		put(4, t2)
	}
	return b
}

// Symbols returns the valid, distinct symbols of the description (at most 819).
func (d NDisk) Symbols() []NSym {
	seen := map[string]bool{}
	var out []NSym
	for _, s := range d.Syms {
		n := strings.ToUpper(s.Name)
		if !NValidName(s.Name) || s.Addr == 0 || seen[n] || len(out) == 819 {
			continue
		}
		seen[n] = true
		out = append(out, NSym{n, s.Addr})
	}
	return out
}

// NCheckTable returns what is wrong with a stored symbol table: malformed
// links, links to dead slots, to another hash or to themselves, symbols of one
// hash that do not form a single chain, repeated names.
func NCheckTable(entries []NEntry) error {
	by := map[int]NEntry{}
	names := map[string]bool{}
	count := map[int]int{}
	for _, e := range entries {
		by[e.Slot] = e
		if names[e.Name] {
			return fmt.Errorf("symbol %q is in the table twice", e.Name)
		}
		names[e.Name] = true
		count[NHash(e.Addr)]++
	}
	target := map[int]bool{}
	heads := map[int][]int{}
	for _, e := range entries {
		if e.Link == -1 {
			continue
		}
		if e.Link == -2 {
			return fmt.Errorf("symbol %q has a malformed link", e.Name)
		}
		t, ok := by[e.Link]
		if !ok {
			return fmt.Errorf("symbol %q links to the unused slot %d", e.Name, e.Link)
		}
		if e.Link == e.Slot {
			return fmt.Errorf("symbol %q links to itself", e.Name)
		}
		if NHash(t.Addr) != NHash(e.Addr) {
			return fmt.Errorf("symbol %q (%04X) links to %q (%04X) of another hash", e.Name, e.Addr, t.Name, t.Addr)
		}
		if target[e.Link] {
			return fmt.Errorf("two symbols link to %q", t.Name)
		}
		target[e.Link] = true
	}
	for _, e := range entries {
		if !target[e.Slot] {
			h := NHash(e.Addr)
			heads[h] = append(heads[h], e.Slot)
		}
	}
	for h, n := range count {
		if len(heads[h]) != 1 {
			return fmt.Errorf("the %d symbols of hash %02X do not form one chain (%d chains)", n, h, len(heads[h]))
		}
	}
	return nil
}
