package img

// DOS 3.3 disks, as described in Beneath Apple DOS chapter 4. All images here
// are in DOS logical sector order.

// TS is a track and sector.
type TS struct{ T, S byte }

// Off is the offset of a sector in a logical image.
func (ts TS) Off() int { return (int(ts.T)*16 + int(ts.S)) * 256 }

// DosEntry is one catalog entry.
type DosEntry struct {
	Kind  string // "unused", "deleted", "active"
	Name  []byte // as shown: up to 30 characters 00-7F, no trailing spaces
	Type  byte   // 00 01 02 04 08 10 20 40
	Lock  bool
	Count uint16
	List  TS // first track/sector list
}

// Put encodes the entry into 35 bytes.
func (d DosEntry) Put(b []byte) {
	name := make([]byte, 30)
	for i := range name {
		name[i] = 0xA0
		if i < len(d.Name) {
			name[i] = d.Name[i] | 0x80
		}
	}
	b[0], b[1], b[2] = d.List.T, d.List.S, d.Type
	if d.Lock {
		b[2] |= 0x80
	}
	copy(b[3:33], name)
	b[33], b[34] = byte(d.Count), byte(d.Count>>8)
	switch d.Kind {
	case "unused":
		b[0] = 0
	case "deleted":
		b[32] = b[0]
		b[0] = 0xFF
	}
}

// DosCatalog writes a catalog chain. slots[i] are the (up to 7) entries of the
// i-th catalog sector; nil entries are all-zero slots.
func DosCatalog(image []byte, chain []TS, slots [][]*DosEntry) {
	for i, ts := range chain {
		s := image[ts.Off() : ts.Off()+256]
		if i+1 < len(chain) {
			s[1], s[2] = chain[i+1].T, chain[i+1].S
		} else {
			s[1], s[2] = 0, 0
		}
		for j := 0; j < 7; j++ {
			slot := s[11+35*j : 11+35*j+35]
			if i < len(slots) && j < len(slots[i]) && slots[i][j] != nil {
				slots[i][j].Put(slot)
			} else {
				slot[0] = 0
			}
		}
	}
}

// DosVTOC writes a valid VTOC naming the first catalog sector.
func DosVTOC(image []byte, cat TS, volume byte, dir byte) {
	v := image[TS{17, 0}.Off() : TS{17, 0}.Off()+256]
	v[1], v[2], v[3], v[6] = cat.T, cat.S, 3, volume
	v[0x27] = 122
	v[0x30], v[0x31] = 18, dir
	v[0x34], v[0x35], v[0x36], v[0x37] = 35, 16, 0, 1
	for i := 0; i < 50; i++ {
		v[0x38+4*i+2], v[0x38+4*i+3] = 0, 0
	}
}

// DosAlloc hands out sectors.
type DosAlloc struct {
	free []TS
	// Low are sectors of track 0, which may hold data but no lists; used first.
	Low []TS
	// Junk fills the bytes of the lists that have no meaning.
	Junk []byte
}

// NewDosAlloc makes an allocator over tracks 1..34 without the excluded
// sectors; scattered or in disk order.
func NewDosAlloc(seed uint64, scatter bool, exclude map[TS]bool) *DosAlloc {
	a := &DosAlloc{}
	n := 34 * 16
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if scatter {
		p = Perm(seed, n)
	}
	for _, i := range p {
		ts := TS{byte(1 + i/16), byte(i % 16)}
		if !exclude[ts] {
			a.free = append(a.free, ts)
		}
	}
	return a
}

// Left is the number of sectors left.
func (a *DosAlloc) Left() int { return len(a.free) }

// Get takes one sector.
func (a *DosAlloc) Get() TS {
	ts := a.free[0]
	a.free = a.free[1:]
	return ts
}

// DosNeed is the number of sectors (data and lists) that PutDosFile needs.
func DosNeed(raw []byte) int {
	n := (len(raw) + 255) / 256
	lists := (n + 121) / 122
	if lists == 0 {
		lists = 1
	}
	return n + lists
}

// PutDosFile stores raw bytes; sector i is a hole if hole(i) (its bytes are
// then zeros). It returns the first list and the stored bytes, zero-padded to
// whole sectors. fill pads the last sector.
func PutDosFile(image []byte, a *DosAlloc, raw []byte, fill []byte, hole func(i int) bool) (TS, []byte) {
	n := (len(raw) + 255) / 256
	lists := (n + 121) / 122
	if lists == 0 {
		lists = 1
	}
	first := a.Get()
	cur := first
	stored := make([]byte, 0, n*256)
	for l := 0; l < lists; l++ {
		s := image[cur.Off() : cur.Off()+256]
		for i := range s {
			s[i] = 0
		}
		if len(a.Junk) >= 12 {
			s[0], s[3], s[4] = a.Junk[0], a.Junk[3], a.Junk[4]
			copy(s[7:12], a.Junk[7:12])
		}
		s[5], s[6] = byte(l*122), byte(l*122>>8)
		for j := 0; j < 122 && l*122+j < n; j++ {
			i := l*122 + j
			sec := make([]byte, 256)
			copy(sec, fill)
			copy(sec, raw[i*256:])
			if hole != nil && hole(i) {
				stored = append(stored, make([]byte, 256)...)
				continue
			}
			var ts TS
			if len(a.Low) > 0 {
				ts, a.Low = a.Low[0], a.Low[1:]
			} else {
				ts = a.Get()
			}
			copy(image[ts.Off():], sec)
			s[12+2*j], s[13+2*j] = ts.T, ts.S
			stored = append(stored, sec...)
		}
		if l+1 < lists {
			next := a.Get()
			s[1], s[2] = next.T, next.S
			cur = next
		}
	}
	return first, stored
}
