package img

// ProDOS volumes, as described in Beneath Apple ProDOS chapter 4. Images are
// in ProDOS block order.

// PEntry is one directory entry.
type PEntry struct {
	Deleted bool
	Storage byte // 1 2 3 for files, D for subdirectories
	Name    string
	Type    byte
	Key     uint16
	Blocks  uint16
	EOF     uint32 // 24 bits
	Fill    uint64 // dates, access, aux
	Dir     *PDir  // for subdirectories
}

// PDir is a directory: entries in slots (nil = empty slot) over a block chain.
type PDir struct {
	Name   string
	Chain  []uint16 // block numbers, the first is the key block
	Slots  []*PEntry
	Parent *PDir
	PSlot  int // slot of the entry in the parent
	// PBlock tells whether the parent pointer names the parent's key block or
	// the block that holds the entry (both occur).
	PBlock bool
	Fill   uint64
	// Stale is added to the file count of the header: a count that fell out
	// of step, as interrupted deletes leave behind.
	Stale int
}

func le(b []byte, v uint16) { b[0], b[1] = byte(v), byte(v>>8) }

// slotPos is the block index and byte offset of a slot; slot 0 of the key
// block is the header.
func slotPos(slot int) (int, int) {
	n := slot + 1
	return n / 13, 4 + (n%13)*0x27
}

// Capacity is the number of entry slots of a chain of n blocks.
func Capacity(n int) int { return 13*n - 1 }

// WriteDir writes a directory (not its subdirectories) into the image.
func WriteDir(image []byte, d *PDir, volBlocks int, bitmap uint16) {
	for i, bl := range d.Chain {
		b := image[int(bl)*512 : int(bl)*512+512]
		for k := range b {
			b[k] = 0
		}
		if i > 0 {
			le(b[0:], d.Chain[i-1])
		}
		if i+1 < len(d.Chain) {
			le(b[2:], d.Chain[i+1])
		}
	}
	h := image[int(d.Chain[0])*512+4:]
	copy(h[1:16], d.Name)
	fill := Bytes(d.Fill, 16)
	h[0x18], h[0x19], h[0x1a], h[0x1b] = fill[0], fill[1], fill[2]%60, fill[3]%24
	h[0x1e], h[0x1f], h[0x20] = 0xC3, 0x27, 0x0D
	count := 0
	for _, s := range d.Slots {
		if s != nil && !s.Deleted {
			count++
		}
	}
	le(h[0x21:], uint16(count+d.Stale))
	if d.Parent == nil {
		h[0] = 0xF0 | byte(len(d.Name))
		le(h[0x23:], bitmap)
		le(h[0x25:], uint16(min(volBlocks, 65535)))
	} else {
		h[0] = 0xE0 | byte(len(d.Name))
		h[0x10] = 0x75
		bi, _ := slotPos(d.PSlot)
		pb := d.Parent.Chain[0]
		if d.PBlock {
			pb = d.Parent.Chain[bi]
		}
		le(h[0x23:], pb)
		h[0x25], h[0x26] = byte((d.PSlot+1)%13+1), 0x27
	}
	for i, s := range d.Slots {
		if s == nil {
			continue
		}
		bi, off := slotPos(i)
		e := image[int(d.Chain[bi])*512+off:]
		e[0] = s.Storage<<4 | byte(len(s.Name))
		if s.Deleted {
			e[0] = 0
		}
		copy(e[1:16], s.Name)
		e[0x10] = s.Type
		le(e[0x11:], s.Key)
		le(e[0x13:], s.Blocks)
		e[0x15], e[0x16], e[0x17] = byte(s.EOF), byte(s.EOF>>8), byte(s.EOF>>16)
		f := Bytes(s.Fill, 16)
		copy(e[0x18:0x27], f)
		e[0x1a], e[0x1b] = f[2]%60, f[3]%24
		e[0x23], e[0x24] = f[11]%60, f[12]%24
		le(e[0x25:], d.Chain[0])
	}
}
