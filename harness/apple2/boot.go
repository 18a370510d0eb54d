package apple2

import "fmt"

// Disk returns the 256 bytes of a physical sector.
type Disk func(track, sector int) []byte

// Boot boots a disk from a slot: the boot ROM loads track 0, sector 0 to 0800
// and runs it. It returns the machine when the program jumps out of page 08
// to anything but the ROM (its PC is then the target), or an error.
//
// The ROM's sector reader (Cn5C) is modelled by what it does: it waits until
// the sector in 3D of the track in 41 passes the head, decodes it to the page
// in 27, leaves the track in 40, advances 27 and 3D, and either goes on with
// the next sector (while 3D is below the count in 0800) or jumps to 0801 with
// A = 3D, X = slot*16, Y = 0 and carry set. Time is only kept to see that the
// head is given a chance to follow the stepper's phases.
func Boot(read Disk, slot int, junk []byte) (*CPU, error) {
	c := &CPU{SP: 0xFF}
	copy(c.Mem[:0xC000], junk)
	head := 0 // half tracks
	base := uint16(0xC080 + slot*16)
	var bad error
	now, moved := 1_000_000, 0 // microseconds, roughly
	step := func(by int) {
		// A drive's head needs a few milliseconds for each half track.
		if now-moved < 1000 {
			bad = fmt.Errorf("the head is moved again after %d microseconds: it cannot follow", now-moved)
		}
		head, moved = head+by, now
	}
	c.Access = func(a uint16, write bool) {
		if a < base || a > base+15 {
			if a >= 0xC080 && a < 0xC100 {
				bad = fmt.Errorf("access to %04X: another slot's switches", a)
			}
			return
		}
		if k := int(a - base); k < 8 && k&1 == 1 { // phase k/2 on
			switch p := k / 2; p {
			case (head + 1) & 3:
				step(1)
			case (head + 3) & 3:
				if head > 0 {
					step(-1)
				}
			}
		}
	}
	c.Mem[0x26], c.Mem[0x27], c.Mem[0x2B], c.Mem[0x3D], c.Mem[0x41] = 0, 8, byte(slot*16), 0, 0
	reader := uint16(0xC05C + slot*256)
	c.PC = reader
	for steps := 0; steps < 2_000_000; steps++ {
		switch {
		case c.PC == reader:
			now += 10_000 // the disk turns
			for {
				track, sector := int(c.Mem[0x41]), int(c.Mem[0x3D])
				if head&1 != 0 || head/2 != track || track > 34 {
					return c, fmt.Errorf("the ROM waits for ever for track %d; the head is at track %d.%d", track, head/2, head%2*5)
				}
				if sector > 15 {
					return c, fmt.Errorf("the ROM waits for ever for sector %d", sector)
				}
				at := uint16(c.Mem[0x26]) | uint16(c.Mem[0x27])<<8
				for i, v := range read(track, sector) {
					if p := at + uint16(i); p < 0xC000 {
						c.Mem[p] = v
					}
				}
				c.Mem[0x40] = byte(track)
				c.Mem[0x27]++
				c.Mem[0x3D]++
				if c.Mem[0x3D] >= c.Mem[0x0800] {
					break
				}
			}
			c.A, c.X, c.Y = c.Mem[0x3D], c.Mem[0x2B], 0
			c.cmp(c.A, c.Mem[0x0800])
			c.nz(c.X)
			c.PC = 0x0801
		case c.PC == 0xFCA8: // WAIT
			a := int(c.A)
			if a == 0 {
				a = 256
			}
			now += (26 + 27*a + 5*a*a) / 2
			c.A, c.C, c.Z, c.N = 0, true, true, false
			c.RTS()
		case c.PC>>8 == 8:
			now += 3
			if err := c.Step(); err != nil {
				return c, err
			}
		default:
			return c, bad
		}
		if bad != nil {
			return c, bad
		}
	}
	return c, fmt.Errorf("the boot program does not end")
}
