// Package apple2 emulates as much of an Apple II as booting a disk needs: a
// 6502, the Disk II boot ROM's behaviour, the head stepper, and the monitor's
// WAIT routine.
package apple2

import "fmt"

// CPU is an NMOS 6502 (documented opcodes, binary arithmetic).
type CPU struct {
	Mem           [65536]byte
	A, X, Y, SP   byte
	PC            uint16
	N, V, D, I, Z bool
	C             bool
	Access        func(addr uint16, write bool) // called for soft-switch accesses (C000-CFFF)
}

func (c *CPU) rd(a uint16) byte {
	if a>>12 == 0xC && c.Access != nil {
		c.Access(a, false)
	}
	return c.Mem[a]
}

func (c *CPU) wr(a uint16, v byte) {
	if a>>12 == 0xC {
		if c.Access != nil {
			c.Access(a, true)
		}
		return
	}
	if a < 0xC000 {
		c.Mem[a] = v
	}
}

func (c *CPU) word(a uint16) uint16 { return uint16(c.rd(a)) | uint16(c.rd(a+1))<<8 }

func (c *CPU) nz(v byte) byte { c.N, c.Z = v >= 0x80, v == 0; return v }

// Push pushes a byte.
func (c *CPU) Push(v byte) { c.Mem[0x100+uint16(c.SP)] = v; c.SP-- }

// Pop pops a byte.
func (c *CPU) Pop() byte { c.SP++; return c.Mem[0x100+uint16(c.SP)] }

func (c *CPU) flags() byte {
	p := byte(0x30)
	for i, f := range []bool{c.C, c.Z, c.I, c.D, false, false, c.V, c.N} {
		if f {
			p |= 1 << i
		}
	}
	return p
}

func (c *CPU) setFlags(p byte) {
	c.C, c.Z, c.I, c.D, c.V, c.N = p&1 != 0, p&2 != 0, p&4 != 0, p&8 != 0, p&0x40 != 0, p&0x80 != 0
}

// RTS returns from a subroutine.
func (c *CPU) RTS() {
	lo := c.Pop()
	hi := c.Pop()
	c.PC = (uint16(lo) | uint16(hi)<<8) + 1
}

func (c *CPU) adc(v byte) {
	s := int(c.A) + int(v)
	if c.C {
		s++
	}
	r := byte(s)
	c.V = (c.A^r)&(v^r)&0x80 != 0
	c.C = s > 255
	c.A = c.nz(r)
}

func (c *CPU) cmp(r, v byte) { c.C = r >= v; c.nz(r - v) }

func (c *CPU) fetch() byte { v := c.rd(c.PC); c.PC++; return v }

func (c *CPU) fetch2() uint16 { v := c.word(c.PC); c.PC += 2; return v }

func (c *CPU) zpw(z byte) uint16 { return uint16(c.Mem[z]) | uint16(c.Mem[z+1])<<8 }

// Step runs one instruction.
func (c *CPU) Step() error {
	at := c.PC
	op := c.fetch()
	branch := func(cond bool) {
		d := int8(c.fetch())
		if cond {
			c.PC += uint16(int16(d))
		}
	}
	switch op {
	case 0x10:
		branch(!c.N)
		return nil
	case 0x30:
		branch(c.N)
		return nil
	case 0x50:
		branch(!c.V)
		return nil
	case 0x70:
		branch(c.V)
		return nil
	case 0x90:
		branch(!c.C)
		return nil
	case 0xB0:
		branch(c.C)
		return nil
	case 0xD0:
		branch(!c.Z)
		return nil
	case 0xF0:
		branch(c.Z)
		return nil
	case 0x20:
		t := c.fetch2()
		r := c.PC - 1
		c.Push(byte(r >> 8))
		c.Push(byte(r))
		c.PC = t
		return nil
	case 0x4C:
		c.PC = c.fetch2()
		return nil
	case 0x6C:
		p := c.fetch2()
		c.PC = uint16(c.rd(p)) | uint16(c.rd(p&0xFF00|uint16(byte(p)+1)))<<8
		return nil
	case 0x60:
		c.RTS()
		return nil
	case 0x08:
		c.Push(c.flags())
		return nil
	case 0x28:
		c.setFlags(c.Pop())
		return nil
	case 0x48:
		c.Push(c.A)
		return nil
	case 0x68:
		c.A = c.nz(c.Pop())
		return nil
	case 0x18:
		c.C = false
		return nil
	case 0x38:
		c.C = true
		return nil
	case 0x58:
		c.I = false
		return nil
	case 0x78:
		c.I = true
		return nil
	case 0xB8:
		c.V = false
		return nil
	case 0xD8:
		c.D = false
		return nil
	case 0xF8:
		c.D = true
		return nil
	case 0xEA:
		return nil
	case 0x88:
		c.Y--
		c.nz(c.Y)
		return nil
	case 0xC8:
		c.Y++
		c.nz(c.Y)
		return nil
	case 0xCA:
		c.X--
		c.nz(c.X)
		return nil
	case 0xE8:
		c.X++
		c.nz(c.X)
		return nil
	case 0x8A:
		c.A = c.nz(c.X)
		return nil
	case 0x98:
		c.A = c.nz(c.Y)
		return nil
	case 0xA8:
		c.Y = c.nz(c.A)
		return nil
	case 0xAA:
		c.X = c.nz(c.A)
		return nil
	case 0xBA:
		c.X = c.nz(c.SP)
		return nil
	case 0x9A:
		c.SP = c.X
		return nil
	case 0x40, 0x00:
		return fmt.Errorf("BRK or RTI at %04X", at)
	}
	// The regular part: aaabbbcc.
	aaa, bbb, cc := op>>5, op>>2&7, op&3
	var addr uint16
	acc := false
	switch cc {
	case 1:
		switch bbb {
		case 0:
			addr = c.zpw(c.fetch() + c.X)
		case 1:
			addr = uint16(c.fetch())
		case 2:
			addr = c.PC
			c.PC++
		case 3:
			addr = c.fetch2()
		case 4:
			addr = c.zpw(c.fetch()) + uint16(c.Y)
		case 5:
			addr = uint16(c.fetch() + c.X)
		case 6:
			addr = c.fetch2() + uint16(c.Y)
		case 7:
			addr = c.fetch2() + uint16(c.X)
		}
	case 2, 0:
		idx := c.X
		if cc == 2 && (aaa == 4 || aaa == 5) {
			idx = c.Y
		}
		switch bbb {
		case 0:
			addr = c.PC
			c.PC++
		case 1:
			addr = uint16(c.fetch())
		case 2:
			acc = true
		case 3:
			addr = c.fetch2()
		case 5:
			addr = uint16(c.fetch() + idx)
		case 7:
			addr = c.fetch2() + uint16(idx)
		default:
			return fmt.Errorf("illegal opcode %02X at %04X", op, at)
		}
	default:
		return fmt.Errorf("illegal opcode %02X at %04X", op, at)
	}
	switch cc {
	case 1:
		switch aaa {
		case 0:
			c.A = c.nz(c.A | c.rd(addr))
		case 1:
			c.A = c.nz(c.A & c.rd(addr))
		case 2:
			c.A = c.nz(c.A ^ c.rd(addr))
		case 3:
			c.adc(c.rd(addr))
		case 4:
			if bbb == 2 {
				return fmt.Errorf("illegal opcode %02X at %04X", op, at)
			}
			c.wr(addr, c.A)
		case 5:
			c.A = c.nz(c.rd(addr))
		case 6:
			c.cmp(c.A, c.rd(addr))
		case 7:
			c.adc(^c.rd(addr))
		}
	case 2:
		if bbb == 0 && aaa != 5 || acc && aaa > 3 {
			return fmt.Errorf("illegal opcode %02X at %04X", op, at)
		}
		get := func() byte {
			if acc {
				return c.A
			}
			return c.rd(addr)
		}
		put := func(v byte) {
			c.nz(v)
			if acc {
				c.A = v
			} else {
				c.wr(addr, v)
			}
		}
		carry := byte(0)
		if c.C {
			carry = 1
		}
		switch aaa {
		case 0, 1:
			v := get()
			c.C = v >= 0x80
			v <<= 1
			if aaa == 1 {
				v |= carry
			}
			put(v)
		case 2, 3:
			v := get()
			c.C = v&1 != 0
			v >>= 1
			if aaa == 3 {
				v |= carry << 7
			}
			put(v)
		case 4:
			c.wr(addr, c.X)
		case 5:
			c.X = c.nz(c.rd(addr))
		case 6:
			put(get() - 1)
		case 7:
			put(get() + 1)
		}
	case 0:
		switch {
		case aaa == 1 && (bbb == 1 || bbb == 3): // BIT
			v := c.rd(addr)
			c.N, c.V, c.Z = v&0x80 != 0, v&0x40 != 0, v&c.A == 0
		case aaa == 4 && (bbb == 1 || bbb == 3 || bbb == 5):
			c.wr(addr, c.Y)
		case aaa == 5 && bbb != 2:
			c.Y = c.nz(c.rd(addr))
		case aaa == 6 && (bbb == 0 || bbb == 1 || bbb == 3):
			c.cmp(c.Y, c.rd(addr))
		case aaa == 7 && (bbb == 0 || bbb == 1 || bbb == 3):
			c.cmp(c.X, c.rd(addr))
		default:
			return fmt.Errorf("illegal opcode %02X at %04X", op, at)
		}
	}
	return nil
}
