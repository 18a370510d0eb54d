// Package img holds reference models of the disk formats: written from the
// format descriptions (Beneath Apple DOS / ProDOS, the repository's README),
// without using any code of the repository.
package img

// Size of a 16-sector floppy image.
const Size = 143360

// L2P maps logical sector numbers to physical ones, per order.
var L2P = map[string][16]int{
	"do":  {0x0, 0xD, 0xB, 0x9, 0x7, 0x5, 0x3, 0x1, 0xE, 0xC, 0xA, 0x8, 0x6, 0x4, 0x2, 0xF},
	"po":  {0x0, 0x2, 0x4, 0x6, 0x8, 0xA, 0xC, 0xE, 0x1, 0x3, 0x5, 0x7, 0x9, 0xB, 0xD, 0xF},
	"raw": {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
}

// Reorder returns the image of the same physical disk in another order.
func Reorder(b []byte, from, to string) []byte {
	f, t := L2P[from], L2P[to]
	phys := [16]int{} // physical -> logical in from
	for l, p := range f {
		phys[p] = l
	}
	out := make([]byte, len(b))
	for tr := 0; tr < 35; tr++ {
		for l := 0; l < 16; l++ {
			src := phys[t[l]]
			copy(out[tr*4096+l*256:tr*4096+l*256+256], b[tr*4096+src*256:])
		}
	}
	return out
}

// Rand is a small deterministic generator used to expand a drawn seed into
// filler bytes.
type Rand uint64

// Next returns the next 64 bits (splitmix64).
func (r *Rand) Next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int { return int(r.Next() % uint64(n)) }

// Bytes returns n filler bytes for the seed.
func Bytes(seed uint64, n int) []byte {
	r := Rand(seed)
	b := make([]byte, n)
	for i := 0; i < n; {
		v := r.Next()
		for k := 0; k < 8 && i < n; k++ {
			b[i] = byte(v >> (8 * k))
			i++
		}
	}
	return b
}

// Perm returns a permutation of 0..n-1 for the seed.
func Perm(seed uint64, n int) []int {
	r := Rand(seed)
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
