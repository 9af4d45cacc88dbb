// Package ref is an LHA implementation written from the format, sharing no
// code with the repository under test. It builds and reads archives for the
// monitors: nothing here calls jeromelesaux/lha.
package ref

// CRC16 is the CRC-16/ARC of the LHA format.
func CRC16(b []byte) uint16 { return CRC16Update(0, b) }

// CRC16Update continues a CRC-16/ARC, bit by bit.
func CRC16Update(crc uint16, b []byte) uint16 {
	for _, c := range b {
		crc = crc>>8 ^ crcTab[byte(crc)^c]
	}
	return crc
}

var crcTab = func() (t [256]uint16) {
	for i := range t {
		r := uint16(i)
		for j := 0; j < 8; j++ {
			if r&1 == 1 {
				r = r>>1 ^ 0xA001
			} else {
				r >>= 1
			}
		}
		t[i] = r
	}
	return
}()

// BitWriter writes bits most significant first.
type BitWriter struct {
	Buf []byte
	n   uint // bits used in the last byte, 0 = none open
}

// Put writes the n low bits of v, most significant first.
func (w *BitWriter) Put(n int, v uint32) {
	for i := n - 1; i >= 0; i-- {
		if w.n == 0 {
			w.Buf = append(w.Buf, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.Buf[len(w.Buf)-1] |= 0x80 >> w.n
		}
		w.n = (w.n + 1) & 7
	}
}

// Bits is the number of bits written.
func (w *BitWriter) Bits() int {
	n := len(w.Buf) * 8
	if w.n != 0 {
		n -= 8 - int(w.n)
	}
	return n
}

// BitReader reads bits most significant first, zeros past the end.
type BitReader struct {
	Buf  []byte
	pos  int
	Over int // bits read past the end
}

// Get reads n bits.
func (r *BitReader) Get(n int) uint32 {
	var v uint32
	for i := 0; i < n; i++ {
		v <<= 1
		if r.pos>>3 < len(r.Buf) {
			v |= uint32(r.Buf[r.pos>>3]>>(7-uint(r.pos&7))) & 1
		} else {
			r.Over++
		}
		r.pos++
	}
	return v
}

// Used is the number of whole bytes touched.
func (r *BitReader) Used() int { return (r.pos + 7) / 8 }
