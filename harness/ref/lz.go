package ref

// Tok is one LZ token: a literal byte (Len 0) or a copy of Len bytes from
// Dist bytes back (Dist 1 is the byte just written).
type Tok struct {
	B    byte
	Len  int
	Dist int
}

// Expand applies tokens to a window of size win (a power of two) which starts
// as fill, with the write position at 0.
func Expand(toks []Tok, win int, fill []byte) []byte {
	w := make([]byte, win)
	copy(w, fill)
	var out []byte
	p := 0
	put := func(b byte) {
		w[p] = b
		p = (p + 1) & (win - 1)
		out = append(out, b)
	}
	for _, t := range toks {
		if t.Len == 0 {
			put(t.B)
			continue
		}
		q := (p - t.Dist) & (win - 1)
		for i := 0; i < t.Len; i++ {
			put(w[(q+i)&(win-1)])
		}
	}
	return out
}

// Spaces is the initial window of the LHA methods.
func Spaces(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = ' '
	}
	return b
}

// Lz5Window is the initial window of -lz5-.
func Lz5Window() []byte {
	w := Spaces(4096)
	p := 18
	for i := 0; i < 256; i++ {
		for j := 0; j < 13; j++ {
			w[p] = byte(i)
			p++
		}
	}
	for i := 0; i < 256; i++ {
		w[p] = byte(i)
		p++
	}
	for i := 0; i < 256; i++ {
		w[p] = byte(255 - i)
		p++
	}
	for i := 0; i < 128; i++ {
		w[p] = 0
		p++
	}
	return w // the last 110 bytes are spaces
}

// EncodeLzs packs tokens as -lzs-: lengths 2 to 17, distances 1 to 2048.
func EncodeLzs(toks []Tok) []byte {
	w := &BitWriter{}
	pos := 0
	for _, t := range toks {
		if t.Len == 0 {
			// a set flag is a literal
			w.Put(1, 1)
			w.Put(8, uint32(t.B))
			pos++
			continue
		}
		w.Put(1, 0)
		w.Put(11, uint32((pos-t.Dist-17)&0x7ff))
		w.Put(4, uint32(t.Len-2))
		pos += t.Len
	}
	return w.Buf
}

// EncodeLz5 packs tokens as -lz5-: lengths 3 to 18, distances 1 to 4096.
func EncodeLz5(toks []Tok) []byte {
	var out []byte
	pos := 0
	for i := 0; i < len(toks); i += 8 {
		flagAt := len(out)
		out = append(out, 0)
		for j := 0; j < 8 && i+j < len(toks); j++ {
			t := toks[i+j]
			if t.Len == 0 {
				out[flagAt] |= 1 << uint(j)
				out = append(out, t.B)
				pos++
				continue
			}
			m := (pos - t.Dist - 18) & 0xfff
			out = append(out, byte(m), byte(m>>4&0xf0)|byte(t.Len-3))
			pos += t.Len
		}
	}
	return out
}
