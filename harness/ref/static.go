package ref

import "math/rand"

// Codes is a canonical prefix code: lens[i] bits for symbol i, 0 = unused.
// A single symbol of length 0 (Single >= 0) takes no bits.
type Codes struct {
	Lens   []int
	Code   []uint32
	Single int
}

// Canonical assigns the codes: shorter first, then by symbol.
func Canonical(lens []int) Codes {
	c := Codes{Lens: lens, Code: make([]uint32, len(lens)), Single: -1}
	var code uint32
	for n := 1; n <= 31; n++ {
		for s, l := range lens {
			if l == n {
				c.Code[s] = code
				code++
			}
		}
		code <<= 1
	}
	return c
}

// SingleCode is the code of one symbol in zero bits.
func SingleCode(n, sym int) Codes {
	return Codes{Lens: make([]int, n), Code: make([]uint32, n), Single: sym}
}

// Put writes symbol s.
func (c *Codes) Put(w *BitWriter, s int) {
	if c.Single >= 0 {
		if s != c.Single {
			panic("ref: symbol is not the single one")
		}
		return
	}
	if c.Lens[s] == 0 {
		panic("ref: symbol without a code")
	}
	w.Put(c.Lens[s], c.Code[s])
}

// RandomLens makes the lengths of a complete prefix code for the symbols
// used, none longer than max. skew in [0,1] makes the code deeper.
func RandomLens(r *rand.Rand, n int, used []int, max int, skew float64) []int {
	lens := make([]int, n)
	if len(used) < 2 {
		panic("ref: a code needs two symbols")
	}
	depths := []int{1, 1}
	for len(depths) < len(used) {
		var i int
		if r.Float64() < skew {
			// split the deepest leaf which can be split
			i = -1
			for j, d := range depths {
				if d < max && (i < 0 || d > depths[i]) {
					i = j
				}
			}
		} else {
			i = r.Intn(len(depths))
			for k := 0; depths[i] >= max; k++ {
				i = (i + 1) % len(depths)
			}
		}
		depths[i]++
		depths = append(depths, depths[i])
	}
	r.Shuffle(len(depths), func(i, j int) { depths[i], depths[j] = depths[j], depths[i] })
	for i, s := range used {
		lens[s] = depths[i]
	}
	return lens
}

// StaticParams are those of a -lh4- to -lh7- method.
type StaticParams struct {
	DicBit, NP, PBit int
}

// Static maps a method digit to its parameters.
var Static = map[byte]StaticParams{
	'4': {12, 14, 4},
	'5': {13, 14, 4},
	'6': {15, 16, 5},
	'7': {16, 17, 5},
}

const (
	nc   = 510
	cbit = 9
	nt   = 19
	tbit = 5
)

// Style drives the free choices of an encoder.
type Style struct {
	BlockSize int     // tokens per block (at most 65535)
	Skew      float64 // depth of the codes
	Extra     int     // symbols given a code though they are not used
	LongRuns  bool    // write runs of zero lengths in random pieces
	TrailZero bool    // count trailing zero lengths
}

func lenBits(v int) int {
	n := 0
	for v > 0 {
		n++
		v >>= 1
	}
	return n
}

// pickCodes makes a code for the symbols counted in used, and maybe others.
func pickCodes(r *rand.Rand, n int, used map[int]bool, max int, st Style, limit int) Codes {
	var syms []int
	for s := range used {
		syms = append(syms, s)
	}
	// map order must not matter
	for i := 1; i < len(syms); i++ {
		for j := i; j > 0 && syms[j-1] > syms[j]; j-- {
			syms[j-1], syms[j] = syms[j], syms[j-1]
		}
	}
	for i := 0; i < st.Extra && len(syms) < limit; i++ {
		s := r.Intn(limit)
		dup := false
		for _, x := range syms {
			dup = dup || x == s
		}
		if !dup {
			syms = append(syms, s)
		}
	}
	if len(syms) == 0 {
		syms = append(syms, r.Intn(limit))
	}
	if len(syms) == 1 {
		if r.Intn(3) > 0 || limit < 2 {
			return SingleCode(n, syms[0])
		}
		s := r.Intn(limit - 1)
		if s >= syms[0] {
			s++
		}
		syms = append(syms, s)
	}
	return Canonical(RandomLens(r, n, syms, max, st.Skew))
}

// putPtLens writes the lengths of a position or of a length code.
func putPtLens(w *BitWriter, c *Codes, nbit, special int, n int) {
	if c.Single >= 0 {
		w.Put(nbit, 0)
		w.Put(nbit, uint32(c.Single))
		return
	}
	w.Put(nbit, uint32(n))
	for i := 0; i < n; {
		l := c.Lens[i]
		i++
		if l <= 6 {
			w.Put(3, uint32(l))
		} else {
			w.Put(3, 7)
			for k := 7; k < l; k++ {
				w.Put(1, 1)
			}
			w.Put(1, 0)
		}
		if i == special {
			z := 0
			for i < n && z < 3 && c.Lens[i] == 0 {
				i++
				z++
			}
			w.Put(2, uint32(z))
		}
	}
}

func count(lens []int) int {
	n := len(lens)
	for n > 0 && lens[n-1] == 0 {
		n--
	}
	return n
}

// EncodeStatic packs tokens as -lh4- to -lh7-.
func EncodeStatic(r *rand.Rand, toks []Tok, p StaticParams, st Style) []byte {
	w := &BitWriter{}
	for len(toks) > 0 {
		n := st.BlockSize
		if n <= 0 || n > 65535 {
			n = 65535
		}
		if n > len(toks) {
			n = len(toks)
		}
		staticBlock(r, w, toks[:n], p, st)
		toks = toks[n:]
	}
	return w.Buf
}

func posCode(dist int) (code int, bits int, extra uint32) {
	v := dist - 1
	code = lenBits(v)
	if code > 1 {
		return code, code - 1, uint32(v) & (1<<uint(code-1) - 1)
	}
	return code, 0, 0
}

type zrun struct{ sym, extra, bits int }

func staticBlock(r *rand.Rand, w *BitWriter, toks []Tok, p StaticParams, st Style) {
	cu, pu := map[int]bool{}, map[int]bool{}
	for _, t := range toks {
		if t.Len == 0 {
			cu[int(t.B)] = true
		} else {
			cu[256+t.Len-3] = true
			c, _, _ := posCode(t.Dist)
			pu[c] = true
		}
	}
	cc := pickCodes(r, nc, cu, 16, st, nc)
	pst := st
	if pst.Extra > 3 {
		pst.Extra = 3
	}
	pc := pickCodes(r, p.NP, pu, 16, pst, p.NP)

	w.Put(16, uint32(len(toks)))
	if cc.Single >= 0 {
		// the code of lengths is there, and not used
		tc := SingleCode(nt, r.Intn(nt))
		putPtLens(w, &tc, tbit, 3, 0)
		w.Put(cbit, 0)
		w.Put(cbit, uint32(cc.Single))
	} else {
		n := count(cc.Lens)
		if st.TrailZero {
			n += r.Intn(nc - n + 1)
		}
		// lengths as symbols
		var runs []zrun
		for i := 0; i < n; {
			if cc.Lens[i] != 0 {
				runs = append(runs, zrun{cc.Lens[i] + 2, 0, 0})
				i++
				continue
			}
			z := 0
			for i+z < n && cc.Lens[i+z] == 0 {
				z++
			}
			i += z
			for z > 0 {
				k := z
				if st.LongRuns {
					k = 1 + r.Intn(z)
				}
				switch {
				case k >= 20 && (k <= 531 || true):
					if k > 531 {
						k = 531
					}
					runs = append(runs, zrun{2, k - 20, 9})
				case k == 19:
					k = 18
					runs = append(runs, zrun{1, k - 3, 4})
				case k >= 3:
					runs = append(runs, zrun{1, k - 3, 4})
				default:
					k = 1
					runs = append(runs, zrun{0, 0, 0})
				}
				z -= k
			}
		}
		tu := map[int]bool{}
		for _, x := range runs {
			tu[x.sym] = true
		}
		tst := st
		if tst.Extra > 3 {
			tst.Extra = 3
		}
		tc := pickCodes(r, nt, tu, 16, tst, nt)
		tn := count(tc.Lens)
		if st.TrailZero {
			tn += r.Intn(nt - tn + 1)
		}
		putPtLens(w, &tc, tbit, 3, tn)
		w.Put(cbit, uint32(n))
		for _, x := range runs {
			tc.Put(w, x.sym)
			w.Put(x.bits, uint32(x.extra))
		}
	}
	pn := count(pc.Lens)
	if st.TrailZero {
		pn += r.Intn(p.NP - pn + 1)
	}
	putPtLens(w, &pc, p.PBit, -1, pn)
	for _, t := range toks {
		if t.Len == 0 {
			cc.Put(w, int(t.B))
			continue
		}
		cc.Put(w, 256+t.Len-3)
		c, b, x := posCode(t.Dist)
		pc.Put(w, c)
		w.Put(b, x)
	}
}

// ---- decoding

type decTree struct{ next [][2]int } // children, or ^symbol; -0x10000 = hole

const hole = -0x10000

func newDecTree(lens []int) (*decTree, bool) {
	c := Canonical(lens)
	t := &decTree{next: [][2]int{{hole, hole}}}
	complete := true
	for s, l := range lens {
		if l == 0 {
			continue
		}
		at := 0
		for i := l - 1; i >= 0; i-- {
			b := c.Code[s] >> uint(i) & 1
			if i == 0 {
				if t.next[at][b] != hole {
					return nil, false
				}
				t.next[at][b] = ^s
				break
			}
			if t.next[at][b] == hole {
				t.next = append(t.next, [2]int{hole, hole})
				t.next[at][b] = len(t.next) - 1
			} else if t.next[at][b] < 0 {
				return nil, false
			}
			at = t.next[at][b]
		}
	}
	for _, n := range t.next {
		if n[0] == hole || n[1] == hole {
			complete = false
		}
	}
	return t, complete
}

type decCode struct {
	single int
	t      *decTree
}

func (d *decCode) get(r *BitReader) (int, bool) {
	if d.single >= 0 {
		return d.single, true
	}
	at := 0
	for {
		at = d.t.next[at][r.Get(1)]
		if at == hole {
			return 0, false
		}
		if at < 0 {
			return ^at, true
		}
	}
}

func getPtLens(r *BitReader, n, nbit, special int) (*decCode, bool) {
	m := int(r.Get(nbit))
	if m == 0 {
		s := int(r.Get(nbit))
		return &decCode{single: s}, s < n
	}
	if m > n {
		return nil, false
	}
	lens := make([]int, n)
	for i := 0; i < m; {
		l := int(r.Get(3))
		if l == 7 {
			for r.Get(1) == 1 {
				l++
				if l > 16 {
					return nil, false
				}
			}
		}
		lens[i] = l
		i++
		if i == special {
			i += int(r.Get(2))
		}
	}
	t, ok := newDecTree(lens)
	return &decCode{single: -1, t: t}, ok
}

// DecodeStatic unpacks -lh4- to -lh7-. used is the number of bytes read.
func DecodeStatic(b []byte, size int, p StaticParams) (out []byte, used int, ok bool) {
	r := &BitReader{Buf: b}
	win := 1 << uint(p.DicBit)
	left := 0
	var cc, pc *decCode
	for len(out) < size {
		if r.Over > 64 {
			return out, r.Used(), false
		}
		if left == 0 {
			left = int(r.Get(16))
			if left == 0 {
				return out, r.Used(), false
			}
			tc, good := getPtLens(r, nt, tbit, 3)
			if !good {
				return out, r.Used(), false
			}
			n := int(r.Get(cbit))
			if n == 0 {
				s := int(r.Get(cbit))
				if s >= nc {
					return out, r.Used(), false
				}
				cc = &decCode{single: s}
			} else {
				if n > nc {
					return out, r.Used(), false
				}
				lens := make([]int, nc)
				for i := 0; i < n; {
					s, good := tc.get(r)
					if !good {
						return out, r.Used(), false
					}
					switch s {
					case 0:
						i++
					case 1:
						i += int(r.Get(4)) + 3
					case 2:
						i += int(r.Get(9)) + 20
					default:
						lens[i] = s - 2
						i++
					}
					if i > n {
						return out, r.Used(), false
					}
				}
				t, good := newDecTree(lens)
				if !good {
					return out, r.Used(), false
				}
				cc = &decCode{single: -1, t: t}
			}
			pc, good = getPtLens(r, p.NP, p.PBit, -1)
			if !good {
				return out, r.Used(), false
			}
		}
		left--
		s, good := cc.get(r)
		if !good {
			return out, r.Used(), false
		}
		if s < 256 {
			out = append(out, byte(s))
			continue
		}
		c, good := pc.get(r)
		if !good {
			return out, r.Used(), false
		}
		d := c
		if c > 1 {
			d = 1<<uint(c-1) + int(r.Get(c-1))
		}
		if d+1 > win {
			return out, r.Used(), false
		}
		out = copyMatch(out, s-253, d+1)
	}
	return out, r.Used(), len(out) == size && left == 0 && r.Over == 0
}

func copyMatch(out []byte, n, dist int) []byte {
	for i := 0; i < n; i++ {
		if q := len(out) - dist; q >= 0 {
			out = append(out, out[q])
		} else {
			out = append(out, ' ')
		}
	}
	return out
}
