package ref

import "math/rand"

// Adaptive is the dynamic Huffman tree of LHarc, nodes in ascending order of
// frequency, the root last.
type Adaptive struct {
	n       int
	freq    []int
	parent  []int // of nodes, then of leaves at 2n-1+symbol
	son     []int // first child, or 2n-1+symbol for a leaf
	Rebuilt int
}

// NewAdaptive makes the tree of n symbols of frequency one.
func NewAdaptive(n int) *Adaptive {
	t := 2*n - 1
	a := &Adaptive{n: n, freq: make([]int, t+1), parent: make([]int, t+n), son: make([]int, t)}
	for i := 0; i < n; i++ {
		a.freq[i] = 1
		a.son[i] = i + t
		a.parent[i+t] = i
	}
	for i, j := 0, n; j < t; i, j = i+2, j+1 {
		a.freq[j] = a.freq[i] + a.freq[i+1]
		a.son[j] = i
		a.parent[i], a.parent[i+1] = j, j
	}
	a.freq[t] = 1 << 30
	a.parent[t-1] = -1
	return a
}

// Put writes symbol s and updates the tree.
func (a *Adaptive) Put(w *BitWriter, s int) {
	t := 2*a.n - 1
	var path []uint32
	for k := a.parent[s+t]; k != t-1; k = a.parent[k] {
		path = append(path, uint32(k&1))
	}
	for i := len(path) - 1; i >= 0; i-- {
		w.Put(1, path[i])
	}
	a.update(s)
}

// Depth is the length of the code of s.
func (a *Adaptive) Depth(s int) int {
	t := 2*a.n - 1
	d := 0
	for k := a.parent[s+t]; k != t-1; k = a.parent[k] {
		d++
	}
	return d
}

// Get reads a symbol and updates the tree.
func (a *Adaptive) Get(r *BitReader) int {
	t := 2*a.n - 1
	k := a.son[t-1]
	for k < t {
		k = a.son[k+int(r.Get(1))]
	}
	a.update(k - t)
	return k - t
}

func (a *Adaptive) rebuild() {
	t := 2*a.n - 1
	a.Rebuilt++
	var f, s []int
	for i := 0; i < t; i++ {
		if a.son[i] >= t {
			f = append(f, (a.freq[i]+1)/2)
			s = append(s, a.son[i])
		}
	}
	copy(a.freq, f)
	copy(a.son, s)
	for i, j := 0, a.n; j < t; i, j = i+2, j+1 {
		sum := a.freq[i] + a.freq[i+1]
		k := j
		for a.freq[k-1] > sum {
			k--
		}
		copy(a.freq[k+1:j+1], a.freq[k:j])
		copy(a.son[k+1:j+1], a.son[k:j])
		a.freq[k] = sum
		a.son[k] = i
	}
	for i := 0; i < t; i++ {
		if k := a.son[i]; k >= t {
			a.parent[k] = i
		} else {
			a.parent[k], a.parent[k+1] = i, i
		}
	}
}

func (a *Adaptive) update(s int) {
	t := 2*a.n - 1
	if a.freq[t-1] == 0x8000 {
		a.rebuild()
	}
	for c := a.parent[s+t]; c != -1; c = a.parent[c] {
		// to the last node of the same frequency
		l := c
		for l < t-1 && a.freq[l+1] == a.freq[c] {
			l++
		}
		if l != c {
			i, j := a.son[c], a.son[l]
			a.setParent(i, l)
			a.setParent(j, c)
			a.son[c], a.son[l] = j, i
			c = l
		}
		a.freq[c]++
		if c == t-1 {
			break
		}
	}
}

func (a *Adaptive) setParent(son, p int) {
	a.parent[son] = p
	if son < 2*a.n-1 {
		a.parent[son+1] = p
	}
}

// lh1Pos is the fixed code of the upper six bits of a -lh1- position.
var lh1Pos = func() Codes {
	lens := make([]int, 64)
	i := 0
	for l, n := range []int{1, 3, 8, 12, 24, 16} {
		for k := 0; k < n; k++ {
			lens[i] = l + 3
			i++
		}
	}
	return Canonical(lens)
}()

// EncodeLh1 packs tokens as -lh1-: lengths 3 to 60, distances 1 to 4096.
func EncodeLh1(toks []Tok) ([]byte, int, int) {
	w := &BitWriter{}
	a := NewAdaptive(314)
	deep := 0
	for _, t := range toks {
		if t.Len == 0 {
			if d := a.Depth(int(t.B)); d > deep {
				deep = d
			}
			a.Put(w, int(t.B))
			continue
		}
		a.Put(w, 256+t.Len-3)
		v := t.Dist - 1
		lh1Pos.Put(w, v>>6)
		w.Put(6, uint32(v&63))
	}
	return w.Buf, a.Rebuilt, deep
}

// DecodeLh1 unpacks -lh1-.
func DecodeLh1(b []byte, size int) (out []byte, used int, ok bool) {
	r := &BitReader{Buf: b}
	a := NewAdaptive(314)
	pt, _ := newDecTree(lh1Pos.Lens)
	pc := &decCode{single: -1, t: pt}
	for len(out) < size {
		if r.Over > 64 {
			return out, r.Used(), false
		}
		s := a.Get(r)
		if s < 256 {
			out = append(out, byte(s))
			continue
		}
		hi, _ := pc.get(r)
		d := hi<<6 | int(r.Get(6))
		out = copyMatch(out, s-253, d+1)
	}
	return out, r.Used(), len(out) == size && r.Over == 0
}

// growTree is the position tree of -lh2-, nodes in descending order of
// frequency, the root first; symbols join it as the data grows.
type growTree struct {
	freq   []int
	child  []int // right child (left is one less), or ^symbol
	parent []int
	leaf   map[int]int
	total  int
	last   int // the last node

	Rebuilt int
}

func newGrowTree() *growTree {
	return &growTree{freq: []int{0x10000}, child: []int{^0}, parent: []int{-1}, leaf: map[int]int{0: 0}}
}

func (g *growTree) setChild(i, c int) {
	g.child[i] = c
	if c < 0 {
		g.leaf[^c] = i
	} else {
		g.parent[c], g.parent[c-1] = i, i
	}
}

func (g *growTree) inc(s int) {
	if g.total == 0x8000 {
		g.rebuild()
	}
	q := g.leaf[s]
	for q != 0 {
		l := q
		for l > 1 && g.freq[l-1] == g.freq[q] {
			l--
		}
		if l != q {
			a, b := g.child[q], g.child[l]
			g.setChild(l, a)
			g.setChild(q, b)
			q = l
		}
		g.freq[q]++
		q = g.parent[q]
	}
	g.total++
}

// add gives symbol s a place beside the newest one.
func (g *growTree) add(s int) {
	m := g.last
	f := g.freq[m]
	if m == 0 {
		f = 1
	}
	r := len(g.child)
	g.child = append(g.child, 0, 0)
	g.freq = append(g.freq, f, 0)
	g.parent = append(g.parent, m, m)
	g.setChild(r, g.child[m])
	g.setChild(r+1, ^s)
	g.child[m] = r + 1
	g.parent[r], g.parent[r+1] = m, m
	g.last = r + 1
	g.inc(s)
}

// rebuild halves the frequencies of the leaves and makes the tree again.
func (g *growTree) rebuild() {
	g.Rebuilt++
	var f, c []int
	for i := range g.child {
		if g.child[i] < 0 {
			x := g.freq[i]
			f = append(f, (x+1)/2)
			c = append(c, g.child[i])
		}
	}
	if len(f) == 1 {
		// the root alone
		g.total = 1
		return
	}
	i, l := len(g.child)-1, len(g.child)-2
	take := func() {
		g.freq[i] = f[len(f)-1]
		g.child[i] = c[len(c)-1]
		f, c = f[:len(f)-1], c[:len(c)-1]
		i--
	}
	for i >= 0 {
		for i >= l {
			take()
		}
		sum := g.freq[l] + g.freq[l+1]
		for len(f) > 0 && f[len(f)-1] <= sum {
			take()
		}
		g.freq[i] = sum
		g.child[i] = l + 1
		i--
		l -= 2
	}
	for i, k := range g.child {
		g.setChild(i, k)
	}
	g.total = g.freq[0]
	g.freq[0] = 0x10000
}

func (g *growTree) put(w *BitWriter, s int) {
	var path []uint32
	for q := g.leaf[s]; q != 0; q = g.parent[q] {
		if g.child[g.parent[q]] == q {
			path = append(path, 0)
		} else {
			path = append(path, 1)
		}
	}
	for i := len(path) - 1; i >= 0; i-- {
		w.Put(1, path[i])
	}
	g.inc(s)
}

// EncodeLh2 packs tokens as -lh2-: lengths 3 to 256, distances up to 8192 of
// which the upper part must already be in the position tree.
func EncodeLh2(toks []Tok) ([]byte, int, int) {
	w := &BitWriter{}
	a := NewAdaptive(286)
	g := newGrowTree()
	n, next := 0, 64
	for _, t := range toks {
		if t.Len == 0 {
			a.Put(w, int(t.B))
			n++
			continue
		}
		c := 256 + t.Len - 3
		if c < 285 {
			a.Put(w, c)
		} else {
			a.Put(w, 285)
			w.Put(8, uint32(c-285))
		}
		for n > next {
			g.add(next / 64)
			next += 64
			if next >= 8192 {
				next = 1 << 30
			}
		}
		v := t.Dist - 1
		g.put(w, v>>6)
		w.Put(6, uint32(v&63))
		n += t.Len
	}
	return w.Buf, a.Rebuilt, g.Rebuilt
}

// Lh2MaxDist is the largest distance -lh2- can code after n bytes.
func Lh2MaxDist(n int) int {
	s := 1
	for next := 64; n > next && next < 8192; next += 64 {
		s++
	}
	return s * 64
}

// EncodeLh3 packs tokens as -lh3-: lengths 3 to 256, distances 1 to 8192.
func EncodeLh3(r *rand.Rand, toks []Tok, st Style) []byte {
	w := &BitWriter{}
	ready := make([]int, 128)
	for i := range ready {
		switch {
		case i < 1:
			ready[i] = 2
		case i < 3:
			ready[i] = 4
		case i < 6:
			ready[i] = 5
		case i < 13:
			ready[i] = 6
		case i < 31:
			ready[i] = 7
		case i < 78:
			ready[i] = 8
		default:
			ready[i] = 9
		}
	}
	for len(toks) > 0 {
		n := st.BlockSize
		if n <= 0 || n > 65535 {
			n = 65535
		}
		if n > len(toks) {
			n = len(toks)
		}
		blk := toks[:n]
		toks = toks[n:]
		cu, pu := map[int]bool{}, map[int]bool{}
		sym := func(t Tok) int {
			if t.Len == 0 {
				return int(t.B)
			}
			if c := 256 + t.Len - 3; c < 285 {
				return c
			}
			return 285
		}
		for _, t := range blk {
			cu[sym(t)] = true
			if t.Len > 0 {
				pu[(t.Dist-1)>>6] = true
			}
		}
		cc := pickCodes(r, 286, cu, 16, st, 286)
		w.Put(16, uint32(len(blk)))
		if cc.Single >= 0 {
			for i := 0; i < 3; i++ {
				w.Put(1, 1)
				w.Put(4, 0)
			}
			w.Put(9, uint32(cc.Single))
		} else {
			for i := 0; i < 286; i++ {
				if cc.Lens[i] == 0 {
					w.Put(1, 0)
				} else {
					w.Put(1, 1)
					w.Put(4, uint32(cc.Lens[i]-1))
				}
			}
		}
		var pc Codes
		if r.Intn(2) == 0 {
			w.Put(1, 0)
			pc = Canonical(ready)
		} else {
			w.Put(1, 1)
			pc = pickCodes(r, 128, pu, 15, st, 128)
			if pc.Single >= 0 {
				for i := 0; i < 3; i++ {
					w.Put(4, 1)
				}
				w.Put(7, uint32(pc.Single))
			} else {
				for i := 0; i < 128; i++ {
					w.Put(4, uint32(pc.Lens[i]))
				}
			}
		}
		for _, t := range blk {
			s := sym(t)
			cc.Put(w, s)
			if t.Len == 0 {
				continue
			}
			if s == 285 {
				w.Put(8, uint32(256+t.Len-3-285))
			}
			v := t.Dist - 1
			pc.Put(w, v>>6)
			w.Put(6, uint32(v&63))
		}
	}
	return w.Buf
}
