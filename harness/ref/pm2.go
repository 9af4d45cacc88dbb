package ref

import "math/rand"

// Pm2MaxDist is the largest distance -pm2- can code when the token at
// position pos is read.
func Pm2MaxDist(pos int) int {
	switch {
	case pos < 0x400:
		return 1 << 10
	case pos < 0x800:
		return 1 << 11
	case pos < 0x1000:
		return 1 << 12
	}
	return 1 << 13
}

var (
	pmHistBits = [8]int{3, 3, 4, 5, 5, 5, 6, 6}
	pmHistBase = [8]int{0, 8, 16, 32, 64, 96, 128, 192}
	pmRepBits  = [6]int{3, 3, 5, 6, 7, 0}
	pmRepBase  = [6]int{17, 25, 33, 65, 129, 256}
)

// pmHistory is the order in which -pm2- expects literals: the newest first.
type pmHistory struct{ l []byte }

func newPmHistory() *pmHistory {
	h := &pmHistory{}
	add := func(a, b int) {
		for i := a; i <= b; i++ {
			h.l = append(h.l, byte(i))
		}
	}
	add(0x20, 0x7f)
	add(0x00, 0x1f)
	add(0xa0, 0xdf)
	add(0x80, 0x9f)
	add(0xe0, 0xff)
	return h
}

func (h *pmHistory) find(b byte) int {
	for i, c := range h.l {
		if c == b {
			return i
		}
	}
	panic("ref: not in history")
}

func (h *pmHistory) use(b byte) {
	i := h.find(b)
	copy(h.l[1:i+1], h.l[:i])
	h.l[0] = b
}

type pmTok struct {
	pos     int
	sym     int
	xb      int
	x       uint32
	osym    int // -1: no offset code
	ob      int
	o       uint32
	literal bool
}

// EncodePm2 packs tokens as -pm2-. Lengths are 2 to 256; a length of 2 needs a
// distance of at most 64; distances obey Pm2MaxDist. out must be Expand(toks).
func EncodePm2(r *rand.Rand, toks []Tok, out []byte, st Style) []byte {
	h := newPmHistory()
	var pt []pmTok
	pos := 0
	for _, t := range toks {
		p := pmTok{pos: pos, osym: -1}
		if t.Len == 0 {
			p.literal = true
			i := h.find(t.B)
			k := 7
			for pmHistBase[k] > i {
				k--
			}
			p.sym, p.xb, p.x = k, pmHistBits[k], uint32(i-pmHistBase[k])
			h.use(t.B)
			pos++
			pt = append(pt, p)
			continue
		}
		v := t.Dist - 1
		switch {
		case t.Len == 2:
			p.sym, p.ob, p.o = 8, 6, uint32(v)
			if v > 63 {
				panic("ref: -pm2- short match too far")
			}
		case t.Len <= 16:
			p.sym = t.Len + 6
		case t.Len == 256 && v == 0 && r.Intn(2) == 0:
			p.sym = 28
		default:
			k := 4
			for pmRepBase[k] > t.Len {
				k--
			}
			p.sym, p.xb, p.x = 23+k, pmRepBits[k], uint32(t.Len-pmRepBase[k])
		}
		if p.sym >= 9 && p.sym < 28 {
			n := lenBits(v)
			if n <= 6 {
				p.osym, p.ob, p.o = 0, 6, uint32(v)
			} else {
				p.osym, p.ob, p.o = n-6, n-1, uint32(v)&(1<<uint(n-1)-1)
			}
		}
		for i := 0; i < t.Len; i++ {
			h.use(out[pos+i])
		}
		pos += t.Len
		pt = append(pt, p)
	}

	w := &BitWriter{}
	w.Put(1, uint32(r.Intn(2)))
	next := 0
	var c1, c2 Codes
	have1, have2 := map[int]bool{}, map[int]bool{}
	bound1, single1 := 0, false

	used := func(i, upTo int) (map[int]bool, map[int]bool) {
		a, b := map[int]bool{}, map[int]bool{}
		for ; i < len(pt) && pt[i].pos < upTo; i++ {
			a[pt[i].sym] = true
			if pt[i].osym >= 0 {
				b[pt[i].osym] = true
			}
		}
		return a, b
	}
	// a tree must do until the next place where it may be replaced
	tree1 := func(need map[int]bool) {
		ex := st
		if ex.Extra > 6 {
			ex.Extra = 6
		}
		c1 = pickCodes(r, 29, need, 28, ex, 29)
		if c1.Single >= 0 {
			bound1, single1 = c1.Single+1, true
			w.Put(5, uint32(bound1))
			w.Put(3, 0)
			have1 = map[int]bool{c1.Single: true}
			return
		}
		single1 = false
		have1 = map[int]bool{}
		min, max := 99, 0
		bound1 = 0
		for s, l := range c1.Lens {
			if l == 0 {
				continue
			}
			have1[s] = true
			bound1 = s + 1
			if l < min {
				min = l
			}
			if l > max {
				max = l
			}
		}
		if st.TrailZero {
			bound1 += r.Intn(29 - bound1 + 1)
		}
		md := 1 + r.Intn(min)
		nb := lenBits(max - md + 1)
		if nb < 7 && r.Intn(4) == 0 {
			nb++
		}
		w.Put(5, uint32(bound1))
		w.Put(3, uint32(md))
		w.Put(3, uint32(nb))
		for s := 0; s < bound1; s++ {
			if c1.Lens[s] == 0 {
				w.Put(nb, 0)
			} else {
				w.Put(nb, uint32(c1.Lens[s]-md+1))
			}
		}
	}
	tree2 := func(need map[int]bool, bound int) {
		if bound1 < 10 || bound1 == 29 && single1 {
			return
		}
		if len(need) == 0 && r.Intn(2) == 0 {
			for i := 0; i < bound; i++ {
				w.Put(3, 0)
			}
			return // the tree stays
		}
		ex := st
		if ex.Extra > 2 {
			ex.Extra = 2
		}
		c2 = pickCodes(r, 8, need, 7, ex, bound)
		have2 = map[int]bool{}
		for i := 0; i < bound; i++ {
			if c2.Single == i {
				have2[i] = true
				w.Put(3, uint32(1+r.Intn(7)))
				continue
			}
			if c2.Lens[i] > 0 {
				have2[i] = true
			}
			w.Put(3, uint32(c2.Lens[i]))
		}
	}
	covers := func(have, need map[int]bool) bool {
		for s := range need {
			if !have[s] {
				return false
			}
		}
		return true
	}
	for i, p := range pt {
		for p.pos >= next {
			switch next {
			case 0:
				a, _ := used(i, 0x1000)
				_, b := used(i, 0x400)
				tree1(a)
				tree2(b, 5)
				next = 0x400
			case 0x400:
				_, b := used(i, 0x800)
				tree2(b, 6)
				next = 0x800
			case 0x800:
				_, b := used(i, 0x1000)
				tree2(b, 7)
				next = 0x1000
			case 0x1000:
				a, b := used(i, 0x2000)
				if covers(have1, a) && r.Intn(2) == 0 {
					w.Put(1, 0)
				} else {
					w.Put(1, 1)
					tree1(a)
				}
				tree2(b, 8)
				next = 0x2000
			default:
				a, b := used(i, next+0x1000)
				if covers(have1, a) && covers(have2, b) && r.Intn(2) == 0 {
					w.Put(1, 0)
				} else {
					w.Put(1, 1)
					tree1(a)
					tree2(b, 8)
				}
				next += 0x1000
			}
		}
		c1.Put(w, p.sym)
		w.Put(p.xb, p.x)
		if p.literal {
			continue
		}
		if p.osym >= 0 {
			c2.Put(w, p.osym)
		}
		w.Put(p.ob, p.o)
	}
	return w.Buf
}
