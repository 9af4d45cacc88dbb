package main

import (
	"fmt"
	"math/rand"
	"time"

	"lhaverif/ref"
)

// ---- bodies

var edgeSizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 59, 60, 61, 62, 63, 64, 65, 127, 128, 129,
	253, 254, 255, 256, 257, 258, 259, 260, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
	4350, 8191, 8192, 8193, 8447, 8448, 8449, 12288, 16383, 16384, 16385, 16639, 16640, 16641,
	32767, 32768, 32769, 33023, 33024, 65535, 65536, 65537, 65791, 65792, 65793, 98304, 131071, 131072, 131073, 131327, 131328, 131329}

// bodySize picks a size, mostly small, sometimes at an edge, at most max.
func bodySize(r *rand.Rand, max int) int {
	for {
		n := 0
		switch r.Intn(10) {
		case 0, 1, 2:
			n = edgeSizes[r.Intn(len(edgeSizes))]
		case 3, 4:
			n = r.Intn(64)
		case 5, 6:
			n = r.Intn(4096)
		case 7, 8:
			n = r.Intn(70000)
		default:
			n = r.Intn(max + 1)
		}
		if n <= max {
			return n
		}
	}
}

var bodyKinds = []string{"zero", "one", "random", "text", "period", "runs", "fib", "lz", "spaces", "distinct", "mix", "far", "nibble", "skew", "ramp", "allpairs"}

const lorem = "the quick brown fox jumps over the lazy dog and packs my box with five dozen liquor jugs while archives of old files keep their names dates and contents for ever "

// body makes n bytes of a kind.
func body(r *rand.Rand, kind string, n int) []byte {
	b := make([]byte, n)
	switch kind {
	case "zero":
	case "one":
		c := byte(r.Intn(256))
		for i := range b {
			b[i] = c
		}
	case "random":
		r.Read(b)
	case "text":
		words := []string{}
		s := ""
		for _, c := range lorem {
			if c == ' ' {
				words = append(words, s+" ")
				s = ""
			} else {
				s += string(c)
			}
		}
		for i := 0; i < n; {
			w := words[r.Intn(len(words))]
			if r.Intn(12) == 0 {
				w = fmt.Sprintf("%d\n", r.Intn(100000))
			}
			i += copy(b[i:], w)
		}
	case "period":
		ps := []int{1, 2, 3, 4, 5, 60, 61, 255, 256, 257, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 32767, 32768, 32769, 65534, 65535, 65536, 65537}
		p := ps[r.Intn(len(ps))]
		if r.Intn(3) == 0 {
			p = 1 + r.Intn(70000)
		}
		for i := range b {
			if i < p {
				b[i] = byte(r.Intn(256))
			} else {
				b[i] = b[i-p]
			}
		}
		for k := r.Intn(4); k > 0 && n > 0; k-- {
			b[r.Intn(n)] ^= byte(1 + r.Intn(255))
		}
	case "runs":
		for i := 0; i < n; {
			c := byte(r.Intn(256))
			l := 1 + r.Intn(4)
			if r.Intn(3) == 0 {
				l = 1 + r.Intn(600)
			}
			for ; l > 0 && i < n; l-- {
				b[i] = c
				i++
			}
		}
	case "fib":
		// symbol k as often as the k-th Fibonacci number: the deepest codes
		perm := r.Perm(256)
		var w []int
		sum := 0
		a, c := 1, 1
		for sum+a <= n || len(w) < 2 {
			w = append(w, a)
			sum += a
			a, c = c, a+c
			if len(w) > 40 {
				break
			}
		}
		i := 0
		for k, x := range w {
			for ; x > 0 && i < n; x-- {
				b[i] = byte(perm[k])
				i++
			}
		}
		for ; i < n; i++ {
			b[i] = byte(perm[len(w)-1])
		}
		r.Shuffle(n, func(i, j int) { b[i], b[j] = b[j], b[i] })
	case "lz":
		for i := 0; i < n; {
			if i == 0 || r.Intn(3) == 0 {
				for k := 1 + r.Intn(6); k > 0 && i < n; k-- {
					b[i] = byte(r.Intn(256))
					i++
				}
				continue
			}
			l := lzLen(r, 300)
			d := lzDist(r, i)
			for ; l > 0 && i < n; l-- {
				b[i] = b[i-d]
				i++
			}
		}
	case "spaces":
		for i := range b {
			b[i] = ' '
		}
		for k := r.Intn(5); k > 0 && n > 0; k-- {
			b[r.Intn(n)] = byte(r.Intn(256))
		}
	case "distinct":
		perm := r.Perm(256)
		for i := range b {
			b[i] = byte(perm[(i*7+i/256*13)&255])
		}
	case "mix":
		for i := 0; i < n; {
			l := 1 + r.Intn(n/3+1)
			k := bodyKinds[r.Intn(len(bodyKinds))]
			if k == "mix" {
				k = "random"
			}
			i += copy(b[i:], body(r, k, l))
		}
	case "far":
		// a block which comes back just inside or outside of a window
		blk := make([]byte, 3+r.Intn(400))
		r.Read(blk)
		for i := 0; i < n; {
			i += copy(b[i:], blk)
			w := []int{4096, 8192, 32768, 65536}[r.Intn(4)] - len(blk) + r.Intn(7) - 3
			for ; w > 0 && i < n; w-- {
				b[i] = byte(r.Intn(1 + r.Intn(256)))
				i++
			}
		}
	case "nibble":
		s := byte(r.Intn(250))
		for i := range b {
			b[i] = s + byte(r.Intn(3))
		}
	case "skew":
		for i := range b {
			k := 0
			for r.Intn(2) == 0 && k < 200 {
				k++
			}
			b[i] = byte(k * 11)
		}
	case "ramp":
		for i := range b {
			b[i] = byte(i >> uint(r.Intn(2)*4))
		}
	case "allpairs":
		for i := range b {
			j := i / 2
			if i%2 == 0 {
				b[i] = byte(j)
			} else {
				b[i] = byte(j >> 8)
			}
		}
	default:
		panic(kind)
	}
	return b
}

func randBody(r *rand.Rand, max int) ([]byte, string) {
	k := bodyKinds[r.Intn(len(bodyKinds))]
	return body(r, k, bodySize(r, max)), k
}

func lzLen(r *rand.Rand, max int) int {
	var l int
	switch r.Intn(6) {
	case 0:
		l = max - r.Intn(3)
	case 1:
		l = 3
	case 2:
		l = 3 + r.Intn(60)
	default:
		l = 3 + r.Intn(16)
	}
	if l > max {
		l = max
	}
	return l
}

// lzDist picks a distance of at most max.
func lzDist(r *rand.Rand, max int) int {
	d := 1
	switch r.Intn(5) {
	case 0:
		d = max - r.Intn(4)
	case 1:
		d = 1 + r.Intn(4)
	case 2:
		d = 1 << uint(r.Intn(17))
		d += r.Intn(3) - 1
	case 3:
		d = 1 + r.Intn(300)
	default:
		d = 1 + r.Intn(max)
	}
	if d < 1 {
		d = 1
	}
	if d > max {
		d = max
	}
	return d
}

// ---- tokens

// tokShape limits what a method can code.
type tokShape struct {
	minLen, maxLen int
	maxDist        func(pos int) int // largest distance at pos
	before         bool              // distances may reach before the first byte
	shortDist      int               // of a match of length 2 (-pm2-), 0 = as others
}

func fixedDist(n int) func(int) int { return func(int) int { return n } }

// tokens makes tokens of a method for about n bytes.
func tokens(r *rand.Rand, n int, s tokShape) []ref.Tok {
	var toks []ref.Tok
	pos := 0
	style := r.Intn(6)
	alpha := 256
	if r.Intn(2) == 0 {
		alpha = 1 + r.Intn(256)
	}
	base := r.Intn(256)
	for pos < n {
		lit := false
		switch style {
		case 0:
			lit = true // literals only
		case 1:
			lit = r.Intn(10) > 0
		case 2:
			lit = r.Intn(10) == 0
		case 3:
			lit = pos < n/2 // literals, then matches
		default:
			lit = r.Intn(2) == 0
		}
		if !lit {
			max := s.maxDist(pos)
			if !s.before && max > pos {
				max = pos
			}
			if max < 1 {
				lit = true
			} else {
				l := lzLen(r, s.maxLen)
				if s.minLen < 3 && r.Intn(6) == 0 {
					l = s.minLen
				}
				if l < s.minLen {
					l = s.minLen
				}
				d := lzDist(r, max)
				if l == 2 && s.shortDist > 0 && d > s.shortDist {
					d = 1 + r.Intn(s.shortDist)
				}
				toks = append(toks, ref.Tok{Len: l, Dist: d})
				pos += l
				continue
			}
		}
		var b byte
		if r.Intn(30) == 0 {
			b = byte(r.Intn(256))
		} else {
			b = byte(base + r.Intn(alpha))
		}
		toks = append(toks, ref.Tok{B: b})
		pos++
	}
	return toks
}

func randStyle(r *rand.Rand) ref.Style {
	st := ref.Style{}
	switch r.Intn(5) {
	case 0:
		st.BlockSize = 1 + r.Intn(4)
	case 1:
		st.BlockSize = 1 + r.Intn(300)
	case 2:
		st.BlockSize = 65535
	default:
		st.BlockSize = 1 + r.Intn(20000)
	}
	st.Skew = []float64{0, 0.3, 0.8, 1}[r.Intn(4)]
	if r.Intn(2) == 0 {
		st.Extra = r.Intn(200)
	}
	st.LongRuns = r.Intn(2) == 0
	st.TrailZero = r.Intn(3) == 0
	return st
}

// packed makes the data of a member of any method with an independent
// encoder, and what it must unpack to.
func packed(r *rand.Rand, method string, n int) (data, plain []byte, note string) {
	return packedOver(r, method, n, ref.Spaces)
}

// packedOver packs for a window that starts as given, where the method knows
// no other.
func packedOver(r *rand.Rand, method string, n int, window func(int) []byte) (data, plain []byte, note string) {
	st := randStyle(r)
	if st.BlockSize < n/400 {
		st.BlockSize = n/400 + 1
	}
	switch method {
	case "-lh0-", "-lz4-", "-pm0-":
		plain = body(r, bodyKinds[r.Intn(len(bodyKinds))], n)
		return plain, plain, "stored"
	case "-lzs-":
		toks := tokens(r, n, tokShape{2, 17, fixedDist(2048), true, 0})
		return ref.EncodeLzs(toks), ref.Expand(toks, 2048, window(2048)), fmt.Sprintf("%d tokens", len(toks))
	case "-lz5-":
		toks := tokens(r, n, tokShape{3, 18, fixedDist(4096), true, 0})
		// the window starts with a pattern, and the data at its beginning
		return ref.EncodeLz5(toks), ref.Expand(toks, 4096, ref.Lz5Window()), fmt.Sprintf("%d tokens", len(toks))
	case "-lh1-":
		s := tokShape{3, 60, fixedDist(4096), true, 0}
		if n > 100000 && r.Intn(2) == 0 {
			s.maxLen = 4 // many codes
		}
		toks := tokens(r, n, s)
		d, reb, deep := ref.EncodeLh1(toks)
		return d, ref.Expand(toks, 4096, window(4096)), fmt.Sprintf("%d tokens, tree rebuilt %d times, codes to %d bits", len(toks), reb, deep)
	case "-lh2-":
		s := tokShape{3, 256, func(pos int) int { return ref.Lh2MaxDist(pos) }, true, 0}
		if n > 100000 && r.Intn(2) == 0 {
			s.maxLen = 4 // many codes
		}
		toks := tokens(r, n, s)
		d, r1, r2 := ref.EncodeLh2(toks)
		return d, ref.Expand(toks, 8192, window(8192)), fmt.Sprintf("%d tokens, trees rebuilt %d and %d times", len(toks), r1, r2)
	case "-lh3-":
		toks := tokens(r, n, tokShape{3, 256, fixedDist(8192), true, 0})
		return ref.EncodeLh3(r, toks, st), ref.Expand(toks, 8192, window(8192)), fmt.Sprintf("%d tokens, blocks of %d", len(toks), st.BlockSize)
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		p := ref.Static[method[3]]
		w := 1 << uint(p.DicBit)
		toks := tokens(r, n, tokShape{3, 256, fixedDist(w), true, 0})
		return ref.EncodeStatic(r, toks, p, st), ref.Expand(toks, w, window(w)), fmt.Sprintf("%d tokens, blocks of %d, skew %.1f", len(toks), st.BlockSize, st.Skew)
	case "-pm2-":
		toks := tokens(r, n, tokShape{2, 256, ref.Pm2MaxDist, true, 64})
		plain = ref.Expand(toks, 8192, window(8192))
		return ref.EncodePm2(r, toks, plain, st), plain, fmt.Sprintf("%d tokens", len(toks))
	}
	panic(method)
}

var allMethods = []string{"-lh0-", "-lh1-", "-lh2-", "-lh3-", "-lh4-", "-lh5-", "-lh6-", "-lh7-", "-lzs-", "-lz4-", "-lz5-", "-pm0-", "-pm2-"}

// ---- names

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ._-+=,@#%~!$&'()[]{};^`:*?<>\""

// fileName makes a name without separators, of at most max bytes.
func fileName(r *rand.Rand, max int) string {
	for {
		n := 1 + r.Intn(12)
		switch r.Intn(12) {
		case 0:
			n = 1 + r.Intn(max)
		case 1:
			n = max - r.Intn(3)
		}
		if n > max {
			n = max
		}
		if n < 1 {
			n = 1
		}
		var b []byte
		mode := r.Intn(8)
		for len(b) < n {
			switch mode {
			case 0: // UTF-8
				b = append(b, string(rune(0xa1+r.Intn(0x3000)))...)
			case 1: // any byte but NUL, separators and 0xff
				c := byte(1 + r.Intn(254))
				if c != '/' && c != '\\' && c != '|' {
					b = append(b, c)
				}
			default:
				b = append(b, nameChars[r.Intn(len(nameChars))])
			}
		}
		s := string(b)
		if len(s) > max {
			s = s[:max]
		}
		if s == "." || s == ".." {
			continue
		}
		return s
	}
}

// barred puts the character that separates a link from its target into a name
// at times, where that has no meaning.
func barred(r *rand.Rand, s string) string {
	if len(s) > 0 && r.Intn(4) == 0 {
		b := []byte(s)
		if i := r.Intn(len(b)); b[i] != '/' {
			b[i] = '|'
		}
		return string(b)
	}
	return s
}

// pathName makes a '/' separated name of at most max bytes.
func pathName(r *rand.Rand, max int) string {
	s := ""
	for k := r.Intn(4); k > 0; k-- {
		d := fileName(r, 20)
		if len(s)+len(d)+2 < max {
			s += d + "/"
		}
	}
	left := max - len(s)
	if left > 200 {
		left = 200
	}
	return s + fileName(r, left)
}

// randTime is a time all headers can hold: 1980 to 2106.
func randTime(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return 1<<31 - 3 + int64(r.Intn(6))
	case 1, 2, 3:
		return 315705600 + int64(r.Intn(3979000000))
	case 5: // before the DOS field begins
		if r.Intn(3) == 0 {
			return int64(r.Intn(315705600))
		}
		if r.Intn(6) == 0 {
			return int64(r.Intn(2))
		}
	case 4: // the ends of a day, a month, a year
		y, m := 1981+r.Intn(120), time.Month(1+r.Intn(12))
		if r.Intn(2) == 0 {
			m = []time.Month{1, 3}[r.Intn(2)]
		}
		return time.Date(y, m, 1, 0, 0, r.Intn(5)-2, 0, time.Local).Unix()
	}
	return 315705600 + int64(r.Intn(1700000000))
}
