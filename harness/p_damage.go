package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C06", Level: "fault_enumeration", Quick: 60, Thorough: 600, Run: runC06,
		Rule: "A case is a well-formed archive with injected damage: every single bit flipped and every truncation of small archives (per method and level), and random flips, bursts, overwrites, cuts, insertions and swaps in larger ones. Every operation that reads is run on it; what it returns as good is judged by an independent CRC-16, length and strict header reader. Distinct: kind of damage, what it hit (header, extension, data, end), method, level, and which operations noticed.",
		Min:  map[string]int{"damaged_archives": 10000, "must_be_reported": 4000, "content_verdicts": 200, "truncations": 1000, "lost_members": 4000, "declared_otherwise": 1000, "cut_members": 1500, "impossible_tables": 1000, "sound_tables": 300, "short_data": 1000, "overruns": 500}})
}

// verdict of the audit of a damaged archive.
type audit struct {
	ms   []*ref.Member
	data [][]byte // what the data decodes to, when known
	// state of the data of each member: 'g'ood, 'b'ad, '?' unknown
	state []byte
	end   string // "" when the archive ends as it should
	huge  bool
	cut   *ref.Header // the member whose data is cut
}

// lenient errors of the strict reader: the repository may read such headers.
func lenientHeader(err error) bool {
	s := err.Error()
	return strings.Contains(s, "given twice") || strings.Contains(s, "no name") || strings.Contains(s, "UNIX extension")
}

func auditArchive(b []byte) *audit {
	a := &audit{}
	pos := 0
	for {
		if pos >= len(b) {
			return a // no end mark: as the end of the file
		}
		h, err := ref.ParseHeader(b[pos:])
		if err == ref.ErrEnd {
			return a
		}
		if err != nil {
			if lenientHeader(err) || len(b) > pos+20 && b[pos+20] == 1 && strings.Contains(err.Error(), "header CRC") {
				// (the reader ignores a header CRC on level 1, as LHa does)
				a.end = "?"
			} else {
				a.end = err.Error()
			}
			return a
		}
		if h.Size > 1<<20 {
			a.huge = true
			return a
		}
		end := pos + h.Len + h.Packed
		if end > len(b) {
			a.end = fmt.Sprintf("data of %q is cut", h.Name)
			a.cut = h
			// a directory or link is not read at all
			return a
		}
		m := &ref.Member{Header: *h, Off: pos, Raw: b[pos:end], Data: b[pos+h.Len : end]}
		st := byte('?')
		var out []byte
		ok := false
		switch m.Method {
		case "-lh0-", "-lz4-", "-pm0-":
			out, ok = m.Data, true
			if len(out) > m.Size {
				out = out[:m.Size]
			}
			if len(out) < m.Size {
				st = 'b'
			}
		case "-lh1-":
			out, _, ok = ref.DecodeLh1(m.Data, m.Size)
		case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
			out, _, ok = ref.DecodeStatic(m.Data, m.Size, ref.Static[m.Method[3]])
		}
		if h.HasMode && h.Mode&0170000 != 0100000 {
			ok = false
		}
		if ok && st == '?' && !m.NoCRC {
			if len(out) == m.Size && ref.CRC16(out) == m.CRC {
				st = 'g'
			} else {
				st = 'b'
			}
		}
		a.ms = append(a.ms, m)
		a.data = append(a.data, out)
		a.state = append(a.state, st)
		pos = end
	}
}

// mustReport tells why reading all of the archive must fail, or "".
func (a *audit) mustReport() string {
	if a.huge {
		return ""
	}
	for i, s := range a.state {
		if s == 'b' {
			return fmt.Sprintf("the data of %q does not match its checksum", a.ms[i].Name)
		}
	}
	if a.end != "" && a.end != "?" {
		return a.end
	}
	return ""
}

func runC06(c *Ctx) {
	// every flip and every truncation of a small archive
	method := allMethods[c.Chunk%len(allMethods)]
	for lv := 0; lv < 4; lv++ {
		if (c.Chunk/len(allMethods)+lv)%2 == 1 && !c.thorough() {
			continue
		}
		lv := lv
		c.Case(fmt.Sprintf("flips %s level %d", method, lv), func(t *T) {
			arch := t.smallArchive(2, method, lv)
			for i := range arch {
				for bit := 0; bit < 8; bit++ {
					if !c.thorough() && (i*3+bit+c.Chunk)%3 != 0 {
						continue
					}
					b := append([]byte(nil), arch...)
					b[i] ^= 1 << uint(bit)
					t.judgeDamage(arch, b, fmt.Sprintf("bit %d of byte %d of %d flipped, %s level %d", bit, i, len(arch), method, lv), "flip", i%31 == bit)
				}
			}
		})
		c.Case(fmt.Sprintf("cuts %s level %d", method, lv), func(t *T) {
			arch := t.smallArchive(3, method, lv)
			for i := 0; i < len(arch); i++ {
				t.judgeDamage(arch, append([]byte(nil), arch[:i]...), fmt.Sprintf("cut to %d of %d bytes, %s level %d", i, len(arch), method, lv), "cut", i%5 == 0)
				t.Add("truncations", 1)
			}
		})
	}
	for i := 0; i < 24; i++ {
		c.Case("random", func(t *T) {
			r := t.R
			arch, _ := t.damageArchive(1+r.Intn(5), func() string { return allMethods[r.Intn(len(allMethods))] }, r.Intn(5), 3000)
			for k := 0; k < 12; k++ {
				b, kind := t.damage(arch)
				if bytes.Equal(b, arch) {
					continue
				}
				t.judgeDamage(arch, b, kind, strings.Fields(kind)[0], k%4 == 0)
			}
		})
	}
	for i := 0; i < 4; i++ {
		c.Case("declared", func(t *T) { t.declared() })
		c.Case("overrun", func(t *T) { t.overruns() })
		c.Case("tables", func(t *T) { t.tables() })
		c.Case("short", func(t *T) { t.shortData() })
	}
	for i := 0; i < 6; i++ {
		c.Case("written", func(t *T) {
			// archives the library itself wrote
			r := t.R
			l := newLha("w.lzh")
			for k := 0; k < 3; k++ {
				b, _ := randBody(r, 6000)
				lha.GenericFormat = r.Intn(2) == 0
				must(l.CompressBytes(fmt.Sprintf("f%d", k), b, encMethods[r.Intn(5)], r.Intn(3)))
			}
			arch := mustRead("w.lzh")
			for k := 0; k < 12; k++ {
				b, kind := t.damage(arch)
				if bytes.Equal(b, arch) {
					continue
				}
				t.judgeDamage(arch, b, kind, strings.Fields(kind)[0], k%4 == 0)
			}
		})
	}
}

// declared: headers with good checksums that declare another size than the
// data makes, or another checksum.
func (t *T) declared() {
	r := t.R
	for k := 0; k < 6; k++ {
		arch, ms := t.damageArchive(1+r.Intn(3), func() string { return allMethods[r.Intn(len(allMethods))] }, r.Intn(5), 600)
		var b []byte
		what := ""
		pick := r.Intn(len(ms))
		for i, m := range ms {
			raw := m.bytes()
			if i == pick {
				h := m.h
				n := h.Size - 1 - r.Intn(h.Size)
				if r.Intn(3) > 0 {
					n = h.Size - 1 - r.Intn(1+min(h.Size-1, 20))
				}
				what = fmt.Sprintf("member %d (%s level %d) of %d bytes declares %d", i, h.Method, h.Level, h.Size, n)
				h.Size = n
				switch r.Intn(3) {
				case 0:
					h.CRC = ref.CRC16(m.plain[:n])
					what += ", with their checksum"
				case 1:
					h.Size = len(m.plain) + 1 + r.Intn(30)
					what = fmt.Sprintf("member %d (%s level %d) of %d bytes declares %d", i, h.Method, h.Level, len(m.plain), h.Size)
				}
				raw = append(h.Build(), m.data...)
			}
			b = append(b, raw...)
		}
		t.judgeDamage(arch, append(b, 0), what, "declared", true)
		t.Add("declared_otherwise", 1)
	}
}

// overruns: a match at the end goes on beyond the declared size, just where
// the window has been written out, and the checksum is that of all of it.
func (t *T) overruns() {
	r := t.R
	for k := 0; k < 6; k++ {
		x := []struct {
			method string
			window int
		}{{"-lzs-", 2048}, {"-lz5-", 4096}, {"-lh1-", 4096}, {"-lh2-", 8192}, {"-lh3-", 8192}, {"-lh4-", 4096}, {"-lh5-", 8192}, {"-pm2-", 8192}}[r.Intn(8)]
		n := x.window * (1 + r.Intn(2))
		data, plain, _ := packed(r, x.method, n+1+r.Intn(12))
		h := headerFor(r, r.Intn(4), x.method, "m0")
		h.HasHCRC = h.Level >= 2
		h.Unknown = nil
		arch := archiveOf(&member{h: h, data: data, plain: plain})
		if len(plain) <= n {
			continue
		}
		h.Packed, h.Size, h.CRC = len(data), n, ref.CRC16(plain)
		bad := append(append(h.Build(), data...), 0)
		t.judgeDamage(arch, bad, fmt.Sprintf("%s data of %d bytes declares %d, with the checksum of all", x.method, len(plain), n), "overrun", true)
		t.Add("overruns", 1)
	}
}

// bareMember is a member whose header keeps no checksum of the data.
func (t *T) bareMember(method string, data, plain []byte) []byte {
	h := &ref.Header{Level: 0, Method: method, Name: "m0", NoCRC: true, NoOS: true, Packed: len(data), Size: len(plain), Attr: 0x20, Stamp: 0x2a2f6b3c}
	return append(append(h.Build(), data...), 0)
}

// judgeBare: none of the operations that read may take the archive as good.
func (t *T) judgeBare(b []byte, bad bool, what string) {
	must(writeFile("d.lzh", b))
	lha.VerifyMode = false
	verdict := func(op string, err error) {
		if bad && err == nil {
			t.Failf("silent", "%s succeeds: %s", op, what)
		}
		if !bad && err != nil {
			t.Failf("refused", "%s: %v: %s", op, err, what)
		}
	}
	_, err := newLha("d.lzh").Headers()
	verdict("Headers", err)
	_, err = newLha("d.lzh").DecompresBytes(hdrNamed("m0"))
	verdict("DecompresBytes", err)
	must(os.Mkdir("out", 0755))
	x := newLha("d.lzh")
	x.ExtractDirectory = "out"
	x.Force = true
	verdict("CommandExtract", lha.CommandExtract("d.lzh", x))
	rmAll("out")
}

// tables: data of -lh4- to -lh7- with tables no encoder can have made, in
// members whose header keeps no checksum of the data.
func (t *T) tables() {
	r := t.R
	type kind struct {
		what string
		bad  bool
		put  func(w *ref.BitWriter, p ref.StaticParams)
	}
	tOK := func(w *ref.BitWriter) { w.Put(5, 0); w.Put(5, uint32(r.Intn(19))) }
	cOK := func(w *ref.BitWriter) { w.Put(9, 0); w.Put(9, uint32(r.Intn(256))) }
	pOK := func(w *ref.BitWriter, p ref.StaticParams) { w.Put(p.PBit, 0); w.Put(p.PBit, uint32(r.Intn(p.NP))) }
	lens := func(w *ref.BitWriter, ls ...int) {
		for i, l := range ls {
			if l < 7 {
				w.Put(3, uint32(l))
			} else {
				w.Put(3, 7)
				for ; l > 7; l-- {
					w.Put(1, 1)
				}
				w.Put(1, 0)
			}
			_ = i
		}
	}
	// lengths that overfill or leave holes
	wrong := func() []int {
		return [][]int{{1, 1, 1}, {1, 2, 0}, {2, 2, 2}, {1, 1, 2}, {3, 3, 3}, {1, 3, 3}, {0, 0, 1}}[r.Intn(7)]
	}
	kinds := []kind{
		{"a sound block", false, func(w *ref.BitWriter, p ref.StaticParams) { tOK(w); cOK(w); pOK(w, p) }},
		{"the one code of the table of lengths is beyond it", true, func(w *ref.BitWriter, p ref.StaticParams) {
			w.Put(5, 0)
			w.Put(5, uint32(19+r.Intn(13)))
			cOK(w)
			pOK(w, p)
		}},
		{"the one code of characters is beyond the table", true, func(w *ref.BitWriter, p ref.StaticParams) {
			tOK(w)
			w.Put(9, 0)
			w.Put(9, uint32(510+r.Intn(2)))
			pOK(w, p)
		}},
		{"the one code of positions is beyond the table", true, func(w *ref.BitWriter, p ref.StaticParams) {
			tOK(w)
			cOK(w)
			w.Put(p.PBit, 0)
			w.Put(p.PBit, uint32(p.NP+r.Intn(1<<uint(p.PBit)-p.NP)))
		}},
		{"the table of lengths has too many entries", true, func(w *ref.BitWriter, p ref.StaticParams) {
			n := 20 + r.Intn(12)
			w.Put(5, uint32(n))
			lens(w, 1, 1, 0)
			w.Put(2, 0)
			for i := 3; i < n; i++ {
				lens(w, 0)
			}
			cOK(w)
			pOK(w, p)
		}},
		{"the table of positions has too many entries", true, func(w *ref.BitWriter, p ref.StaticParams) {
			tOK(w)
			cOK(w)
			n := p.NP + 1 + r.Intn(1<<uint(p.PBit)-p.NP-1)
			w.Put(p.PBit, uint32(n))
			lens(w, 1, 1)
			for i := 2; i < n; i++ {
				lens(w, 0)
			}
		}},
		{"the table of characters has too many entries", true, func(w *ref.BitWriter, p ref.StaticParams) {
			w.Put(5, 0)
			w.Put(5, 0) // every length is 0
			w.Put(9, 511)
			pOK(w, p)
		}},
		{"the lengths of the table of lengths make no code", true, func(w *ref.BitWriter, p ref.StaticParams) {
			w.Put(5, 3)
			lens(w, wrong()...)
			w.Put(2, 0)
			cOK(w)
			pOK(w, p)
		}},
		{"the lengths of the positions make no code", true, func(w *ref.BitWriter, p ref.StaticParams) {
			tOK(w)
			cOK(w)
			w.Put(p.PBit, 3)
			lens(w, wrong()...)
		}},
		{"the lengths of the characters make no code", true, func(w *ref.BitWriter, p ref.StaticParams) {
			l := 3 + r.Intn(6) // every character given has this length + 0
			w.Put(5, 0)
			w.Put(5, uint32(l))
			n := 1<<uint(l-2) - 1
			if r.Intn(2) == 0 {
				n += 2
			}
			w.Put(9, uint32(n))
			pOK(w, p)
		}},
		{"as many characters of a length as make a code", false, func(w *ref.BitWriter, p ref.StaticParams) {
			l := 3 + r.Intn(6)
			w.Put(5, 0)
			w.Put(5, uint32(l))
			w.Put(9, uint32(1<<uint(l-2)))
			pOK(w, p)
		}},
		{"a run of characters without a code goes beyond the table", true, func(w *ref.BitWriter, p ref.StaticParams) {
			w.Put(5, 0)
			w.Put(5, 2) // runs of 20 and more
			w.Put(9, uint32(500+r.Intn(11)))
			w.Put(9, uint32(491+r.Intn(21)))
			pOK(w, p)
		}},
	}
	for _, k := range kinds {
		d := byte('4' + r.Intn(4))
		p := ref.Static[d]
		if strings.Contains(k.what, "positions is beyond") || strings.Contains(k.what, "positions has too many") {
			if 1<<uint(p.PBit)-1 <= p.NP {
				continue
			}
		}
		n := 1 + r.Intn(40)
		w := &ref.BitWriter{}
		w.Put(16, uint32(n))
		k.put(w, p)
		for i := 0; i < n; i++ {
			w.Put(8, 0)
		}
		plain := make([]byte, n)
		if !k.bad {
			// what was put after the tables is up to n codes
			t.Add("sound_tables", 1)
		} else {
			t.Add("impossible_tables", 1)
		}
		t.judgeBare(t.bareMember("-lh"+string(d)+"-", w.Buf, plain), k.bad, fmt.Sprintf("-lh%c-, %s", d, k.what))
		t.Sig("tables/%s/%c", k.what, d)
	}
	// -lh3-
	c3 := func(w *ref.BitWriter, ls ...int) {
		for i := 0; i < 286; i++ {
			if i < len(ls) && ls[i] > 0 {
				w.Put(1, 1)
				w.Put(4, uint32(ls[i]-1))
			} else {
				w.Put(1, 0)
			}
		}
	}
	p3 := func(w *ref.BitWriter, ls ...int) {
		w.Put(1, 1)
		for i := 0; i < 128; i++ {
			if i < len(ls) {
				w.Put(4, uint32(ls[i]))
			} else {
				w.Put(4, 0)
			}
		}
	}
	one3 := func(w *ref.BitWriter, c int) {
		for i := 0; i < 3; i++ {
			w.Put(1, 1)
			w.Put(4, 0)
		}
		w.Put(9, uint32(c))
	}
	holes := func() []int {
		return [][]int{{1, 2, 0}, {2, 2, 2}, {1, 1, 2}, {3, 3, 3}, {1, 3, 3}, {0, 0, 1}}[r.Intn(6)]
	}
	pm := func(w *ref.BitWriter, bound, depth int, ls ...int) {
		w.Put(1, 0)
		w.Put(5, uint32(bound))
		w.Put(3, uint32(depth))
		if depth > 0 {
			w.Put(3, 2)
			for i := 0; i < bound; i++ {
				if i < len(ls) && ls[i] > 0 {
					w.Put(2, uint32(ls[i]-depth+1))
				} else {
					w.Put(2, 0)
				}
			}
		}
	}
	for _, k := range []struct {
		method, what string
		bad          bool
		put          func(w *ref.BitWriter)
	}{
		{"-lh3-", "a sound block", false, func(w *ref.BitWriter) { w.Put(16, 50); one3(w, r.Intn(256)); w.Put(1, 0) }},
		{"-lh3-", "sound tables", false, func(w *ref.BitWriter) { w.Put(16, 50); c3(w, 1, 2, 2); p3(w, 1, 1) }},
		{"-lh3-", "the one code of characters is beyond the table", true, func(w *ref.BitWriter) { w.Put(16, 50); one3(w, 286+r.Intn(226)); w.Put(1, 0) }},
		{"-lh3-", "the lengths of the characters make no code", true, func(w *ref.BitWriter) { w.Put(16, 50); c3(w, holes()...); w.Put(1, 0) }},
		{"-lh3-", "the lengths of the positions make no code", true, func(w *ref.BitWriter) { w.Put(16, 50); one3(w, r.Intn(256)); p3(w, holes()...) }},
		{"-pm2-", "one sound code", false, func(w *ref.BitWriter) { pm(w, 1+r.Intn(8), 0) }},
		{"-pm2-", "a sound table", false, func(w *ref.BitWriter) { pm(w, 3, 1, 1, 2, 2) }},
		{"-pm2-", "the one code is beyond the table", true, func(w *ref.BitWriter) { pm(w, []int{0, 30, 31}[r.Intn(3)], 0) }},
		{"-pm2-", "the lengths make no code", true, func(w *ref.BitWriter) {
			l := [][]int{{1, 1, 1}, {1, 2, 0}, {2, 2, 2}, {1, 1, 2}, {3, 3, 3}, {1, 3, 3}, {0, 0, 1}}[r.Intn(7)]
			pm(w, 3, 1, l...)
		}},
	} {
		n := 1 + r.Intn(40)
		w := &ref.BitWriter{}
		k.put(w)
		for i := 0; i < n+30; i++ {
			w.Put(8, 0)
		}
		if k.bad {
			t.Add("impossible_tables", 1)
		} else {
			t.Add("sound_tables", 1)
		}
		t.judgeBare(t.bareMember(k.method, w.Buf, make([]byte, n)), k.bad, k.method+", "+k.what)
		t.Sig("tables/%s/%s", k.what, k.method)
	}
}

// shortData: packed data which ends long before the size is reached, in
// members whose header keeps no checksum of the data.
func (t *T) shortData() {
	r := t.R
	for _, method := range allMethods {
		data, plain, _ := packed(r, method, 200+r.Intn(3000))
		if len(data) < 40 {
			continue
		}
		n := r.Intn(len(data) - 32)
		t.judgeBare(t.bareMember(method, data, plain), false, method+" data")
		t.judgeBare(t.bareMember(method, data[:n], plain), true, fmt.Sprintf("%d of the %d bytes %s packed %d to", n, len(data), method, len(plain)))
		t.Add("short_data", 1)
		t.Sig("short/%s", method)
	}
}

// smallArchive is an archive small enough to damage it everywhere.
func (t *T) smallArchive(n int, method string, level int) []byte {
	var best []byte
	for k := 0; k < 50; k++ {
		arch, _ := t.damageArchive(n, func() string { return method }, level, 24)
		if best == nil || len(arch) < len(best) {
			best = arch
		}
		if len(best) < 500 {
			break
		}
	}
	return best
}

func (t *T) damageArchive(n int, method func() string, level, max int) ([]byte, []*member) {
	r := t.R
	var ms []*member
	for i := 0; i < n; i++ {
		lv := level
		if lv > 3 {
			lv = r.Intn(4)
		}
		m := method()
		data, plain, _ := packed(r, m, 1+r.Intn(max))
		h := headerFor(r, lv, m, fmt.Sprintf("m%d", i))
		h.HasHCRC = lv >= 2
		h.Unknown = nil
		ms = append(ms, &member{h: h, data: data, plain: plain})
	}
	return archiveOf(ms...), ms
}

// damage damages a copy.
func (t *T) damage(arch []byte) ([]byte, string) {
	r := t.R
	b := append([]byte(nil), arch...)
	at := r.Intn(len(b))
	switch r.Intn(8) {
	case 0, 1:
		n := 1 + r.Intn(3)
		for k := 0; k < n; k++ {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b, fmt.Sprintf("flips of %d bits", n)
	case 2:
		n := 1 + r.Intn(8)
		for k := at; k < at+n && k < len(b); k++ {
			b[k] = byte(r.Intn(256))
		}
		return b, fmt.Sprintf("burst of %d bytes at %d of %d", n, at, len(b))
	case 3:
		n := 1 + r.Intn(600)
		for k := at; k < at+n && k < len(b); k++ {
			b[k] = 0
		}
		return b, fmt.Sprintf("zeros, %d bytes at %d of %d", n, at, len(b))
	case 4:
		return b[:at], fmt.Sprintf("cut to %d of %d", at, len(b))
	case 5:
		n := 1 + r.Intn(20)
		ins := make([]byte, n)
		r.Read(ins)
		return append(b[:at:at], append(ins, b[at:]...)...), fmt.Sprintf("insertion of %d bytes at %d of %d", n, at, len(b))
	case 6:
		n := 1 + r.Intn(20)
		if at+n > len(b) {
			n = len(b) - at
		}
		return append(b[:at:at], b[at+n:]...), fmt.Sprintf("removal of %d bytes at %d of %d", n, at, len(b))
	default:
		k := at + 1 + r.Intn(4)
		if k < len(b) {
			b[at], b[k] = b[k], b[at]
		}
		return b, fmt.Sprintf("swap of bytes %d and %d of %d", at, k, len(b))
	}
}

// judgeDamage runs what reads on damaged bytes and judges the results.
func (t *T) judgeDamage(orig, b []byte, what, kind string, deep bool) {
	a := auditArchive(b)
	if a.huge {
		t.Add("skipped_huge", 1)
		return
	}
	must(writeFile("d.lzh", b))
	t.Add("damaged_archives", 1)
	why := a.mustReport()
	noticed := ""
	fail := func(op string) {
		t.Failf("silent", "%s succeeds though %s (%s)", op, why, what)
	}
	hs, err := newLha("d.lzh").Headers()
	if err != nil {
		noticed += "H"
		t.Add("reported", 1)
	} else if why != "" {
		fail("Headers")
	}
	if why != "" {
		t.Add("must_be_reported", 1)
	}
	if err == nil && a.end == "" {
		if len(hs) != len(a.ms) {
			t.Failf("skipped", "Headers returns %d members, %d are there (%s)", len(hs), len(a.ms), what)
		}
	}
	// every member by itself
	count := map[string]int{}
	for _, m := range a.ms {
		count[m.Name]++
	}
	allGood := why == ""
	for i, m := range a.ms {
		if count[m.Name] > 1 || strings.ContainsAny(m.Name, "\x00\\") {
			continue
		}
		got, derr := newLha("d.lzh").DecompresBytes(hdrNamed(m.Name))
		if derr != nil {
			noticed += "D"
			if err == nil && m.Method != "-lhd-" && !(m.HasMode && m.Mode&0170000 != 0100000) {
				t.Failf("inconsistent", "Headers finds nothing wrong, DecompresBytes(%q): %v (%s)", m.Name, derr, what)
			}
			allGood = false
			continue
		}
		if len(got) != m.Size || !m.NoCRC && ref.CRC16(got) != m.CRC {
			t.Failf("content", "DecompresBytes(%q) returns %d bytes of CRC %04x as good, the header says %d and %04x (%s)", m.Name, len(got), ref.CRC16(got), m.Size, m.CRC, what)
		}
		if a.state[i] == 'b' {
			t.Failf("content", "DecompresBytes(%q) returns data which does not match (%s)", m.Name, what)
		}
		t.Add("content_verdicts", 1)
	}
	_ = allGood
	// members that are not there any more
	odd := a.end == "?" || a.cut != nil && strings.ContainsAny(a.cut.Name, "\x00\\")
	for _, m := range a.ms { // not the name everyone sees
		odd = odd || strings.ContainsAny(m.Name, "\x00\\")
	}
	if !odd {
		if a.cut != nil {
			count[a.cut.Name]++
		}
		for k, m := range t.origMembers(orig) {
			if count[m.Name] > 0 || strings.ContainsAny(m.Name, "\x00\\") {
				continue
			}
			count[m.Name]++
			if got, derr := newLha("d.lzh").DecompresBytes(hdrNamed(m.Name)); derr == nil {
				t.Failf("lost", "DecompresBytes(%q) returns %d bytes as good, the member is not there any more (%s)", m.Name, len(got), what)
			}
			if (k+len(b))%4 == 0 {
				x := newLha("d.lzh")
				x.ExtractDirectory = "lost"
				derr := x.Decompress(hdrNamed(m.Name))
				rmAll("lost")
				if derr == nil {
					t.Failf("lost", "Decompress(%q) succeeds, the member is not there any more (%s)", m.Name, what)
				}
			}
			t.Add("lost_members", 1)
		}
		if c := a.cut; c != nil && count[c.Name] == 1 && c.Method != "-lhd-" && !(c.HasMode && c.Mode&0170000 != 0100000) {
			got, derr := newLha("d.lzh").DecompresBytes(hdrNamed(c.Name))
			if derr == nil && (len(got) != c.Size || !c.NoCRC && ref.CRC16(got) != c.CRC) {
				t.Failf("content", "DecompresBytes(%q) returns %d bytes as good of the %d of a member that is cut (%s)", c.Name, len(got), c.Size, what)
			}
			t.Add("cut_members", 1)
		}
	}
	if !deep {
		t.Sig("%s/%s/%v/%s", kind, noticed, why != "", where(a, b))
		return
	}
	// extraction
	must(os.Mkdir("out", 0755))
	x := newLha("d.lzh")
	x.ExtractDirectory = "out"
	x.Force = true
	xerr := lha.CommandExtract("d.lzh", x)
	if xerr != nil {
		noticed += "X"
	} else {
		if why != "" {
			fail("CommandExtract")
		}
		for i, m := range a.ms {
			if count[m.Name] > 1 || m.Method == "-lhd-" || strings.ContainsAny(m.Name, "\x00\\") || strings.HasSuffix(m.Name, "/") || m.Name == "" {
				continue
			}
			if m.HasMode && m.Mode&0170000 != 0100000 {
				continue
			}
			p := filepath.Join("out", m.Name)
			os.Chmod(p, 0600)
			got, rerr := os.ReadFile(p)
			if rerr != nil {
				continue
			}
			if len(got) != m.Size || !m.NoCRC && ref.CRC16(got) != m.CRC {
				t.Failf("content", "CommandExtract succeeds with %d bytes of CRC %04x in %q, the header says %d and %04x (%s)", len(got), ref.CRC16(got), m.Name, m.Size, m.CRC, what)
			}
			_ = i
			t.Add("content_verdicts", 1)
		}
	}
	rmAll("out")
	// test of the checksums
	lha.VerifyMode = true
	verr := lha.CommandExtract("d.lzh", newLha("d.lzh"))
	lha.VerifyMode = false
	if verr != nil {
		noticed += "V"
	} else if why != "" {
		fail("CommandExtract in verify mode")
	}
	// to the standard output
	p := newLha("d.lzh")
	p.OutputToStdout = true
	if perr := lha.CommandExtract("d.lzh", p); perr != nil {
		noticed += "P"
	} else if why != "" {
		fail("CommandExtract to the standard output")
	}
	// the list reads headers only
	if a.end != "" && a.end != "?" {
		if lerr := lha.CommandList("d.lzh", newLha("d.lzh")); lerr == nil {
			fail("CommandList")
		}
		noticed += "L"
		// an update needs all headers, and keeps the archive when it cannot read them
		if aerr := newLha("d.lzh").CompressBytes("added", []byte("new"), 5, 2); aerr == nil {
			t.Failf("update", "a member is added though %s (%s)", why, what)
		}
		if d := diffBytes(mustRead("d.lzh"), b); d != "" {
			t.Failf("update", "a failed update of a damaged archive changed it: %s (%s)", d, what)
		}
	}
	t.Sig("%s/%s/%v/%s", kind, noticed, why != "", where(a, b))
	t.Sample(fmt.Sprintf("%s: noticed by %q, must be reported: %q", what, noticed, why))
}

// origMembers are the members before the damage.
func (t *T) origMembers(orig []byte) []*ref.Member {
	if t.orig == nil || !bytes.Equal(t.origBytes, orig) {
		ms, err := ref.ParseArchive(orig)
		if err != nil {
			harnessError("archive before damage: %v", err)
		}
		t.orig, t.origBytes = ms, orig
	}
	return t.orig
}

func where(a *audit, b []byte) string {
	s := string(a.state)
	if len(a.ms) > 0 {
		s += a.ms[len(a.ms)-1].Method + fmt.Sprint(a.ms[len(a.ms)-1].Level)
	}
	if len(a.end) > 8 {
		return s + a.end[:8]
	}
	return s + a.end
}

// rmAll removes a scratch directory of the case.
func rmAll(dir string) {
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(dir)
}
