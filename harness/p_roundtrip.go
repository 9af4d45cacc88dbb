package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

var encMethods = []int{0, 1, 5, 6, 7}

func init() {
	register(&Prop{ID: "C01", Level: "exploration", Quick: 240, Thorough: 6000, Run: runC01,
		Rule: "A case is a body (16 kinds, sizes at window, block and match-length edges), a name, a method and a header level, packed by CompressBytes on a fresh handle and read back by Headers and DecompresBytes on others. Distinct: method, level, kind, size class and the method the member ended up with.",
		Min:  map[string]int{"bytes_compared": 1000000, "members_compressed": 100, "members_stored": 20, "large_members": 20}})
	register(&Prop{ID: "C04", Level: "exploration", Quick: 240, Thorough: 5000, Run: runC04,
		Rule: "A case is an archive of one or more members whose data an encoder written from the format packed from a random token list, in one of 13 methods; the decoded bytes are compared with the expansion of the tokens. Distinct: method, size class, block style and header level.",
		Min:  map[string]int{"bytes_compared": 1000000, "members": 200, "all_trees_rebuilt-lh1-": 1, "all_trees_rebuilt-lh2-": 1, "members_of_a_broken_packer": 500, "large_members": 13, "tokens_dumped": 10000}})
}

func runC01(c *Ctx) {
	n := 26
	for i := 0; i < n; i++ {
		var m, level int
		c.Case("bytes", func(t *T) {
			r := t.R
			k := (c.Chunk*n + i)
			m = encMethods[k%5]
			if r.Intn(25) == 0 {
				m = []int{2, 3, 4}[r.Intn(3)] // not written: stored
			}
			level = r.Intn(3)
			lha.GenericFormat = r.Intn(2) == 0
			max := 150000
			if k%9 == 0 {
				max = 400000
			}
			if c.thorough() && k%40 == 0 {
				max = 3000000
			}
			b, kind := randBody(r, max)
			t.roundTripBytes(m, level, b, kind)
		})
	}
	if c.Chunk == 0 {
		// every size around the edges, tiny bodies
		for m := range encMethods {
			m := encMethods[m]
			c.Case(fmt.Sprintf("tiny -lh%d-", m), func(t *T) {
				for n := 0; n < 70; n++ {
					for _, kind := range []string{"zero", "random", "text", "period"} {
						t.roundTripBytes(m, n%3, body(t.R, kind, n), kind)
					}
				}
			})
		}
	}
	if c.Chunk >= 6 && c.Chunk <= 15 {
		m := encMethods[c.Chunk%5]
		c.Case(fmt.Sprintf("large -lh%d-", m), func(t *T) {
			t.roundTripBytes(m, t.R.Intn(3), sparse(t.R, 1<<24+t.R.Intn(70000)), "sparse")
			t.roundTripBytes(m, t.R.Intn(3), sparse(t.R, largeSize(t.R)), "sparse")
			t.Add("large_members", 2)
		})
	}
	if c.Chunk >= 1 && c.Chunk <= 5 {
		m := encMethods[c.Chunk-1]
		c.Case(fmt.Sprintf("edges -lh%d-", m), func(t *T) {
			for _, n := range edgeSizes {
				if n < 4000 {
					continue
				}
				kind := bodyKinds[t.R.Intn(len(bodyKinds))]
				t.roundTripBytes(m, t.R.Intn(3), body(t.R, kind, n), kind)
			}
		})
	}
}

var rtCount int

func (t *T) roundTripBytes(m, level int, b []byte, kind string) {
	rtCount++
	arch := fmt.Sprintf("a%d.lzh", rtCount)
	name := fileName(t.R, 200)
	keep := append([]byte(nil), b...)
	l := newLha(arch)
	if err := l.CompressBytes(name, b, m, level); err != nil {
		t.Failf("compress", "CompressBytes(%q, %d bytes of %s, method %d, level %d): %v", name, len(b), kind, m, level, err)
	}
	if d := diffBytes(b, keep); d != "" {
		t.Failf("input-changed", "CompressBytes changed the bytes it was given: %s", d)
	}
	if t.R.Intn(2) == 0 {
		l = newLha(arch) // or the same handle
	}
	hs, err := l.Headers()
	if err != nil || len(hs) != 1 {
		t.Failf("headers", "Headers of an archive of one member (%d bytes of %s, method %d, level %d): %d headers, %v", len(b), kind, m, level, len(hs), err)
	}
	h := hs[0]
	if cstr(h.Name) != name || h.OriginalSize != len(b) || h.Crc != uint(ref.CRC16(b)) && len(b) > 0 || h.HeaderLevel != byte(level) {
		t.Failf("header-fields", "member is %q, %d bytes, CRC %04x, level %d; %q, %d bytes, CRC %04x, level %d was added", cstr(h.Name), h.OriginalSize, h.Crc, h.HeaderLevel, name, len(b), ref.CRC16(b), level)
	}
	got, err := newLha(arch).DecompresBytes(h)
	if err != nil {
		t.Failf("decompress", "DecompresBytes (%d bytes of %s, method %d stored as %s, level %d): %v", len(b), kind, m, h.Method, level, err)
	}
	if d := diffBytes(got, b); d != "" {
		t.Failf("content", "round trip of %d bytes of %s, method %d (stored as %s), level %d: %s", len(b), kind, m, h.Method, level, d)
	}
	t.Add("bytes_compared", len(b))
	if string(h.Method) == "-lh0-" {
		t.Add("members_stored", 1)
	} else {
		t.Add("members_compressed", 1)
		t.Add("members"+string(h.Method), 1)
	}
	t.Sig("%d/%d/%s/%s/%s", m, level, kind, sizeClass(len(b)), h.Method)
	t.Sample(fmt.Sprintf("%d bytes of %s, asked -lh%d-, level %d, name %q: %s of %d bytes, read back equal", len(b), kind, m, level, name, h.Method, h.PackedSize))
}

// headerFor makes a random well-formed header.
// slack is a number of bytes nobody knows in the basic header.
func slack(r *rand.Rand, room int) int {
	n := 0
	switch r.Intn(6) {
	case 0, 1:
		n = r.Intn(5)
	case 2:
		n = r.Intn(40)
	case 3:
		n = r.Intn(220)
	}
	return max(0, min(n, room))
}

func headerFor(r *rand.Rand, level int, method, name string) ref.Header {
	h := ref.Header{Level: level, Method: method, Name: name, Attr: 0x20}
	h.OS = []byte{'U', 'M', 0, 'J', 'H', '2', 'w', 'C'}[r.Intn(8)]
	tm := time.Unix(randTime(r), 0).In(time.Local)
	if level < 2 {
		h.Stamp = ref.DosTime(tm)
	} else {
		h.Stamp = uint32(tm.Unix())
	}
	switch level {
	case 0:
		h.NoOS = r.Intn(4) == 0
		if h.OS == 'U' {
			h.MTime = uint32(tm.Unix()) + uint32(r.Intn(5))
			h.Mode = 0100000 | uint16(r.Intn(01000))
			h.UID, h.GID = uint16(r.Intn(65536)), uint16(r.Intn(65536))
		}
		if !h.NoOS {
			h.Slack = slack(r, 255-36-len(name))
		}
		return h
	case 1:
		h.NameExt = r.Intn(3) == 0
		_, base := splitLast(name)
		h.Slack = slack(r, 255-27-len(base))
	}
	h.HasHCRC = level >= 1 && r.Intn(3) > 0
	if level == 1 {
		h.HasHCRC = false
	}
	if r.Intn(2) == 0 || h.OS == 'U' {
		h.HasMode, h.Mode = true, 0100000|uint16(r.Intn(01000))
	}
	if r.Intn(2) == 0 {
		h.HasIDs, h.UID, h.GID = true, uint16(r.Intn(65536)), uint16(r.Intn(65536))
	}
	if r.Intn(3) == 0 {
		h.User = "user" + fmt.Sprint(r.Intn(1000))
	}
	if r.Intn(3) == 0 {
		h.Group = "grp" + fmt.Sprint(r.Intn(1000))
	}
	if r.Intn(3) == 0 {
		h.HasMTime, h.MTime = true, uint32(tm.Unix())+uint32(r.Intn(5))
	} else if r.Intn(3) == 0 {
		h.HasWin, h.WinMTime = true, ref.WinTime(tm.Unix()+int64(r.Intn(9)), uint32(r.Intn(10000000)))
	}
	if r.Intn(4) == 0 {
		h.HasAttr, h.DosAttr = true, uint16(r.Intn(64))
	}
	for k := r.Intn(4) - 1; k > 0; k-- {
		d := make([]byte, r.Intn(60))
		r.Read(d)
		h.Unknown = append(h.Unknown, ref.Ext{Type: []byte{0x3f, 0x39, 0x48, 0x7d, 0x7f, 0xc4, 0xd0, 0xfe, 0xff, 0x43, 0x55}[r.Intn(11)], Data: d})
	}
	if r.Intn(2) == 0 {
		h.Order = r.Perm(12)
	}
	if level == 2 {
		h.Pad = r.Intn(4) == 0
		// the size of a level 2 header must not look like the end mark
		for {
			ok := true
			func() {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				h.Build()
			}()
			if ok {
				break
			}
			h.Pad = false
		}
	}
	return h
}

func runC04(c *Ctx) {
	n := 22
	for i := 0; i < n; i++ {
		k := c.Chunk*n + i
		method := allMethods[k%len(allMethods)]
		c.Case("one "+method, func(t *T) {
			r := t.R
			max := 100000
			if k%7 == 0 {
				max = 300000
			}
			if method == "-lh1-" || method == "-lh2-" {
				max = 260000 // the trees are rebuilt after 32768 codes
			}
			size := bodySize(r, max)
			if c.thorough() && k%31 == 0 {
				size = r.Intn(1500000)
			}
			t.decodeArchive(1, func(int) (string, int) { return method, size })
		})
	}
	for i := 0; i < 5; i++ {
		c.Case("several", func(t *T) {
			t.decodeArchive(2+t.R.Intn(6), func(int) (string, int) {
				return allMethods[t.R.Intn(len(allMethods))], bodySize(t.R, 20000)
			})
		})
	}
	c.Case("broken packer", func(t *T) { t.brokenPacker() })
	c.Case("dump", func(t *T) { t.dumpTokens() })
	// all tiny sizes
	method := allMethods[c.Chunk%len(allMethods)]
	c.Case("tiny "+method, func(t *T) {
		t.decodeArchive(40, func(i int) (string, int) { return method, i })
	})
	if c.Chunk/len(allMethods) == 1 {
		c.Case("large "+method, func(t *T) { t.largeDecode(method) })
	}
	if method == "-lh1-" || method == "-lh2-" {
		c.Case("literals "+method, func(t *T) {
			// more than 32768 codes for sure
			t.decodeArchive(3, func(int) (string, int) { return method, 400000 })
		})
	}
}

func (t *T) decodeArchive(n int, pick func(i int) (string, int)) {
	r := t.R
	var ms []*member
	var notes []string
	for i := 0; i < n; i++ {
		method, size := pick(i)
		data, plain, note := packed(r, method, size)
		level := r.Intn(4)
		if r.Intn(4) == 0 {
			// what packers leave after the code
			if method != "-lh0-" && method != "-lz4-" && method != "-pm0-" {
				data = append(append([]byte(nil), data...), make([]byte, 1+r.Intn(2))...)
			}
		}
		m := &member{h: headerFor(r, level, method, fmt.Sprintf("m%d.bin", i)), data: data, plain: plain}
		ms = append(ms, m)
		notes = append(notes, fmt.Sprintf("%s of %d bytes in %d, level %d: %s", method, len(plain), len(data), level, note))
		if i := strings.Index(note, "rebuilt "); i > 0 && !strings.Contains(note, "rebuilt 0") {
			t.Add("code_trees_rebuilt"+method, 1)
			if !strings.Contains(note, "and 0") {
				t.Add("all_trees_rebuilt"+method, 1)
			}
		}
		t.Sig("%s/%s/%d/%s", method, sizeClass(len(plain)), level, note[:min(len(note), 18)])
	}
	must(writeFile("x.lzh", archiveOf(ms...)))
	l := newLha("x.lzh")
	hs, err := l.Headers()
	if err != nil {
		t.Failf("headers", "Headers of a well-formed archive: %v after %d members; %v", err, len(hs), notes)
	}
	if len(hs) != n {
		t.Failf("headers", "Headers returns %d of %d members; %v", len(hs), n, notes)
	}
	order := r.Perm(n)
	for _, i := range order {
		got, err := l.DecompresBytes(hs[i])
		if err != nil {
			t.Failf("decode", "DecompresBytes: %v; %s", err, notes[i])
		}
		if d := diffBytes(got, ms[i].plain); d != "" {
			t.Failf("decode", "decoded wrongly: %s; %s", d, notes[i])
		}
		t.Add("bytes_compared", len(got))
		t.Add("members", 1)
		t.Add("members"+ms[i].h.Method, 1)
		if r.Intn(3) == 0 {
			l = newLha("x.lzh")
		}
	}
	t.Sample(notes[0])
}

// brokenPacker: LHa for UNIX once took the window for zeros when it packed.
func (t *T) brokenPacker() {
	r := t.R
	var ms []*member
	for i := 0; i < 3; i++ {
		method := []string{"-lh4-", "-lh5-", "-lh6-", "-lh7-"}[r.Intn(4)]
		data, plain, _ := packedOver(r, method, 1+bodySize(r, 6000), func(n int) []byte { return make([]byte, n) })
		ms = append(ms, &member{h: headerFor(r, r.Intn(4), method, fmt.Sprintf("m%d.bin", i)), data: data, plain: plain})
		t.Sig("broken/%s/%s", method, sizeClass(len(plain)))
	}
	must(writeFile("x.lzh", archiveOf(ms...)))
	l := newLha("x.lzh")
	l.ExtractBrokenArchive = true
	for i, m := range ms {
		got, err := l.DecompresBytes(hdrNamed(fmt.Sprintf("m%d.bin", i)))
		if err != nil {
			t.Failf("broken", "%s of a broken packer, allowed for: %v", m.h.Method, err)
		}
		if d := diffBytes(got, m.plain); d != "" {
			t.Failf("broken", "%s of a broken packer, allowed for, decoded wrongly: %s", m.h.Method, d)
		}
	}
	t.Add("members_of_a_broken_packer", len(ms))
}

// dumpTokens: dumping the tokens changes nothing, and they make the content.
func (t *T) dumpTokens() {
	r := t.R
	method := allMethods[r.Intn(len(allMethods))]
	data, plain, note := packed(r, method, 1+bodySize(r, 4000))
	must(writeFile("x.lzh", archiveOf(&member{h: headerFor(r, r.Intn(4), method, "m.bin"), data: data, plain: plain})))
	f, err := os.Create("dump.txt")
	must(err)
	l := newLha("x.lzh")
	l.DumpLzss = true
	os.Stdout = f
	got, err := l.DecompresBytes(hdrNamed("m.bin"))
	os.Stdout = devNull
	must(f.Close())
	if err != nil {
		t.Failf("dump", "DecompresBytes of %s, dumping: %v; %s", method, err, note)
	}
	if d := diffBytes(got, plain); d != "" {
		t.Failf("dump", "%s decoded wrongly while dumping: %s; %s", method, d, note)
	}
	if method == "-lh0-" || method == "-lz4-" || method == "-pm0-" {
		return
	}
	var out []byte
	n := 0
	for _, line := range strings.Split(string(mustRead("dump.txt")), "\n") {
		var at, length, from int
		var c byte
		if k, _ := fmt.Sscanf(line, "%d <%d %d>", &at, &length, &from); k == 3 {
			if at != len(out) || at+length > len(plain) || from >= at {
				t.Failf("dump", "%s: dumped %q after %d bytes of %d", method, line, len(out), len(plain))
			}
			for i := 0; i < length; i++ {
				if from+i < 0 { // from before the beginning
					out = append(out, plain[len(out)])
				} else {
					out = append(out, out[from+i])
				}
			}
			n++
		} else if k, _ := fmt.Sscanf(line, "%d %02x(", &at, &c); k == 2 {
			if at != len(out) {
				t.Failf("dump", "%s: dumped %q after %d bytes", method, line, len(out))
			}
			out = append(out, c)
			n++
		}
	}
	if d := diffBytes(out, plain); d != "" {
		t.Failf("dump", "the tokens dumped of %s do not make its content: %s", method, d)
	}
	t.Sig("dump/%s", method)
	t.Add("tokens_dumped", n)
}
