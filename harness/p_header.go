package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C05", Level: "exploration", Quick: 2000, Thorough: 30000, Run: runC05,
		Rule: "A case is an archive of 1 to 12 members with headers of levels 0 to 3 built from the format (extensions in any order, unknown ones among them, slack, padding, DOS, UNIX and Windows times, directories, links), read by Headers and by GetHeader on one header object; every field is compared. Distinct: level, system, set of extensions, kind of member, time zone.",
		Min:  map[string]int{"headers_compared": 800, "level0": 100, "level1": 100, "level2": 100, "level3": 100, "unknown_extensions": 100, "links": 20, "directories": 20, "names_converted": 3000, "amiga_directories": 100}})
	register(&Prop{ID: "C18", Level: "exploration", Quick: 4000, Thorough: 60000, Run: runC18,
		Rule: "A case is a series of headers (names, directories, links, sizes, times, modes, owners) written by WriteHeader at a level and format, followed by arbitrary bytes, and read back by GetHeader, field by field; the bytes consumed are counted. Distinct: level, format, kind, length class of the name, fields present.",
		Min:  map[string]int{"headers_compared": 2000, "generic": 300, "unix": 300, "links": 50, "directories": 50, "name_lengths_swept": 600, "names_converted": 3000, "too_large_refused": 100}})
}

// wantHeader is what a header of the format says.
type wantHeader struct {
	Name, Real, Method, User, Group string
	Packed, Size                    int
	CRC                             uint
	HasCRC                          bool
	Level, OS, Attr                 byte
	Time                            int64
	Mode, UID, GID                  uint16
	Len                             int
	noTime                          bool
}

func expectHeader(h *ref.Header, loc *time.Location) wantHeader {
	w := wantHeader{Name: h.Name, Method: h.Method, User: h.User, Group: h.Group, Packed: h.Packed, Size: h.Size,
		CRC: uint(h.CRC), HasCRC: !h.NoCRC, Level: byte(h.Level), OS: h.OS, Attr: h.Attr, Mode: 0100666, Len: len(h.Build())}
	switch h.Level {
	case 0, 1:
		w.Time = ref.FromDos(h.Stamp, loc).Unix()
	default:
		w.Time = int64(h.Stamp)
	}
	if h.Level == 0 {
		if h.NoCRC || h.NoOS {
			w.OS = 0
		}
		if h.NoCRC {
			w.CRC = 0
		}
		if w.OS == 'U' {
			w.Time, w.Mode, w.UID, w.GID = int64(h.MTime), h.Mode, h.UID, h.GID
		}
	} else {
		if h.HasMTime {
			w.Time = int64(h.MTime)
		} else if h.HasWin && h.Level == 1 {
			w.Time = int64(h.WinMTime/10000000) - 11644473600
		}
		if h.HasMode {
			w.Mode = h.Mode
		}
		if h.HasIDs {
			w.UID, w.GID = h.UID, h.GID
		}
		if h.HasAttr {
			w.Attr = byte(h.DosAttr)
		}
	}
	if w.OS == 'A' && w.Method == "-lh0-" && strings.HasSuffix(w.Name, "/") {
		w.Method = "-lhd-" // how LHA on the Amiga marks directories
	}
	if w.OS == 'm' { // separates directories there
		w.Name = strings.ReplaceAll(w.Name, ":", "/")
	}
	if lha.ConvertCase && strings.IndexByte("HKXUJmA", w.OS) < 0 {
		w.Name = foldName(w.Name)
	}
	if w.Mode&0170000 == 0120000 {
		if i := strings.IndexByte(w.Name, '|'); i >= 0 {
			w.Name, w.Real = w.Name[:i], w.Name[i+1:]
		}
	}
	return w
}

// foldName makes a name of capitals one of small letters.
func foldName(s string) string {
	if s != asciiUpper(s) {
		return s
	}
	return asciiLower(s)
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// diffHeader tells where a header differs from what it must be.
func diffHeader(g *lha.LzHeader, w wantHeader) string {
	var out []string
	add := func(what string, got, want any) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			out = append(out, fmt.Sprintf("%s is %#v, must be %#v", what, got, want))
		}
	}
	add("name", cstr(g.Name), w.Name)
	if w.Mode&0170000 == 0120000 {
		add("link target", cstr(g.Realname), w.Real)
	} else {
		add("link target", cstr(g.Realname), "")
	}
	add("method", string(g.Method), w.Method)
	add("packed size", g.PackedSize, w.Packed)
	add("size", g.OriginalSize, w.Size)
	add("has a CRC", g.HasCrc, w.HasCRC)
	if w.HasCRC {
		add("CRC", g.Crc, w.CRC)
	}
	add("level", g.HeaderLevel, w.Level)
	add("system", g.ExtendType, w.OS)
	add("attribute", g.Attribute, w.Attr)
	if !w.noTime {
		add("time", g.UnixLastModifiedStamp, w.Time)
	}
	add("mode", g.UnixMode, w.Mode)
	add("uid", g.UnixUID, w.UID)
	add("gid", g.UnixGid, w.GID)
	add("user", cstr(g.User), w.User)
	add("group", cstr(g.Group), w.Group)
	add("header size", g.HeaderSize, w.Len)
	return strings.Join(out, ", ")
}

// richHeader makes a header, of a file, a directory or a link.
func richHeader(r *rand.Rand, level int, i int) (ref.Header, string) {
	max := 180
	if level > 0 {
		max = []int{60, 200, 900}[r.Intn(3)]
	}
	name := pathName(r, max)
	kind := "file"
	h := headerFor(r, level, "-lh0-", name)
	if level == 0 && r.Intn(10) == 0 {
		h.NoCRC, h.NoOS, h.OS = true, true, 0
	}
	switch r.Intn(6) {
	case 0:
		kind = "dir"
		h.Method = "-lhd-"
		h.Name += "/"
		h.Attr = 0x10
		if h.HasMode || level == 0 && h.OS == 'U' && !h.NoOS {
			h.Mode = h.Mode&07777 | 0040000
		}
		h.NameExt = false
	case 1:
		if level == 0 && (h.OS != 'U' || h.NoOS) {
			break
		}
		if level > 0 {
			h.HasMode = true
		}
		kind = "link"
		h.Method = "-lhd-"
		h.Mode = 0120777
		h.Name += "|" + barred(r, pathName(r, 60))
		if len(h.Name) > 215 && level == 0 {
			h.Name = "l|t"
		}
	default:
		h.Name = barred(r, h.Name)
	}
	if kind == "file" && (h.HasMode || level == 0) && h.OS == 'U' {
		h.Mode |= uint16(r.Intn(8)) << 9
	}
	if level == 1 && !h.NameExt {
		if _, base := splitLast(h.Name); len(base) > 180 {
			h.NameExt = true
		}
	}
	if level >= 1 && r.Intn(8) == 0 {
		h.User = strings.Repeat("u", 1+r.Intn(255))
	}
	if level >= 1 && r.Intn(6) == 0 {
		d := make([]byte, r.Intn(2000))
		r.Read(d)
		h.Unknown = append(h.Unknown, ref.Ext{Type: []byte{0x3f, 0x39, 0x44, 0x7e, 0xc8, 0x60}[r.Intn(6)], Data: d})
	}
	if level == 1 {
		h.OS = []byte{'U', 'M', 0, 'J', 'H', '2', 'w', 'C', 'A', 'K', 'X', 'T', '3', 'R', 'F', '9', 'm'}[r.Intn(17)]
	}
	if level >= 2 {
		h.OS = []byte{'U', 'M', 0, 'J', 'H', '2', 'w', 'C', 'A', 'K', 'X', 'T', '3', 'R', 'F', '9', 'm'}[r.Intn(17)]
		if r.Intn(5) == 0 && kind == "file" {
			h.PlainName = true
		}
	}
	if h.OS == 'm' && h.Level == 0 {
		h.OS = 'M'
	}
	return h, kind
}

func splitLast(s string) (string, string) {
	i := strings.LastIndexByte(s, '/') + 1
	return s[:i], s[i:]
}

// safeBuild makes sure a level 2 header can be built.
func safeBuild(h *ref.Header) {
	for k := 0; ; k++ {
		ok := func() (ok bool) {
			defer func() { ok = recover() == nil }()
			h.Build()
			return
		}()
		if ok {
			return
		}
		switch {
		case h.Pad:
			h.Pad = false
		case k < 8:
			h.Slack, h.Unknown = 0, append(h.Unknown, ref.Ext{Type: 0x3f, Data: []byte{1}})
			if h.Level < 2 {
				h.Unknown = nil
				h.NameExt = true
			}
		default:
			panic("no header can be built")
		}
	}
}

func extSet(h *ref.Header) string {
	s := ""
	for _, x := range []bool{h.HasHCRC, h.NameExt, h.HasMode, h.HasIDs, h.HasMTime, h.HasWin, h.HasAttr, h.User != "", h.Group != "", len(h.Unknown) > 0, h.PlainName, h.Slack > 0, h.Pad, len(h.Order) > 0, h.NoCRC, h.NoOS} {
		if x {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

func runC05(c *Ctx) {
	for i := 0; i < 26; i++ {
		c.Case("archive", func(t *T) { t.listArchive() })
	}
	if c.Chunk%300 == 3 {
		c.Case("many", func(t *T) { t.manyHeaders() })
	}
}

func (t *T) listArchive() {
	r := t.R
	zone := t.setZone()
	n := 1 + r.Intn(12)
	var ms []*member
	var kinds []string
	level := r.Intn(5)
	fold := r.Intn(5) == 0
	lha.ConvertCase = fold
	for i := 0; i < n; i++ {
		lv := level
		if lv == 4 {
			lv = r.Intn(4)
		}
		h, kind := richHeader(r, lv, i)
		if fold && r.Intn(3) > 0 {
			h.Name = asciiUpper(h.Name)
			t.Add("names_converted", 1)
		}
		if kind == "dir" && h.OS == 'A' && r.Intn(2) == 0 {
			h.Method = "-lh0-"
			t.Add("amiga_directories", 1)
		}
		m := &member{h: h}
		if kind == "file" {
			if r.Intn(3) == 0 {
				m.h.Method = allMethods[r.Intn(len(allMethods))]
			}
			m.data, m.plain, _ = packed(r, m.h.Method, bodySize(r, 3000))
		}
		m.h.Packed, m.h.Size, m.h.CRC = len(m.data), len(m.plain), ref.CRC16(m.plain)
		safeBuild(&m.h)
		ms = append(ms, m)
		kinds = append(kinds, kind)
		t.Sig("%d/%c/%s/%s/%s", lv, h.OS, extSet(&m.h), kind, zone)
		t.Add(fmt.Sprintf("level%d", lv), 1)
		t.Add("unknown_extensions", len(m.h.Unknown))
		t.Add(map[string]string{"file": "files", "dir": "directories", "link": "links"}[kind], 1)
	}
	arch := archiveOf(ms...)
	must(writeFile("x.lzh", arch))

	hs, err := newLha("x.lzh").Headers()
	if err != nil {
		t.Failf("headers", "Headers of a well-formed archive of %d members: %v after %d; %s", n, err, len(hs), describe(&ms[min(len(hs), n-1)].h))
	}
	if len(hs) != n {
		t.Failf("count", "%d headers of %d members", len(hs), n)
	}
	for i, h := range hs {
		if d := diffHeader(h, expectHeader(&ms[i].h, time.Local)); d != "" {
			t.Failf("fields", "member %d of %d (%s): %s", i, n, describe(&ms[i].h), d)
		}
		t.Add("headers_compared", 1)
	}
	// one header object for all members, from a stream
	rd := bytes.NewReader(arch)
	var fp io.Reader = rd
	one := lha.NewLzHeader()
	for i, m := range ms {
		err, ok := one.GetHeader(&fp)
		if err != nil || !ok {
			t.Failf("getheader", "GetHeader of member %d of %d (%s): %v, %v", i, n, describe(&m.h), err, ok)
		}
		w := expectHeader(&m.h, time.Local)
		if d := diffHeader(one, w); d != "" {
			t.Failf("fields", "member %d of %d read with a header used before (%s): %s", i, n, describe(&m.h), d)
		}
		t.Add("headers_compared", 1)
		if _, err := rd.Seek(int64(m.h.Packed), io.SeekCurrent); err != nil {
			panic(err)
		}
	}
	err, ok := one.GetHeader(&fp)
	if ok || err != nil && err != io.EOF {
		t.Failf("end", "GetHeader at the end mark: %v, %v", err, ok)
	}
	t.Sample(fmt.Sprintf("%d members: %s", n, describe(&ms[0].h)))
}

func describe(h *ref.Header) string {
	return fmt.Sprintf("level %d, system %q, %s, %q, extensions %s, %d unknown", h.Level, h.OS, h.Method, h.Name, extSet(h), len(h.Unknown))
}

// ---- C18

func runC18(c *Ctx) {
	for i := 0; i < 12; i++ {
		c.Case("headers", func(t *T) { t.writeRead(25) })
	}
	c.Case("too large", func(t *T) {
		r := t.R
		for i := 0; i < 12; i++ {
			lha.GenericFormat = r.Intn(2) == 0
			h := lha.NewLzHeader()
			h.Method = []byte("-lh5-")
			h.HeaderLevel = byte(i % 3)
			h.Name = append([]byte(fileName(r, 40)), 0)
			h.UnixLastModifiedStamp = randTime(r)
			h.UnixMode = 0100644
			h.Attribute = 0x20
			h.PackedSize, h.OriginalSize = r.Intn(1<<30), 1<<32+r.Intn(1<<34)
			if i%2 == 0 {
				h.PackedSize = 1<<32 + r.Intn(1<<33)
			}
			var out bytes.Buffer
			var w io.Writer = &out
			if err := lha.WriteHeader(&w, h); err == nil {
				t.Failf("size", "a header of level %d is written for %d bytes packed into %d, which it does not hold", h.HeaderLevel, h.OriginalSize, h.PackedSize)
			}
			t.Add("too_large_refused", 1)
		}
		// at the limit, of which the extended headers of level 1 take some
		for i := 0; i < 20; i++ {
			lha.GenericFormat = r.Intn(2) == 0
			h := lha.NewLzHeader()
			h.Method = []byte("-lh5-")
			h.HeaderLevel = byte(r.Intn(3))
			h.Name = append([]byte(pathName(r, 60)), 0)
			h.UnixLastModifiedStamp = randTime(r)
			h.UnixMode = 0100644
			h.Attribute = 0x20
			h.PackedSize, h.OriginalSize = 0xffffffff-r.Intn(120), 0xffffffff-r.Intn(3)
			var out bytes.Buffer
			var w io.Writer = &out
			if err := lha.WriteHeader(&w, h); err != nil {
				if h.HeaderLevel != 1 {
					t.Failf("size", "a header of level %d is refused for %d bytes packed into %d: %v", h.HeaderLevel, h.OriginalSize, h.PackedSize, err)
				}
				t.Add("too_large_refused", 1)
				continue
			}
			var rd io.Reader = bytes.NewReader(out.Bytes())
			g := lha.NewLzHeader()
			if err, ok := g.GetHeader(&rd); err != nil || !ok || g.PackedSize != h.PackedSize || g.OriginalSize != h.OriginalSize {
				t.Failf("size", "a header of level %d written for %d bytes packed into %d reads as %d packed into %d, %v %v", h.HeaderLevel, h.OriginalSize, h.PackedSize, g.OriginalSize, g.PackedSize, err, ok)
			}
			t.Add("at_the_size_limit", 1)
		}
	})
	// names and targets up to what a header holds, and beyond
	c.Case("long", func(t *T) {
		r := t.R
		for i := 0; i < 30; i++ {
			generic := r.Intn(3) == 0
			lha.GenericFormat, lha.ConvertCase = generic, false
			h := lha.NewLzHeader()
			h.Method = []byte("-lh5-")
			h.HeaderLevel = byte(i % 3)
			h.UnixLastModifiedStamp = 1000000000
			h.UnixMode = 0100644
			h.Attribute = 0x20
			h.PackedSize, h.OriginalSize, h.Crc = r.Intn(10000), r.Intn(10000), uint(r.Intn(65536))
			size := 216 + r.Intn(40)
			if h.HeaderLevel > 0 {
				size = []int{1000, 3000, 4000, 4060, 4090, 5000, 9000, 66000}[r.Intn(8)] + r.Intn(50)
			}
			var name []byte
			for len(name) < size {
				name = append(name, bytes.Repeat([]byte{byte('a' + r.Intn(26))}, 1+r.Intn(240))...)
				name = append(name, '/')
			}
			name = name[:size-1]
			for len(name) > 0 && name[len(name)-1] == '/' {
				name[len(name)-1] = 'z'
			}
			if !generic && r.Intn(2) == 0 {
				k := 1 + r.Intn(size-2)
				h.Method, h.UnixMode = []byte("-lhd-"), 0120777
				h.PackedSize, h.OriginalSize, h.Crc = 0, 0, 0
				h.Realname = append(append([]byte(nil), name[k:]...), 0)
				name = name[:k]
			}
			h.Name = append(name, 0)
			if r.Intn(3) == 0 {
				h.User = append(bytes.Repeat([]byte("u"), 1+r.Intn(200)), 0)
			}
			var out bytes.Buffer
			var w io.Writer = &out
			err := lha.WriteHeader(&w, h)
			t.Sig("long/%d/%v/%s/%d/%v", h.HeaderLevel, generic, h.Method, size/50, err == nil)
			if err != nil {
				if h.HeaderLevel > 0 && size < 3500 {
					t.Failf("write", "a header of level %d is refused for a name of %d bytes: %v", h.HeaderLevel, size, err)
				}
				if out.Len() > 0 {
					t.Failf("write", "%d bytes are written of a header that is refused for its name of %d bytes", out.Len(), size)
				}
				t.Add("too_long_refused", 1)
				continue
			}
			t.Add("long_names", 1)
			t.writeReadOne(h, generic, nil)
		}
	})
	// a link's own name may hold the sign that separates it from its target: an underscore is written for it
	c.Case("bar in a link's name", func(t *T) {
		r := t.R
		lha.GenericFormat, lha.ConvertCase = false, false
		for i := 0; i < 60; i++ {
			piece := func() string {
				b := make([]byte, 1+r.Intn(6))
				for j := range b {
					b[j] = "ab_|c|"[r.Intn(6)]
				}
				return string(b)
			}
			name := "n" + piece()
			if r.Intn(2) == 0 {
				name = "d" + piece() + "/" + name
			}
			target := "t" + piece()
			h := lha.NewLzHeader()
			h.Method = []byte("-lhd-")
			h.HeaderLevel = byte(i % 3)
			h.Name, h.Realname = append([]byte(name), 0), append([]byte(target), 0)
			h.UnixLastModifiedStamp = 1000000000
			h.UnixMode = 0120777
			h.Attribute = 0x20
			var out bytes.Buffer
			var w io.Writer = &out
			if err := lha.WriteHeader(&w, h); err != nil {
				t.Failf("bar", "a header of level %d is refused for a link %q to %q: %v", h.HeaderLevel, name, target, err)
			}
			var rd io.Reader = bytes.NewReader(out.Bytes())
			g := lha.NewLzHeader()
			err, ok := g.GetHeader(&rd)
			if want := strings.ReplaceAll(name, "|", "_"); err != nil || !ok || cstr(g.Name) != want || cstr(g.Realname) != target {
				t.Failf("bar", "a link %q to %q written at level %d reads as %q to %q, %v %v", name, target, h.HeaderLevel, cstr(g.Name), cstr(g.Realname), err, ok)
			}
			t.Add("links_with_a_bar", 1)
			t.Sig("bar/%d/%v/%v", h.HeaderLevel, strings.Contains(name, "|"), strings.Contains(target, "|"))
		}
	})
	// every name length: level 2 headers whose size would look like an end mark
	for lv := 0; lv < 3; lv++ {
		for _, generic := range []bool{false, true} {
			if (lv*2+b2i(generic))%c.Chunks != c.Chunk%6 || c.Chunk >= 6 {
				continue
			}
			lv, generic := lv, generic
			c.Case(fmt.Sprintf("lengths level %d", lv), func(t *T) {
				max := 900
				if lv == 0 {
					max = 221
					if generic {
						max = 233
					}
				}
				for n := 1; n <= max; n++ {
					lha.GenericFormat = generic
					h := lha.NewLzHeader()
					h.Method = []byte("-lh5-")
					h.HeaderLevel = byte(lv)
					h.Name = append([]byte(strings.Repeat("n", n)), 0)
					h.UnixLastModifiedStamp = 1000000000
					h.UnixMode = 0100644
					h.Attribute = 0x20
					h.PackedSize, h.OriginalSize, h.Crc = n*3, n*5, uint(n*77&0xffff)
					t.writeReadOne(h, generic, nil)
					t.Add("name_lengths_swept", 1)
				}
			})
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (t *T) writeRead(n int) {
	r := t.R
	t.setZone()
	for i := 0; i < n; i++ {
		generic := r.Intn(2) == 0
		level := r.Intn(3)
		max := 900
		if level == 0 {
			max = 215
		}
		if r.Intn(2) == 0 {
			max = 60
		}
		h := lha.NewLzHeader()
		h.HeaderLevel = byte(level)
		name := pathName(r, max)
		h.Method = []byte(allMethods[r.Intn(len(allMethods))])
		h.Attribute = 0x20
		h.PackedSize, h.OriginalSize = int(r.Uint32()>>1), int(r.Uint32())
		if r.Intn(2) == 0 {
			h.PackedSize, h.OriginalSize = r.Intn(100000), r.Intn(100000)
		}
		if r.Intn(8) == 0 {
			h.OriginalSize, h.PackedSize = 0xffffffff, 0xfffff000
		}
		h.Crc = uint(r.Intn(65536))
		h.UnixLastModifiedStamp = randTime(r)
		if !generic || level == 2 {
			switch r.Intn(6) {
			case 0:
				h.UnixLastModifiedStamp = int64(r.Uint32())
			}
		}
		h.UnixMode = 0100000 | uint16(r.Intn(010000))
		h.UnixUID, h.UnixGid = uint16(r.Intn(65536)), uint16(r.Intn(65536))
		switch r.Intn(6) {
		case 0:
			h.Method = []byte("-lhd-")
			h.Attribute = 0x10
			h.UnixMode = 0040000 | uint16(r.Intn(010000))
			if len(name) >= max {
				name = name[:max-1]
			}
			name += "/"
			h.PackedSize, h.OriginalSize, h.Crc = 0, 0, 0
			t.Add("directories", 1)
		case 1:
			if generic {
				break
			}
			h.Method = []byte("-lhd-")
			h.UnixMode = 0120777
			if level == 0 {
				name = pathName(r, 100)
			} else {
				name = pathName(r, 400)
			}
			name = strings.ReplaceAll(name, "|", "_")
			h.Realname = append([]byte(barred(r, pathName(r, 100))), 0)
			h.PackedSize, h.OriginalSize, h.Crc = 0, 0, 0
			t.Add("links", 1)
		default:
			name = barred(r, name)
		}
		h.Name = append([]byte(name), 0)
		if r.Intn(3) == 0 {
			h.User = append([]byte(fileName(r, 60)), 0)
		}
		if r.Intn(3) == 0 {
			h.Group = append([]byte(fileName(r, 60)), 0)
		}
		lha.GenericFormat = generic
		lha.ConvertCase = r.Intn(5) == 0
		rest := make([]byte, r.Intn(40))
		r.Read(rest)
		t.writeReadOne(h, generic, rest)
		t.Sig("%d/%v/%s/%s/%v%v", level, generic, h.Method, sizeClass(len(name)), h.User[0] != 0, h.Group[0] != 0)
	}
}

func (t *T) writeReadOne(h *lha.LzHeader, generic bool, rest []byte) {
	level := int(h.HeaderLevel)
	before := *h
	before.Name = append([]byte(nil), h.Name...)
	var buf bytes.Buffer
	var w io.Writer = &buf
	if err := lha.WriteHeader(&w, h); err != nil {
		t.Failf("write", "WriteHeader(%s level %d): %v", cstr(h.Name), level, err)
	}
	if !bytes.Equal(before.Name, h.Name) || before.PackedSize != h.PackedSize || before.OriginalSize != h.OriginalSize || before.UnixMode != h.UnixMode {
		t.Failf("changed", "WriteHeader changed the header of %q", cstr(before.Name))
	}
	n := buf.Len()
	buf.Write(rest)
	var rd io.Reader = bytes.NewReader(buf.Bytes())
	g := lha.NewLzHeader()
	err, ok := g.GetHeader(&rd)
	what := fmt.Sprintf("level %d generic %v %s name %q (%d bytes)", level, generic, h.Method, cstr(h.Name), len(cstr(h.Name)))
	if err != nil || !ok {
		t.Failf("read", "GetHeader of a header just written: %v, %v; %s", err, ok, what)
	}
	if left := rd.(*bytes.Reader).Len(); left != len(rest) {
		t.Failf("consumed", "GetHeader took %d bytes of a header of %d; %s", buf.Len()-left, n, what)
	}
	want := wantHeader{Name: cstr(before.Name), Real: cstr(before.Realname), Method: string(before.Method), User: cstr(before.User), Group: cstr(before.Group),
		Packed: before.PackedSize, Size: before.OriginalSize, CRC: before.Crc, HasCRC: true, Level: byte(level), OS: 'U', Attr: before.Attribute,
		Time: before.UnixLastModifiedStamp, Mode: before.UnixMode, UID: before.UnixUID, GID: before.UnixGid, Len: n}
	stored := want.Name
	if generic && lha.ConvertCase {
		want.Name, stored = asciiLower(want.Name), asciiUpper(want.Name)
		t.Add("names_converted", 1)
	}
	if level > 0 {
		want.Attr = 0x20
	}
	if level == 0 {
		want.User, want.Group = "", ""
	}
	if generic {
		want.OS, want.User, want.Group, want.UID, want.GID, want.Mode = 0, "", "", 0, 0, 0100666
		if level < 2 {
			want.noTime = true
			if d := before.UnixLastModifiedStamp - g.UnixLastModifiedStamp; !dosAmbiguous(before.UnixLastModifiedStamp, time.Local) && d != 0 && d != 1 {
				t.Failf("time", "time %d reads back as %d; %s", before.UnixLastModifiedStamp, g.UnixLastModifiedStamp, what)
			}
		}
		t.Add("generic", 1)
	} else {
		t.Add("unix", 1)
	}
	if d := diffHeader(g, want); d != "" {
		t.Failf("fields", "written and read back: %s; %s", d, what)
	}
	if h, err := ref.ParseHeader(append(buf.Bytes()[:n:n], make([]byte, 8)...)); err != nil {
		t.Failf("format", "the header written is not valid: %v; %s", err, what)
	} else if h.Level == 0 && h.Slack != 0 {
		t.Failf("format", "%d bytes follow the UNIX extension; %s", h.Slack, what)
	} else if want.Mode&0170000 != 0120000 && h.Name != stored {
		t.Failf("name", "%q is written as %q; %s", stored, h.Name, what)
	}
	t.Add("headers_compared", 1)
	t.Sample("written and read back: " + what)
}
