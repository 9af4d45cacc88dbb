package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"lhaverif/ref"
)

// mem is a member of a generated archive, made by the independent packer.
type mem struct {
	key   string // its name for the library
	kind  string // file, dir, link
	m     *member
	raw   []byte
	plain []byte
	link  string
	want  wantHeader
}

type worldOpt struct {
	n       int
	maxBody int
	simple  bool     // names that can be extracted side by side, as files only
	methods []string // of files, nil for all
	levels  []int    // nil for all
	sorted  bool
	unix    bool // with UNIX modes, as lha writes
}

// world makes an archive of different members, names all different.
func world(r *rand.Rand, o worldOpt) []*mem {
	var ms []*mem
	used := map[string]bool{}
	for tries := 0; len(ms) < o.n && tries < 200; tries++ {
		level := r.Intn(4)
		if o.levels != nil {
			level = o.levels[r.Intn(len(o.levels))]
		}
		h, kind := richHeader(r, level, len(ms))
		if h.OS == 'm' && strings.Contains(h.Name, ":") {
			h.OS = 'M' // read under another name
		}
		if o.simple {
			kind = "file"
			h = headerFor(r, level, "-lh0-", simplePath(r))
			if h.OS == 'U' {
				h.Mode = 0100000 | 0400 | uint16(r.Intn(01000))
			} else {
				h.HasMode = false
			}
		}
		if o.unix {
			h.OS = 'U'
			h.NoOS = false
			h.Slack = 0
			h.HasMode = level > 0
			mt := uint16(0100000)
			if kind == "dir" {
				mt = 0040000
			} else if kind == "link" {
				mt = 0120000
			}
			h.Mode = mt | 0400 | uint16(r.Intn(0400))
			if level == 0 && h.MTime == 0 {
				h.MTime = 1000000000
			}
			h.NoCRC = false
		}
		var data, plain []byte
		if kind == "file" {
			mm := allMethods
			if o.methods != nil {
				mm = o.methods
			}
			h.Method = mm[r.Intn(len(mm))]
			max := o.maxBody
			if max == 0 {
				max = 3000
			}
			data, plain, _ = packed(r, h.Method, bodySize(r, max))
		}
		h.Packed, h.Size, h.CRC = len(data), len(plain), ref.CRC16(plain)
		safeBuild(&h)
		w := expectHeader(&h, time.Local)
		key := w.Name
		if key == "" || used[key] || used[strings.TrimSuffix(key, "/")] || used[key+"/"] {
			continue
		}
		if o.simple && clash(key, used) {
			continue
		}
		used[key] = true
		x := &mem{key: key, kind: kind, plain: plain, link: w.Real, want: w}
		x.m = &member{h: h, data: data, plain: plain}
		x.raw = append(h.Build(), data...)
		ms = append(ms, x)
	}
	if o.sorted {
		sortMems(ms)
	}
	return ms
}

func sortMems(ms []*mem) {
	for i := range ms {
		for j := i; j > 0 && ms[j].key < ms[j-1].key; j-- {
			ms[j], ms[j-1] = ms[j-1], ms[j]
		}
	}
}

// clash: a name which is a directory of another
func clash(k string, used map[string]bool) bool {
	for u := range used {
		if strings.HasPrefix(u, k+"/") || strings.HasPrefix(k, u+"/") {
			return true
		}
	}
	return false
}

var simpleWords = []string{"a", "b", "ab", "abc", "A", "B", "readme", "README", "readme.txt", "Readme.txt", "x", "x1", "x10", "data", "data.bin", "data.bi", "zz", "file", "file1", "file2", "file10", "_", "0", "é", "日本", "a b", "c.tar", "c"}

// simplePath makes names which resemble each other.
func simplePath(r *rand.Rand) string {
	s := ""
	for k := max(0, r.Intn(4)-1); k > 0; k-- {
		s += []string{"d", "D", "dir", "dir1", "sub", "d1"}[r.Intn(6)] + "/"
	}
	return s + simpleWords[r.Intn(len(simpleWords))]
}

func rawArchive(ms []*mem, end bool) []byte {
	var b bytes.Buffer
	for _, m := range ms {
		b.Write(m.raw)
	}
	if end {
		b.WriteByte(0)
	}
	return b.Bytes()
}

func keys(ms []*mem) string {
	var k []string
	for _, m := range ms {
		k = append(k, fmt.Sprintf("%q", m.key))
	}
	return "[" + strings.Join(k, " ") + "]"
}

// keyOf is the name the library gives to a member read by the reference.
func keyOf(m *ref.Member) string {
	if m.HasMode && m.Mode&0170000 == 0120000 {
		if i := strings.IndexByte(m.Name, '|'); i >= 0 {
			return m.Name[:i]
		}
	}
	return m.Name
}
