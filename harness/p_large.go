package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

// Cases of scale: contents beyond 2^24 bytes and archives of more than 2^16
// members, where counters that are too narrow give way.

// sparse is n bytes of long runs with islands of noise, quick to pack.
func sparse(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; {
		c := byte(r.Intn(256))
		k := 2000 + r.Intn(40000)
		for ; k > 0 && i < n; k-- {
			b[i] = c
			i++
		}
		for k = r.Intn(60); k > 0 && i < n; k-- {
			b[i] = byte(r.Intn(256))
			i++
		}
	}
	return b
}

func largeSize(r *rand.Rand) int {
	return 1<<uint(20+2*r.Intn(3)) + r.Intn(70000)
}

// largeTokens are tokens of about n bytes, mostly of the longest matches.
func largeTokens(r *rand.Rand, n, maxLen, maxDist int) []ref.Tok {
	var toks []ref.Tok
	for pos := 0; pos < n; {
		if pos < 64 || r.Intn(12) == 0 {
			toks = append(toks, ref.Tok{B: byte(r.Intn(256))})
			pos++
			continue
		}
		l := maxLen
		if r.Intn(8) == 0 {
			l = 3 + r.Intn(maxLen-2)
		}
		d := 1 + r.Intn(min(maxDist, pos))
		toks = append(toks, ref.Tok{Len: l, Dist: d})
		pos += l
	}
	return toks
}

func (t *T) largeDecode(method string) {
	r := t.R
	n := 1<<24 + r.Intn(70000)
	var data, plain []byte
	st := ref.Style{BlockSize: 20000 + r.Intn(45000), Skew: 0.2}
	switch method {
	case "-lh0-", "-lz4-", "-pm0-":
		plain = sparse(r, n)
		data = plain
	case "-lzs-":
		toks := largeTokens(r, n, 17, 2048)
		data, plain = ref.EncodeLzs(toks), ref.Expand(toks, 2048, ref.Spaces(2048))
	case "-lz5-":
		toks := largeTokens(r, n, 18, 4096)
		data, plain = ref.EncodeLz5(toks), ref.Expand(toks, 4096, ref.Lz5Window())
	case "-lh1-":
		toks := largeTokens(r, n, 60, 4096)
		data, _, _ = ref.EncodeLh1(toks)
		plain = ref.Expand(toks, 4096, ref.Spaces(4096))
	case "-lh3-":
		toks := largeTokens(r, n, 256, 8192)
		data, plain = ref.EncodeLh3(r, toks, st), ref.Expand(toks, 8192, ref.Spaces(8192))
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		p := ref.Static[method[3]]
		w := 1 << uint(p.DicBit)
		toks := largeTokens(r, n, 256, w)
		data, plain = ref.EncodeStatic(r, toks, p, st), ref.Expand(toks, w, ref.Spaces(w))
	default:
		data, plain, _ = packed(r, method, 1<<20+r.Intn(70000))
	}
	level := r.Intn(4)
	m := &member{h: headerFor(r, level, method, "large.bin"), data: data, plain: plain}
	next := simpleMember(r.Intn(4), "-lh0-", "next", []byte("next"), []byte("next"))
	must(writeFile("x.lzh", archiveOf(m, next)))
	what := fmt.Sprintf("%s of %d bytes in %d, level %d", method, len(plain), len(data), level)
	hs, err := newLha("x.lzh").Headers()
	if err != nil || len(hs) != 2 {
		t.Failf("headers", "Headers: %d members, %v; %s", len(hs), err, what)
	}
	got, err := newLha("x.lzh").DecompresBytes(hs[0])
	if err != nil {
		t.Failf("decode", "DecompresBytes: %v; %s", err, what)
	}
	if d := diffBytes(got, plain); d != "" {
		t.Failf("decode", "decoded wrongly: %s; %s", d, what)
	}
	got, err = newLha("x.lzh").DecompresBytes(hdrNamed("next"))
	if err != nil || string(got) != "next" {
		t.Failf("decode", "the member after it: %q, %v; %s", got, err, what)
	}
	t.Add("large_members", 1)
	t.Add("bytes_compared", len(plain))
	t.Sig("large/%s", method)
}

// manyMembers is an archive of n small stored members.
func manyMembers(r *rand.Rand, n int) (ms []*member, arch []byte) {
	level := r.Intn(4)
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		d := []byte(fmt.Sprint(i))[:r.Intn(3)%2*1]
		m := simpleMember(level, "-lh0-", fmt.Sprintf("m%06d", i), d, d)
		ms = append(ms, m)
		b.Write(m.bytes())
	}
	b.WriteByte(0)
	return ms, b.Bytes()
}

func manyCount(r *rand.Rand) int { return 1<<16 + 1 + r.Intn(2000) }

func (t *T) manyHeaders() {
	ms, arch := manyMembers(t.R, manyCount(t.R))
	must(writeFile("x.lzh", arch))
	hs, err := newLha("x.lzh").Headers()
	if err != nil || len(hs) != len(ms) {
		t.Failf("headers", "Headers of %d members: %d, %v", len(ms), len(hs), err)
	}
	for i, h := range hs {
		if cstr(h.Name) != ms[i].h.Name || h.OriginalSize != len(ms[i].plain) || h.PackedSize != len(ms[i].data) || h.Crc != uint(ref.CRC16(ms[i].plain)) {
			t.Failf("headers", "member %d of %d is %q, %d bytes in %d, CRC %04x; %q, %d bytes is there", i, len(ms), cstr(h.Name), h.OriginalSize, h.PackedSize, h.Crc, ms[i].h.Name, len(ms[i].plain))
		}
	}
	t.Add("members_of_large_archives", len(ms))
	t.Sig("many members")
}

func (t *T) manySelect() {
	ms, arch := manyMembers(t.R, manyCount(t.R))
	must(writeFile("x.lzh", arch))
	for _, i := range []int{len(ms) - 1, 65535, 65536, t.R.Intn(len(ms))} {
		got, err := newLha("x.lzh").DecompresBytes(hdrNamed(ms[i].h.Name))
		if err != nil || !bytes.Equal(got, ms[i].plain) {
			t.Failf("member", "member %d of %d: %q, %v instead of %q", i, len(ms), got, err, ms[i].plain)
		}
		t.Add("members_of_large_archives", 1)
	}
	if _, err := newLha("x.lzh").DecompresBytes(hdrNamed("m065536x")); err == nil {
		t.Failf("absent", "a member which is not there is found among %d", len(ms))
	}
	t.Sig("many members")
}

// largeUpdate: members kept are copied whole, large and many ones too.
func (t *T) largeUpdate(many bool) {
	r := t.R
	var old [][]byte
	var names []string
	var b bytes.Buffer
	if many {
		ms, _ := manyMembers(r, manyCount(r))
		for _, m := range ms {
			old, names = append(old, m.bytes()), append(names, m.h.Name)
		}
	} else {
		for i := 0; i < 3; i++ {
			d := sparse(r, largeSize(r))
			m := simpleMember(r.Intn(4), "-lh0-", fmt.Sprintf("l%d", i), d, d)
			old, names = append(old, m.bytes()), append(names, m.h.Name)
		}
	}
	for _, x := range old {
		b.Write(x)
	}
	b.WriteByte(0)
	must(writeFile("x.lzh", b.Bytes()))
	at := r.Intn(len(old))
	name := names[at]
	if r.Intn(2) == 0 {
		name, at = "zzz", -1
	}
	l := newLha("x.lzh")
	l.SortContents = r.Intn(2) == 0
	if err := l.CompressBytes(name, []byte("new"), 5, r.Intn(3)); err != nil {
		t.Failf("update", "adding to an archive of %d bytes and %d members: %v", b.Len(), len(old), err)
	}
	got := mustRead("x.lzh")
	pos, found := 0, 0
	for i := 0; pos < len(got); {
		h, err := ref.ParseHeader(got[pos:])
		if err == ref.ErrEnd {
			if i == at { // replaced, and found before
				i++
			}
			if i != len(old) {
				t.Failf("lost", "%d members are left of %d", i, len(old))
			}
			break
		}
		if err != nil {
			t.Failf("format", "%v after %d members", err, i)
		}
		raw := got[pos : pos+h.Len+h.Packed]
		pos += len(raw)
		if h.Name == name {
			found++
			if i == at {
				i++
			}
			continue
		}
		if i == at {
			i++
		}
		if i >= len(old) || !bytes.Equal(raw, old[i]) {
			t.Failf("changed", "member %d of %d (%q of %d bytes) is not what it was", i, len(old), h.Name, h.Packed)
		}
		i++
		t.Add("large_members_kept", 1)
	}
	if found != 1 {
		t.Failf("added", "the member added is there %d times", found)
	}
	t.Sig("large update/%v/%v", many, at < 0)
}

func (t *T) manyListing() {
	ms, arch := manyMembers(t.R, manyCount(t.R))
	must(writeFile("x.lzh", arch))
	total := 0
	for _, m := range ms {
		total += len(m.plain)
	}
	lha.Quiet = true
	res := t.outDo(&opReq{Kind: "list", Archive: "x.lzh"}, nil)
	lha.Quiet = false
	if res.Err != "" {
		t.Failf("listing", "CommandList of %d members: %s", len(ms), res.Err)
	}
	lines := bytes.Split(bytes.TrimSuffix([]byte(res.Out), []byte("\n")), []byte("\n"))
	if len(lines) != len(ms) {
		t.Failf("listing", "%d lines list %d members", len(lines), len(ms))
	}
	for i, x := range lines {
		if !bytes.HasSuffix(x, []byte(" "+ms[i].h.Name)) {
			t.Failf("listing", "line %d is %q, the member is %q", i, x, ms[i].h.Name)
		}
	}
	res = t.outDo(&opReq{Kind: "list", Archive: "x.lzh"}, nil)
	lines = bytes.Split(bytes.TrimSuffix([]byte(res.Out), []byte("\n")), []byte("\n"))
	f := bytes.Fields(lines[len(lines)-1])
	if len(f) < 4 || string(f[1]) != fmt.Sprint(len(ms)) || string(f[3]) != fmt.Sprint(total) {
		t.Failf("totals", "the last line is %q; %d members of %d bytes in all", lines[len(lines)-1], len(ms), total)
	}
	t.Add("members_of_large_archives", len(ms))
	t.Sig("many members")
}

// largeFile: a large file goes through an archive and back.
func (t *T) largeFile() {
	r := t.R
	method := encMethods[r.Intn(5)]
	b := sparse(r, largeSize(r))
	must(os.Mkdir("in", 0755))
	must(writeFile("in/large", b))
	l := newLha("x.lzh")
	what := fmt.Sprintf("%d bytes, -lh%d-", len(b), method)
	if err := l.Compress("in/large", method, r.Intn(3)); err != nil {
		t.Failf("compress", "Compress: %v; %s", err, what)
	}
	must(os.Mkdir("out", 0755))
	x := newLha("x.lzh")
	x.ExtractDirectory = "out"
	if err := lha.CommandExtract("x.lzh", x); err != nil {
		t.Failf("extract", "CommandExtract: %v; %s", err, what)
	}
	if d := diffBytes(mustRead("out/large"), b); d != "" {
		t.Failf("content", "%s; %s", d, what)
	}
	rmAll("in")
	rmAll("out")
	t.Add("large_files", 1)
	t.Sig("large/%d/%s", method, sizeClass(len(b)))
}
