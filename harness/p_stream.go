package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C15", Level: "exploration", Quick: 1200, Thorough: 24000, Run: runC15,
		Rule: "A case packs, unpacks or reads headers from a stream wrapped in a reader that splits the data: one byte at a time, pieces of random and of given sizes, the last piece together with the end of file, empty reads in between. The oracle is the same call on an unsplit stream, the plain content and CRC known to the generator and, for the position, the count of bytes the wrapper delivered: after a header exactly its length, after a member's data what the decoder reports and never more than the member's size, so that whole archives are walked member by member on one stream. Distinct: operation, method or level, way of splitting, size.",
		Min:  map[string]int{"encodings": 2000, "decodings": 2500, "headers": 3000, "walks": 600, "members_walked": 1500, "reads": 300000}})
}

func runC15(c *Ctx) {
	for i := 0; i < 5; i++ {
		c.Case("encode", func(t *T) { t.splitEncode() })
		c.Case("decode", func(t *T) { t.splitDecode() })
		c.Case("headers", func(t *T) { t.splitHeaders() })
		c.Case("walk", func(t *T) { t.splitWalk() })
	}
}

var splits = []string{"one", "random", "whole", "blocks", "empty reads", "tail"}

// splitReader delivers data in pieces and counts.
type splitReader struct {
	b     []byte
	r     *rand.Rand
	how   string
	block int
	eof   bool // the end of file comes with the last piece
	reads int
	given int
	lull  bool
}

func newSplit(r *rand.Rand, b []byte) *splitReader {
	s := &splitReader{b: b, r: r, how: splits[r.Intn(len(splits))], eof: r.Intn(2) == 0}
	s.block = []int{2, 3, 7, 16, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 65536}[r.Intn(16)]
	return s
}

func (s *splitReader) Read(p []byte) (int, error) {
	s.reads++
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch s.how {
	case "one":
		n = 1
	case "random":
		n = 1 + s.r.Intn(n)
	case "blocks":
		n = min(n, s.block)
	case "empty reads":
		if !s.lull {
			s.lull = true
			return 0, nil
		}
		s.lull = false
		n = 1 + s.r.Intn(n)
	case "tail": // all but a byte
		if n > 1 {
			n--
		}
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	s.given += n
	if len(s.b) == 0 && s.eof {
		return n, io.EOF
	}
	return n, nil
}

func (t *T) splitEncode() {
	r := t.R
	lha.Quiet = true
	for k := 0; k < 4; k++ {
		m := encMethods[r.Intn(5)]
		max := 30000
		if r.Intn(6) == 0 {
			max = 150000
		}
		b, kind := randBody(r, max)
		enc := func(rd io.Reader) (out []byte, crc uint, o, p int, name string, err error) {
			l := newLha("")
			l.CompressMethod = m
			var buf bytes.Buffer
			var w io.Writer = &buf
			nm := make([]byte, 5)
			crc, err = l.EncodeLzhuf(&rd, &w, len(b), &o, &p, []byte("x"), nm)
			return buf.Bytes(), crc, o, p, string(nm), err
		}
		out0, crc0, o0, p0, name0, err0 := enc(bytes.NewReader(b))
		s := newSplit(r, b)
		out1, crc1, o1, p1, name1, err1 := enc(s)
		what := fmt.Sprintf("EncodeLzhuf, method %d, %d bytes of %s, %s (block %d, end with data %v)", m, len(b), kind, s.how, s.block, s.eof)
		if err0 != nil || err1 != nil {
			t.Failf("error", "%v, unsplit %v; %s", err1, err0, what)
		}
		if d := diffBytes(out1, out0); d != "" {
			t.Failf("bytes", "%s; %s", d, what)
		}
		if crc1 != crc0 || o1 != o0 || p1 != p0 || name1 != name0 {
			t.Failf("result", "crc %x size %d packed %d method %q, unsplit %x %d %d %q; %s", crc1, o1, p1, name1, crc0, o0, p0, name0, what)
		}
		if p1 != len(out1) {
			t.Failf("written", "%d bytes written, %d reported; %s", len(out1), p1, what)
		}
		if m == 0 || p1 < len(b) { // packable
			if o1 != len(b) || uint16(crc1) != ref.CRC16(b) || crc1>>16 != 0 {
				t.Failf("account", "size %d and crc %x reported, are %d and %x; %s", o1, crc1, len(b), ref.CRC16(b), what)
			}
			if s.given != len(b) {
				t.Failf("input", "%d of %d bytes taken; %s", s.given, len(b), what)
			}
		}
		t.Add("encodings", 1)
		t.Add("reads", s.reads)
		t.Sig("enc/%d/%s/%s", m, s.how, sizeClass(len(b)))
		t.Sample(what)
	}
}

func (t *T) splitDecode() {
	r := t.R
	lha.Quiet = true
	for k := 0; k < 5; k++ {
		method := allMethods[r.Intn(len(allMethods))]
		data, plain, _ := packed(r, method, bodySize(r, 20000))
		rest := make([]byte, r.Intn(40))
		r.Read(rest)
		stream := append(append([]byte(nil), data...), rest...)
		s := newSplit(r, stream)
		l := newLha("")
		var out bytes.Buffer
		n := -1
		crc := l.DecodeLzhuf(s, &out, len(plain), len(data), "x", methodIndex(method), &n)
		what := fmt.Sprintf("DecodeLzhuf, %s, %d bytes from %d, then %d others, %s (block %d, end with data %v)", method, len(plain), len(data), len(rest), s.how, s.block, s.eof)
		if d := diffBytes(out.Bytes(), plain); d != "" {
			t.Failf("bytes", "%s; %s", d, what)
		}
		if uint16(crc) != ref.CRC16(plain) || crc>>16 != 0 {
			t.Failf("crc", "crc %x, must be %x; %s", crc, ref.CRC16(plain), what)
		}
		if s.given > len(data) {
			t.Failf("too-far", "%d bytes taken; %s", s.given, what)
		}
		if n != s.given {
			t.Failf("position", "%d bytes taken, %d reported; %s", s.given, n, what)
		}
		t.Add("decodings", 1)
		t.Add("reads", s.reads)
		t.Sig("dec/%s/%s/%s", method, s.how, sizeClass(len(plain)))
		t.Sample(what)
	}
}

func (t *T) splitHeaders() {
	r := t.R
	for k := 0; k < 6; k++ {
		h, kind := richHeader(r, r.Intn(4), k)
		safeBuild(&h)
		raw := h.Build()
		rest := make([]byte, r.Intn(60))
		r.Read(rest)
		var whole io.Reader = bytes.NewReader(append(append([]byte(nil), raw...), rest...))
		s := newSplit(r, append(append([]byte(nil), raw...), rest...))
		var rd io.Reader = s
		h0, h1 := lha.NewLzHeader(), lha.NewLzHeader()
		err0, ok0 := h0.GetHeader(&whole)
		err1, ok1 := h1.GetHeader(&rd)
		what := fmt.Sprintf("GetHeader, level %d %s %q, %s (block %d, end with data %v), %d bytes follow", h.Level, kind, h.Name, s.how, s.block, s.eof, len(rest))
		if err0 != nil || err1 != nil || !ok0 || !ok1 {
			t.Failf("error", "%v %v, unsplit %v %v; %s", err1, ok1, err0, ok0, what)
		}
		if a, b := reported(h1), reported(h0); a != b {
			t.Failf("fields", "%+v, unsplit %+v; %s", a, b, what)
		}
		if s.given != len(raw) {
			t.Failf("position", "%d bytes taken of a header of %d; %s", s.given, len(raw), what)
		}
		t.Add("headers", 1)
		t.Add("reads", s.reads)
		t.Sig("hdr/%d/%s/%s/%v", h.Level, kind, s.how, s.eof && len(rest) == 0)
		t.Sample(what)
	}
}

// splitWalk goes through an archive on one stream.
func (t *T) splitWalk() {
	r := t.R
	lha.Quiet = true
	ms := world(r, worldOpt{n: 1 + r.Intn(6), maxBody: 4000})
	end := r.Intn(4) > 0
	s := newSplit(r, rawArchive(ms, end))
	var rd io.Reader = s
	what := fmt.Sprintf("archive of %d members, end mark %v, %s (block %d, end with data %v)", len(ms), end, s.how, s.block, s.eof)
	l := newLha("")
	for i, m := range ms {
		h := lha.NewLzHeader()
		err, ok := h.GetHeader(&rd)
		if err != nil || !ok {
			t.Failf("header", "member %d: %v %v; %s", i, err, ok, what)
		}
		if d := diffHeader(h, m.want); d != "" {
			t.Failf("header", "member %d: %s; %s", i, d, what)
		}
		if m.kind != "file" {
			if _, err := io.CopyN(io.Discard, rd, int64(h.PackedSize)); err != nil {
				t.Failf("data", "member %d: %v; %s", i, err, what)
			}
			continue
		}
		var out bytes.Buffer
		n := 0
		crc := l.DecodeLzhuf(rd, &out, h.OriginalSize, h.PackedSize, "x", methodIndex(string(h.Method)), &n)
		if d := diffBytes(out.Bytes(), m.plain); d != "" {
			t.Failf("data", "member %d (%s): %s; %s", i, h.Method, d, what)
		}
		if h.HasCrc && uint(crc) != h.Crc {
			t.Failf("crc", "member %d (%s): crc %x, in the header %x; %s", i, h.Method, crc, h.Crc, what)
		}
		if n > h.PackedSize {
			t.Failf("too-far", "member %d: %d bytes of %d taken; %s", i, n, h.PackedSize, what)
		}
		if _, err := io.CopyN(io.Discard, rd, int64(h.PackedSize-n)); err != nil {
			t.Failf("data", "member %d: %v; %s", i, err, what)
		}
		t.Add("members_walked", 1)
	}
	err, ok := lha.NewLzHeader().GetHeader(&rd)
	if ok || err != nil && err != io.EOF {
		t.Failf("end", "after the last member %v %v; %s", err, ok, what)
	}
	t.Add("walks", 1)
	t.Add("reads", s.reads)
	t.Sig("walk/%d/%s/%v", len(ms), s.how, end)
	t.Sample(what)
}
