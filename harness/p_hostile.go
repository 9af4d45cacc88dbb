package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C07", Level: "exploration", Quick: 160, Thorough: 4000, Run: runC07,
		Rule: "A case is a hostile archive (random bytes, valid headers over random fields, valid checksums over mutated headers, mutated or random packed data of every method, lying sizes, odd extensions, names and links, members without end) given to every operation, in process and through the command, under monitors for panic, exit, processor time, blocking and memory. Distinct: generator, operation, outcome (which error, how many members).",
		Min:  map[string]int{"archives": 7000, "operations": 100000, "operations_failed": 20000, "operations_done": 5000, "processes_run": 1000}})
}

func runC07(c *Ctx) {
	c.maxCPU.Store(45)
	c.maxRSS.Store(1 << 30)
	for i := 0; i < 60; i++ {
		c.Case("archive", func(t *T) {
			b, kind := hostileArchive(t.R)
			t.attack(b, kind, t.R.Intn(12) == 0)
		})
	}
	for i := 0; i < 20; i++ {
		c.Case("stream", func(t *T) { t.attackDecoder() })
	}
	for i := 0; i < 10; i++ {
		c.Case("headers", func(t *T) { t.attackHeader() })
	}
}

// hostileHeader makes a header that claims anything, with a right checksum.
func hostileHeader(r *rand.Rand) []byte {
	le := binary.LittleEndian
	u32 := func() uint32 {
		switch r.Intn(7) {
		case 0:
			return 0
		case 1:
			return 0xffffffff
		case 2:
			return 0x7fffffff
		case 3:
			return 0x80000000
		case 4:
			return r.Uint32()
		default:
			return uint32(r.Intn(2000))
		}
	}
	method := allMethods[r.Intn(len(allMethods))]
	switch r.Intn(12) {
	case 0:
		method = "-lhd-"
	case 1:
		method = "-lh9-"
	case 2:
		method = "\x00\x00\x00\x00\x00"
	}
	level := byte(r.Intn(4))
	if r.Intn(20) == 0 {
		level = byte(r.Intn(256))
	}
	size := u32()
	if size > 8<<20 && method != "-lh0-" && method != "-lhd-" && method != "-lz4-" && method != "-lzs-" && method != "-lz5-" {
		size = uint32(r.Intn(8 << 20))
	}
	b := []byte{0, 0}
	b = append(b, method...)
	b = le.AppendUint32(b, u32())
	b = le.AppendUint32(b, size)
	b = le.AppendUint32(b, r.Uint32())
	b = append(b, byte(r.Intn(256)), level)
	name := hostileName(r)
	exts := func(sz int) []byte {
		var x []byte
		put := func(n int) {
			if sz == 4 {
				x = le.AppendUint32(x, uint32(n))
			} else {
				x = le.AppendUint16(x, uint16(n))
			}
		}
		n := r.Intn(6)
		for k := 0; k < n; k++ {
			typ := []byte{0, 1, 2, 0x3f, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54, 0xff}[r.Intn(13)]
			var d []byte
			switch {
			case typ == 1 || typ == 2 && r.Intn(2) == 0:
				d = []byte(name)
				if r.Intn(3) == 0 {
					d = []byte(strings.Repeat(name, 1+r.Intn(200)))
				}
			case typ == 0x50 && r.Intn(2) == 0:
				d = le.AppendUint16(nil, []uint16{0120777, 0040755, 0100644, 0060000, 0140000, 0, 0160000, 0177777}[r.Intn(8)])
			default:
				d = make([]byte, r.Intn(30))
				r.Read(d)
			}
			if len(d) > 6000 {
				d = d[:6000]
			}
			l := len(d) + 1 + sz
			if r.Intn(8) == 0 {
				l = int(u32()) // lies
			}
			put(l)
			x = append(x, typ)
			x = append(x, d...)
		}
		end := 0
		if r.Intn(6) == 0 {
			end = int(u32())
		}
		put(end)
		return x
	}
	sum := func(n int) {
		if r.Intn(8) > 0 {
			b[0] = byte(n)
		} else {
			b[0] = byte(r.Intn(256))
		}
		var s byte
		for i := 2; i < len(b) && i < int(b[0])+2; i++ {
			s += b[i]
		}
		b[1] = s
	}
	switch level {
	case 0, 1:
		n := len(name)
		if n > 200 {
			n = 200
		}
		nl := byte(n)
		if r.Intn(6) == 0 {
			nl = byte(r.Intn(256))
		}
		b = append(b, nl)
		b = append(b, name[:n]...)
		b = le.AppendUint16(b, uint16(r.Intn(65536)))
		if level == 0 {
			switch r.Intn(4) {
			case 0:
			case 1:
				b = b[:len(b)-2]
			default:
				b = append(b, []byte{'U', 'M', 0, 'K', 'X', 'm'}[r.Intn(6)])
				x := make([]byte, r.Intn(14))
				r.Read(x)
				if len(x) > 7 && r.Intn(2) == 0 {
					le.PutUint16(x[5:], []uint16{0120777, 0040755, 0100644, 0060000}[r.Intn(4)])
				}
				b = append(b, x...)
			}
			sum(len(b) - 2)
			return b
		}
		b = append(b, []byte{'U', 'M', 0, 'K', 'X', 'm', 'A'}[r.Intn(7)])
		x := exts(2)
		b = append(b, x[:2]...)
		sum(len(b) - 2)
		return append(b, x[2:]...)
	case 2, 3:
		b = le.AppendUint16(b, uint16(r.Intn(65536)))
		b = append(b, []byte{'U', 'M', 0, 'K', 'X', 'm', 'A'}[r.Intn(7)])
		if level == 3 {
			at := len(b)
			b = append(b, 0, 0, 0, 0)
			b = append(b, exts(4)...)
			le.PutUint32(b[at:], uint32(len(b)))
			le.PutUint16(b, 4)
			if r.Intn(6) == 0 {
				le.PutUint32(b[at:], u32())
			}
		} else {
			b = append(b, exts(2)...)
			le.PutUint16(b, uint16(len(b)))
			if r.Intn(6) == 0 {
				le.PutUint16(b, uint16(r.Intn(65536)))
			}
		}
		return b
	}
	x := make([]byte, r.Intn(100))
	r.Read(x)
	return append(b, x...)
}

func hostileName(r *rand.Rand) string {
	switch r.Intn(16) {
	case 0:
		return ""
	case 1:
		return "../" + fileName(r, 10)
	case 2:
		return "/" + fileName(r, 10)
	case 3:
		return strings.Repeat("../", 1+r.Intn(20)) + "x"
	case 4:
		return strings.Repeat("a", r.Intn(5000))
	case 5:
		return strings.Repeat("d/", r.Intn(600)) + "f"
	case 6:
		return "link|" + hostileName(r)
	case 7:
		return "|"
	case 8:
		return "a\x00b"
	case 9:
		return "."
	case 10:
		return ".."
	case 11:
		return strings.Repeat("/", 1+r.Intn(5))
	case 12:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	case 13:
		return "\xff" + fileName(r, 5) + "\\.." + "\xff"
	case 14:
		return pathName(r, 60) + "/"
	}
	return pathName(r, 60)
}

// hostileData is packed data, of a method, broken.
func hostileData(r *rand.Rand, method string) (data []byte, size int) {
	if r.Intn(4) == 0 {
		data = make([]byte, r.Intn(3000))
		r.Read(data)
		switch r.Intn(4) {
		case 0:
			for i := range data {
				data[i] = 0
			}
		case 1:
			for i := range data {
				data[i] = 0xff
			}
		}
		return data, r.Intn(1 << uint(r.Intn(22)))
	}
	d, plain, _ := packed(r, method, bodySize(r, 20000))
	data = append([]byte(nil), d...)
	size = len(plain)
	for k := r.Intn(6); k > 0 && len(data) > 0; k-- {
		switch r.Intn(5) {
		case 0:
			data = data[:r.Intn(len(data)+1)]
		case 1:
			i := r.Intn(len(data))
			data[i] = byte(r.Intn(256))
		case 2: // early: in the tables
			data[r.Intn(min(len(data), 30))] ^= 1 << uint(r.Intn(8))
		default:
			data[r.Intn(len(data))] ^= 1 << uint(r.Intn(8))
		}
	}
	if r.Intn(3) == 0 {
		size = r.Intn(1 << uint(r.Intn(22)))
	}
	return data, size
}

func hostileArchive(r *rand.Rand) ([]byte, string) {
	switch k := r.Intn(12); k {
	case 0:
		b := make([]byte, r.Intn(3000))
		r.Read(b)
		return b, "random bytes"
	case 1:
		b := make([]byte, r.Intn(300))
		r.Read(b)
		if len(b) > 21 {
			copy(b[2:], allMethods[r.Intn(len(allMethods))])
			b[20] = byte(r.Intn(4))
			binary.LittleEndian.PutUint32(b[11:], uint32(r.Intn(1<<20)))
		}
		return b, "random header"
	case 2, 3, 4:
		var b []byte
		for n := 1 + r.Intn(4); n > 0; n-- {
			b = append(b, hostileHeader(r)...)
			x := make([]byte, r.Intn(1500))
			r.Read(x)
			b = append(b, x...)
		}
		return append(b, 0), "hostile headers"
	case 5, 6, 7, 8:
		var ms [][]byte
		for n := 1 + r.Intn(3); n > 0; n-- {
			m := allMethods[r.Intn(len(allMethods))]
			data, size := hostileData(r, m)
			h := headerFor(r, r.Intn(4), m, fmt.Sprintf("f%d", n))
			h.Packed, h.Size, h.CRC = len(data), size, uint16(r.Intn(65536))
			if r.Intn(10) == 0 {
				h.Packed = r.Intn(100000)
			}
			safeBuild(&h)
			ms = append(ms, h.Build(), data)
		}
		b := bytes.Join(ms, nil)
		if r.Intn(2) == 0 {
			b = append(b, 0)
		}
		return b, "hostile data"
	case 9:
		// headers that cross the buffers
		h := ref.Header{Level: 2 + r.Intn(2), Method: "-lh0-", Name: "x", OS: 'U'}
		for n := r.Intn(40); n > 0; n-- {
			h.Unknown = append(h.Unknown, ref.Ext{Type: byte(0x60 + r.Intn(16)), Data: make([]byte, []int{0, 1, 100, 4090, 4091, 4092, 4093, 4094, 5000}[r.Intn(9)])})
		}
		defer func() { recover() }()
		return append(h.Build(), 0), "large headers"
	default:
		// a valid archive, mutated, checksums repaired now and then
		var ms []*member
		for n := 1 + r.Intn(4); n > 0; n-- {
			m := allMethods[r.Intn(len(allMethods))]
			d, p, _ := packed(r, m, bodySize(r, 2000))
			ms = append(ms, &member{h: headerFor(r, r.Intn(4), m, pathName(r, 40)), data: d, plain: p})
		}
		b := archiveOf(ms...)
		for n := 1 + r.Intn(8); n > 0; n-- {
			i := r.Intn(len(b))
			if r.Intn(2) == 0 {
				i = r.Intn(min(len(b), 60))
			}
			b[i] = byte(r.Intn(256))
		}
		if b[0] > 0 && int(b[0])+2 <= len(b) && r.Intn(2) == 0 {
			var s byte
			for _, c := range b[2 : int(b[0])+2] {
				s += c
			}
			b[1] = s
		}
		if len(b) > 15 && binary.LittleEndian.Uint32(b[11:]) > 8<<20 {
			b[14], b[13] = 0, 1
		}
		return b, "mutated"
	}
}

// capSizes keeps declared sizes within what a machine can unpack.
func capped(b []byte) bool {
	// a declared size is only dangerous in methods that can code much in little
	pos := 0
	for k := 0; k < 50 && pos+21 < len(b); k++ {
		m := string(b[pos+2 : pos+7])
		size := binary.LittleEndian.Uint32(b[pos+11:])
		if size > 16<<20 && (strings.HasPrefix(m, "-lh") && m != "-lh0-" && m != "-lhd-" || m == "-pm2-") {
			return false
		}
		h, err := ref.ParseHeader(b[pos:])
		if err != nil {
			return true
		}
		pos += h.Len + h.Packed
	}
	return true
}

// allocLimit is what an operation may allocate for an archive and its output.
func allocLimit(archive, out int) uint64 {
	return uint64(192<<20) + uint64(archive)*2000 + uint64(out)*64
}

func (t *T) attack(b []byte, kind string, cli bool) {
	if !capped(b) {
		t.Add("skipped_huge", 1)
		return
	}
	r := t.R
	name := []string{"h.lzh", "h.exe", "h.com", "h.x"}[min(3, max(0, r.Intn(12)-8))]
	must(writeFile(name, b))
	t.Add("archives", 1)
	outcomes := ""
	var ms0, ms1 runtime.MemStats
	op := func(what string, f func() (int, error)) {
		runtime.ReadMemStats(&ms0)
		n, err := f()
		runtime.ReadMemStats(&ms1)
		if a := ms1.TotalAlloc - ms0.TotalAlloc; a > allocLimit(len(b), n) {
			t.Failf("allocation", "%s allocates %d MB for an archive of %d bytes giving %d bytes of content (%s)", what, a>>20, len(b), n, kind)
		}
		t.Add("operations", 1)
		if err != nil {
			t.Add("operations_failed", 1)
			outcomes += "-"
			e := err.Error()
			if len(e) > 14 {
				e = e[:14]
			}
			t.Sig("%s/%s/%s", kind, what, e)
		} else {
			t.Add("operations_done", 1)
			outcomes += "+"
			t.Sig("%s/%s/done", kind, what)
		}
	}
	var hs []*lha.LzHeader
	op("Headers", func() (int, error) {
		var err error
		hs, err = newLha(name).Headers()
		n := 0
		for _, h := range hs {
			n += len(h.Name)
			if h.OriginalSize < 16<<20 {
				n += h.OriginalSize
			}
		}
		return n, err
	})
	for _, v := range []int{r.Intn(4)} {
		op("CommandList", func() (int, error) {
			l := newLha(name)
			l.Verbose, l.VerboseListing = v&1 != 0, v&2 != 0
			return 0, lha.CommandList(name, l)
		})
	}
	names := []string{"f1"}
	for _, h := range hs {
		names = append(names, cstr(h.Name))
	}
	for _, n := range names[:min(len(names), 4)] {
		n := n
		op("DecompresBytes", func() (int, error) {
			d, err := newLha(name).DecompresBytes(hdrNamed(n))
			return len(d), err
		})
	}
	must(os.Mkdir("out", 0755))
	for k := 0; k < 2; k++ {
		force := r.Intn(2) == 0
		ignore := r.Intn(4) == 0
		noexec := r.Intn(6) == 0
		op("CommandExtract", func() (int, error) {
			l := newLha(name)
			l.ExtractDirectory = "out"
			l.Force, l.IgnoreDirectory, l.Noexec = force, ignore, noexec
			err := lha.CommandExtract(name, l)
			return treeSize("out") + 16<<20, err
		})
	}
	rmAll("out")
	op("verify", func() (int, error) {
		lha.VerifyMode = true
		defer func() { lha.VerifyMode = false }()
		return 16 << 20, lha.CommandExtract(name, newLha(name))
	})
	op("stdout", func() (int, error) {
		l := newLha(name)
		l.OutputToStdout = true
		return 16 << 20, lha.CommandExtract(name, l)
	})
	op("Decompress", func() (int, error) {
		must(os.Mkdir("dec", 0755))
		must(os.Chdir("dec"))
		defer os.Chdir(t.Dir)
		return 16 << 20, newLha("../" + name).Decompress(hdrNamed(names[r.Intn(len(names))]))
	})
	rmAll("dec")
	must(os.Mkdir("upd", 0755))
	must(os.Chdir("upd"))
	op("automatic", func() (int, error) {
		l := newLha("../" + name)
		l.UpdateIfNewer = true
		return len(b), lha.CommandAdd("../"+name, l)
	})
	must(os.Chdir(t.Dir))
	rmAll("upd")
	op("CompressBytes", func() (int, error) {
		l := newLha(name)
		l.SortContents = r.Intn(2) == 0
		return len(b), l.CompressBytes("added", []byte("some bytes some bytes some bytes"), encMethods[r.Intn(5)], r.Intn(3))
	})
	if cli {
		must(writeFile(name, b))
		for _, args := range [][]string{{"-l"}, {"-lv"}, {"-t"}, {"-e", "-f"}, {"-p"}, {"-u"}, {"-a", "x"}} {
			must(os.Mkdir("cli", 0755)) // extraction may change its modes
			must(writeFile("cli/x", []byte("x")))
			res := t.lharc("cli", "", append(args, "-archive", "../"+name)...)
			if c := res.crashed(); c != "" {
				t.Failf("crash", "lharc %v: %s (%s)", args, c, kind)
			}
			if res.code != 0 && res.code != 1 {
				t.Failf("status", "lharc %v: %v (%s)", args, res, kind)
			}
			t.Add("operations", 1)
			rmAll("cli")
		}
	}
	t.Sample(fmt.Sprintf("%s, %d bytes: %d members, outcomes %s", kind, len(b), len(hs), outcomes))
}

func treeSize(dir string) int {
	n := 0
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil {
			if st, err := d.Info(); err == nil && st.Mode().IsRegular() {
				n += int(st.Size())
			}
		}
		return nil
	})
	return n
}

type countWriter struct{ n int }

func (w *countWriter) Write(p []byte) (int, error) { w.n += len(p); return len(p), nil }

// attackDecoder gives broken data straight to the decoders.
func (t *T) attackDecoder() {
	r := t.R
	for k := 0; k < 15; k++ {
		i := r.Intn(14)
		m := []string{"-lh0-", "-lh1-", "-lh2-", "-lh3-", "-lh4-", "-lh5-", "-lh6-", "-lh7-", "-lzs-", "-lz5-", "-lz4-", "-lhd-", "-pm0-", "-pm2-"}[i]
		gen := m
		if m == "-lhd-" {
			gen, i = "-lh5-", 5
		}
		data, size := hostileData(r, gen)
		declared := len(data)
		switch r.Intn(5) {
		case 0:
			declared = r.Intn(len(data) + 1)
		case 1:
			declared = len(data) + r.Intn(1000)
		}
		w := &countWriter{}
		rd := bytes.NewReader(data)
		read := 0
		l := newLha("")
		l.DecodeLzhuf(rd, w, size, declared, "x", i, &read)
		if w.n > size+300 { // a match may pass the end before the error is seen
			t.Failf("too-much", "%s data of %d bytes declared to be %d gives %d bytes", m, len(data), size, w.n)
		}
		if used := len(data) - rd.Len(); used > declared {
			t.Failf("too-far", "%s decoder takes %d bytes of a member of %d", m, used, declared)
		}
		t.Add("operations", 1)
		t.Add("decoder_runs", 1)
		t.Sig("decoder/%s/%s/%v", m, sizeClass(size), w.n == size)
	}
}

// attackHeader gives broken headers to GetHeader.
func (t *T) attackHeader() {
	r := t.R
	for k := 0; k < 60; k++ {
		var b []byte
		if r.Intn(4) == 0 {
			b = make([]byte, r.Intn(400))
			r.Read(b)
			if len(b) > 20 {
				b[20] = byte(r.Intn(4))
			}
		} else {
			b = hostileHeader(r)
			if r.Intn(3) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
		}
		var rd io.Reader = bytes.NewReader(b)
		h := lha.NewLzHeader()
		err, ok := h.GetHeader(&rd)
		e := "ok"
		if err != nil {
			e = err.Error()
		}
		if ok && (h.PackedSize < 0 || h.OriginalSize < 0 || h.HeaderSize < 0) {
			t.Failf("negative", "GetHeader returns sizes %d, %d, %d", h.PackedSize, h.OriginalSize, h.HeaderSize)
		}
		t.Add("operations", 1)
		t.Add("header_runs", 1)
		t.Sig("header/%v/%s", ok, e[:min(len(e), 14)])
		var sk io.Reader = bytes.NewReader(b)
		lha.NewLzHeader().SeekLhaHeader(&sk)
	}
}
