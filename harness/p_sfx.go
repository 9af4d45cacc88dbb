package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C20", Level: "exploration", Quick: 1200, Thorough: 20000, Run: runC20,
		Rule: "A case is an archive of all methods whose first member is of level 0, 1 or 2, behind a stub of 0 to 64 KB (random, text, zeros, with true method names in headers whose checksum, size, level or attribute is wrong, up to the very edge of the archive) in a file with a program's extension. Headers, listing, printing, testing, extraction and single members must be those put in and those of the bare archive, damage must be reported in both; updates (bytes, files, directories) must give a plain archive with the old members' bytes, the same that the bare archive gives, and leave the program as it was. Distinct: extension, size class of the stub, number of misleading signatures, level, operation.",
		Assume: []string{"a stub does not contain the bytes of a level 0 or 1 header with a right checksum, or of a level 2 one with the attribute 0x20: the search takes those for the archive, as other LHa do",
			"the first header lies within the first 64 KB"},
		Min: map[string]int{"programs": 3000, "misleading_signatures": 10000, "edge_stubs": 150, "headers_compared": 8000, "members_compared": 8000, "extractions": 1200, "listings": 1200, "updates": 1500, "damage_reported": 300, "command_runs": 60}})
}

func runC20(c *Ctx) {
	for i := 0; i < 4; i++ {
		c.Case("program", func(t *T) { t.program() })
	}
	c.Case("itself", func(t *T) { t.programItself() })
	c.Case("fresh", func(t *T) { t.freshProgram() })
}

// looksValid: a header could start there.
func looksValid(b []byte, i int) bool {
	if i+21 >= len(b) {
		return false
	}
	p := b[i:]
	if p[2] != '-' || p[3] != 'l' && p[3] != 'p' || p[6] != '-' {
		return false
	}
	switch p[20] {
	case 0, 1:
		n := int(p[0])
		if n <= 20 || n+2 > len(p) {
			return false
		}
		var sum byte
		for _, c := range p[2 : 2+n] {
			sum += c
		}
		return sum == p[1]
	case 2:
		return p[19] == 0x20
	}
	return false
}

// stub makes the program before the archive.
func stub(r *rand.Rand, arch []byte, limit int) ([]byte, int) {
	n := r.Intn(1 << uint(1+r.Intn(16)))
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = limit - r.Intn(4)
	case 2:
		n = []int{255, 256, 257, 511, 512, 4095, 4096, 4097, 8192, 16384, 32767, 32768}[r.Intn(12)]
	}
	n = min(n, limit)
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = "-lhp5- \x00\x01\x02MZ"[r.Intn(12)]
		}
	case 2:
		copy(b, "MZ this program cannot be run in DOS mode")
	case 3:
		r.Read(b)
		for i := 0; i+40 < n; i += 40 + r.Intn(200) {
			copy(b[i:], "LHA's SFX 2.13S (c) Yoshi")
		}
	}
	fakes := 0
	for k := r.Intn(12); k > 0 && n > 0; k-- {
		at := r.Intn(n)
		if r.Intn(3) == 0 {
			at = max(0, n-1-r.Intn(30)) // its end is in the archive
		}
		h := ref.Header{Level: r.Intn(4), Method: allMethods[r.Intn(len(allMethods))], Name: simplePath(r), Attr: 0x20, OS: 'U', Stamp: uint32(r.Int31()), Packed: r.Intn(100), Size: r.Intn(1000)}
		x := h.Build()
		switch r.Intn(6) {
		case 0:
			x[1]++ // checksum, or size
		case 1:
			x[20] = byte(3 + r.Intn(250))
		case 2:
			x[19] = byte(r.Intn(0x20))
		case 3:
			x[0] = byte(r.Intn(21))
		case 4:
			x[5+r.Intn(10)] ^= 0x55
		case 5:
			x = x[:7+r.Intn(min(len(x)-7, 15))]
		}
		copy(b[at:], x)
	}
	// nothing in it may be a header
	all := append(append([]byte(nil), b...), arch...)
	for again := true; again; {
		again = false
		for i := 0; i < n; i++ {
			if looksValid(all, i) {
				again = true
				j := i + r.Intn(7)
				if j >= n {
					j = i
				}
				all[j] ^= byte(1 + r.Intn(255))
			}
		}
	}
	b = all[:n]
	for i := 0; i+7 <= len(b); i++ {
		if b[i+2] == '-' && (b[i+3] == 'l' || b[i+3] == 'p') && b[i+6] == '-' {
			fakes++
		}
	}
	return b, fakes
}

// programItself: neither the program nor the archive written beside it is a
// file to add.
func (t *T) programItself() {
	r := t.R
	body, _ := randBody(r, 500)
	old := simpleMember(r.Intn(3), "-lh0-", "old", body, body).bytes()
	name := "w/" + []string{"a.exe", "b.COM", "c.x"}[r.Intn(3)]
	st := make([]byte, 1+r.Intn(3000))
	image := append(append(append([]byte(nil), st...), old...), 0)
	must(os.Mkdir("w", 0755))
	must(writeFile(name, image))
	before := r.Intn(4) > 0
	if before { // of an earlier update
		must(writeFile(name+".lzh", append(append([]byte(nil), old...), 0)))
	}
	must(writeFile("w/f", []byte("f")))
	q := opReq{Kind: "add", Archive: name, Method: 5, Level: r.Intn(3), Sort: r.Intn(2) == 0, Move: r.Intn(2) == 0}
	want := map[string]bool{"old": true, "f": true}
	if q.Recursive = r.Intn(2) == 0; q.Recursive {
		q.Files = []string{"w"}
		want = map[string]bool{"old": true, "w/f": true, "w/": true}
	} else {
		q.Files = []string{"w/f", name}
		if before {
			q.Files = append(q.Files, []string{"", "./", t.Dir + "/"}[r.Intn(3)]+name+".lzh")
		}
		r.Shuffle(len(q.Files), func(i, j int) { q.Files[i], q.Files[j] = q.Files[j], q.Files[i] })
	}
	what := fmt.Sprintf("adding %q to the program %q, %q there before: %v, recursive %v, move %v", q.Files, name, name+".lzh", before, q.Recursive, q.Move)
	if res := t.outDo(&q, nil); res.Err != "" {
		t.Failf("itself", "%s; %s", res.Err, what)
	}
	if b, err := os.ReadFile(name); err != nil || !bytes.Equal(b, image) {
		t.Failf("program", "%v, %s; %s", err, diffBytes(b, image), what)
	}
	b, err := os.ReadFile(name + ".lzh")
	if err != nil {
		t.Failf("itself", "%v; %s", err, what)
	}
	ms, err := ref.ParseArchive(b)
	if err != nil {
		t.Failf("format", "%v; %s", err, what)
	}
	for _, m := range ms {
		if !want[keyOf(m)] {
			t.Failf("itself", "%q is in the new archive; %s", keyOf(m), what)
		}
		delete(want, keyOf(m))
	}
	if len(want) > 0 {
		t.Failf("itself", "%v is not in the new archive; %s", want, what)
	}
	t.Add("programs_near_themselves", 1)
	t.Sig("itself/%v/%v/%v", before, q.Recursive, q.Move)
}

// freshProgram: an archive which is not there yet is made under the name given.
func (t *T) freshProgram() {
	r := t.R
	name := []string{"new.exe", "new.COM", "n.x", "new.lzh", "new", "new.exe.lzh", "exe"}[r.Intn(7)]
	must(writeFile("f", []byte("some content")))
	q := opReq{Kind: "add", Archive: name, Files: []string{"f"}, Method: 5, Level: r.Intn(3)}
	if r.Intn(2) == 0 {
		q = opReq{Kind: "bytes", Archive: name, Name: "f", Body: []byte("some content"), Method: encMethods[r.Intn(5)], Level: r.Intn(3)}
	}
	if res := doOp(&q, nil); res.Err != "" {
		t.Failf("fresh", "%s: making %q", res.Err, name)
	}
	for n := range snapshot(t.Dir) {
		if n != name && n != "f" && n != "." && n != "" {
			t.Failf("fresh", "making %q makes %q", name, n)
		}
	}
	b, err := os.ReadFile(name)
	if err != nil {
		t.Failf("fresh", "making %q: %v", name, err)
	}
	if ms, err := ref.ParseArchive(b); err != nil || len(ms) != 1 || ms[0].Name != "f" {
		t.Failf("fresh", "the new %q holds %d members, %v", name, len(ms), err)
	}
	if got, err := newLha(name).DecompresBytes(hdrNamed("f")); err != nil || string(got) != "some content" {
		t.Failf("fresh", "the member of the new %q is %q, %v", name, got, err)
	}
	t.Add("fresh_archives", 1)
	t.Sig("fresh/%s/%s", name, q.Kind)
}

func (t *T) program() {
	r := t.R
	// the same operations again give the same printing modes
	var ms []*mem
	for len(ms) == 0 {
		ms = world(r, worldOpt{n: 1 + r.Intn(6), maxBody: 2000, simple: true, unix: r.Intn(2) == 0, sorted: r.Intn(2) == 0})
		h := &ms[0].m.h
		if h.Level == 3 || h.Level == 2 && h.Attr != 0x20 {
			if h.Level == 3 {
				ms = nil
				continue
			}
			h.Attr = 0x20
			h.Packed, h.Size, h.CRC = len(ms[0].m.data), len(ms[0].plain), ref.CRC16(ms[0].plain)
			ms[0].raw = append(h.Build(), ms[0].m.data...)
			ms[0].want = expectHeader(h, time.Local)
		}
		if !looksValid(append(append([]byte(nil), ms[0].raw...), make([]byte, 30)...), 0) {
			ms = nil
		}
	}
	first := len(ms[0].m.h.Build())
	arch := rawArchive(ms, r.Intn(5) > 0)
	limit := 65536 - max(first, 40)
	st, fakes := stub(r, arch, limit)
	if len(st) >= limit-4 {
		t.Add("edge_stubs", 1)
	}
	ext := []string{".com", ".exe", ".x", ".COM", ".EXE", ".X", ".Com", ".eXe", ".coM"}[r.Intn(9)]
	base := []string{"a", "prog", "self.extract", "a.lzh", "日本", ""}[r.Intn(6)]
	name := base + ext
	sub := []string{"", "d/", "d.exe/"}[r.Intn(3)]
	place := func(w string) string {
		d := t.Dir + "/" + w
		must(os.MkdirAll(d+"/"+sub, 0755))
		return d
	}
	sfxDir, bareDir := place("sfx"), place("bare")
	image := append(append([]byte(nil), st...), arch...)
	bareName := sub + "b.lzh"
	name = sub + name
	must(writeFile(sfxDir+"/"+name, image))
	must(writeFile(bareDir+"/"+bareName, arch))
	what := fmt.Sprintf("%q, stub of %d bytes, %d misleading signatures, members %s, first of level %d", name, len(st), fakes, keys(ms), ms[0].m.h.Level)
	t.Add("programs", 1)
	t.Add("misleading_signatures", fakes)
	prog := snapshot(sfxDir)[name]
	untouched := func(op string) {
		if e := snapshot(sfxDir)[name]; e != prog {
			t.Failf("program", "%s: the program was %v, is %v; %s", op, prog, e, what)
		}
		if b := mustRead(sfxDir + "/" + name); !bytes.Equal(b, image) {
			t.Failf("program", "%s: the program has %s; %s", op, diffBytes(b, image), what)
		}
	}
	both := func(q opReq) (opRes, opRes) {
		must(os.Chdir(sfxDir))
		q.Archive = name
		a := t.outDo(&q, nil)
		must(os.Chdir(bareDir))
		q.Archive = bareName
		b := t.outDo(&q, nil)
		t.Sig("%s/%s/%s/%d/%d/%s", strings.ToLower(ext), q.Kind, sizeClass(len(st)), min(fakes, 5), ms[0].m.h.Level, sub)
		return a, b
	}
	// headers
	a, b := both(opReq{Kind: "headers"})
	if a.Err != "" || len(a.Headers) != len(ms) {
		t.Failf("headers", "Headers: %d members, %s; %s", len(a.Headers), a.Err, what)
	}
	if !reflect.DeepEqual(a.Headers, b.Headers) {
		t.Failf("headers", "Headers gives %v, of the bare archive %v; %s", a.Headers, b.Headers, what)
	}
	must(os.Chdir(sfxDir))
	hs, err := newLha(name).Headers()
	if err != nil {
		t.Failf("headers", "Headers: %v; %s", err, what)
	}
	for i, h := range hs {
		if d := diffHeader(h, ms[i].want); d != "" {
			t.Failf("headers", "member %d: %s; %s", i, d, what)
		}
		t.Add("headers_compared", 1)
	}
	// each member
	for _, m := range ms {
		b, err := newLha(name).DecompresBytes(hdrNamed(m.key))
		if err != nil {
			t.Failf("bytes", "DecompresBytes(%q): %v; %s", m.key, err, what)
		}
		if d := diffBytes(b, m.plain); d != "" {
			t.Failf("bytes", "DecompresBytes(%q) gives %s; %s", m.key, d, what)
		}
		t.Add("members_compared", 1)
	}
	switch r.Intn(3) {
	case 0:
		a, b := both(opReq{Kind: "list", VerboseListing: r.Intn(2) == 0, Verbose: r.Intn(2) == 0})
		if a.Err != "" || a.Out != b.Out {
			t.Failf("list", "the listing is %q (%s), of the bare archive %q; %s", clip(a.Out), a.Err, clip(b.Out), what)
		}
		t.Add("listings", 1)
	case 1:
		a, b := both(opReq{Kind: "print"})
		if a.Err != "" || a.Out != b.Out {
			t.Failf("print", "printing gives %s (%s); %s", diffBytes([]byte(a.Out), []byte(b.Out)), a.Err, what)
		}
		t.Add("listings", 1)
	case 2:
		a, b := both(opReq{Kind: "verify"})
		if a.Err != "" || b.Err != "" {
			t.Failf("verify", "the test reports %q, of the bare archive %q; %s", a.Err, b.Err, what)
		}
	}
	untouched("reading")
	if r.Intn(3) == 0 {
		a, b := both(opReq{Kind: "extract", ExtractDir: "out"})
		if a.Err != "" || b.Err != "" {
			t.Failf("extract", "extraction: %q, of the bare archive %q; %s", a.Err, b.Err, what)
		}
		t.sameTree(sfxDir+"/out", bareDir+"/out", what)
		for _, m := range ms {
			p := sfxDir + "/out/" + m.key
			os.Chmod(p, 0600)
			b, err := os.ReadFile(p)
			if err != nil || !bytes.Equal(b, m.plain) {
				t.Failf("extract", "%q: %v, %s; %s", m.key, err, diffBytes(b, m.plain), what)
			}
		}
		m := ms[r.Intn(len(ms))]
		must(os.Mkdir(sfxDir+"/single", 0755))
		must(os.Chdir(sfxDir))
		l := newLha(name)
		l.ExtractDirectory = "single"
		if err := l.Decompress(hdrNamed(m.key)); err != nil {
			t.Failf("decompress", "Decompress(%q): %v; %s", m.key, err, what)
		}
		os.Chmod("single/"+m.key, 0600)
		if b, err := os.ReadFile("single/" + m.key); err != nil || !bytes.Equal(b, m.plain) {
			t.Failf("decompress", "Decompress(%q): %v, %s; %s", m.key, err, diffBytes(b, m.plain), what)
		}
		rmAll(sfxDir + "/out")
		rmAll(bareDir + "/out")
		rmAll(sfxDir + "/single")
		t.Add("extractions", 1)
	}
	if r.Intn(40) == 0 {
		a := t.lharc(sfxDir, "", "-lv", "-archive", name)
		b := t.lharc(bareDir, "", "-lv", "-archive", bareName)
		if a.code != 0 || a.out != b.out {
			t.Failf("command", "lharc -lv: %v, prints %q, for the bare archive %q; %s", a, clip(a.out), clip(b.out), what)
		}
		t.Add("command_runs", 1)
	}
	// damage
	if r.Intn(3) == 0 {
		pos := 0
		for _, m := range ms {
			pos += len(m.raw)
			if k := m.m.h.Method; len(m.m.data) > 0 && m.want.HasCRC && (k == "-lh0-" || k == "-lz4-" || k == "-pm0-") {
				bad := append([]byte(nil), image...)
				bad[len(st)+pos-1-r.Intn(len(m.m.data))] ^= 0x10
				must(os.Chdir(t.Dir))
				must(writeFile("bad"+ext, bad))
				if _, err := newLha("bad" + ext).Headers(); err == nil {
					t.Failf("damage", "damage of %q is not noticed by Headers; %s", m.key, what)
				}
				if _, err := newLha("bad" + ext).DecompresBytes(hdrNamed(m.key)); err == nil {
					t.Failf("damage", "damage of %q is not noticed by DecompresBytes; %s", m.key, what)
				}
				t.Add("damage_reported", 1)
				break
			}
		}
	}
	// an update
	if r.Intn(2) == 0 {
		return
	}
	q := opReq{Method: encMethods[r.Intn(5)], Level: r.Intn(3), Sort: r.Intn(2) == 0}
	added := map[string][]byte{}
	put := func(n string, b []byte) {
		for _, d := range []string{sfxDir, bareDir} {
			must(writeFile(d+"/"+n, b))
			tm := time.Unix(1234567890, 0)
			must(os.Chtimes(d+"/"+n, tm, tm))
		}
		added[n] = b
	}
	pick := func() string {
		if m := ms[r.Intn(len(ms))]; r.Intn(2) == 0 && !strings.Contains(m.key, "/") {
			return m.key
		}
		return []string{"new", "aa", "zzz", "m", "A"}[r.Intn(5)]
	}
	switch r.Intn(3) {
	case 0:
		q.Kind, q.Name = "bytes", pick()
		q.Body, _ = randBody(r, 2000)
		added[q.Name] = q.Body
	case 1:
		q.Kind, q.Name = "file", pick()
		x, _ := randBody(r, 2000)
		put(q.Name, x)
	case 2:
		q.Kind = "add"
		q.Backup = r.Intn(4) == 0
		q.NewArchive = r.Intn(5) == 0
		q.Update = r.Intn(5) == 0
		for k := 1 + r.Intn(3); k > 0; k-- {
			n := pick()
			if added[n] != nil {
				continue
			}
			x, _ := randBody(r, 2000)
			if x == nil {
				x = []byte{}
			}
			put(n, x)
			q.Files = append(q.Files, n)
		}
	}
	op := fmt.Sprintf("%s of %d (sort %v, new archive %v, update %v, backup %v)", q.Kind, len(added), q.Sort, q.NewArchive, q.Update, q.Backup)
	a, b = both(q)
	if a.Err != "" || b.Err != "" {
		t.Failf("update", "%s: %q, of the bare archive %q; %s", op, a.Err, b.Err, what)
	}
	untouched(op)
	must(os.Chdir(t.Dir))
	out, err := os.ReadFile(sfxDir + "/" + name + ".lzh")
	if err != nil {
		t.Failf("update", "%s: %v; %s", op, err, what)
	}
	plain := mustRead(bareDir + "/" + bareName)
	got, perr := ref.ParseArchive(out)
	if perr != nil {
		t.Failf("format", "%s: the new archive is not valid: %v; %s", op, perr, what)
	}
	want, perr := ref.ParseArchive(plain)
	if perr != nil {
		t.Failf("format", "%s: the new bare archive is not valid: %v; %s", op, perr, what)
	}
	if len(got) != len(want) {
		t.Failf("update", "%s: %d members, from the bare archive %d; %s", op, len(got), len(want), what)
	}
	byKey := map[string]*mem{}
	for _, m := range ms {
		byKey[m.key] = m
	}
	for i, g := range got {
		k := keyOf(g)
		if k != keyOf(want[i]) {
			t.Failf("update", "%s: %q is member %d, from the bare archive %q; %s", op, k, i, keyOf(want[i]), what)
		}
		if x, ok := added[k]; ok && (byKey[k] == nil || !q.Update) {
			b, err := g.Unpack()
			if err != nil || !bytes.Equal(b, x) {
				t.Failf("update", "%s: %q: %v, %s; %s", op, k, err, diffBytes(b, x), what)
			}
		} else if !ok && (byKey[k] == nil || !bytes.Equal(g.Raw, byKey[k].raw)) {
			t.Failf("kept", "%s: %q is not as it was in the program; %s", op, k, what)
		}
		if q.Kind != "bytes" && !bytes.Equal(g.Raw, want[i].Raw) {
			t.Failf("update", "%s: %q is not as from the bare archive; %s", op, k, what)
		}
	}
	left := 0
	for n := range snapshot(sfxDir) {
		if strings.HasPrefix(n, sub) && added[n] == nil && n+"/" != sub {
			left++
		}
	}
	if most := 2 + b2i(q.Backup); left > most && sub != "" {
		t.Failf("left", "%s leaves %d files: %v; %s", op, left, readDirNames(sfxDir+"/"+sub), what)
	}
	if _, err := newLha(sfxDir + "/" + name + ".lzh").Headers(); err != nil {
		t.Failf("update", "%s: Headers of the new archive: %v; %s", op, err, what)
	}
	t.Add("updates", 1)
	t.Sample(op + "; " + what)
}

// sameTree: two directories hold the same.
func (t *T) sameTree(a, b, what string) {
	x, y := snapshot(a), snapshot(b)
	for n, e := range x {
		f, ok := y[n]
		e.Ino, f.Ino = 0, 0
		if e.Mode.IsDir() {
			e.MTime, f.MTime = 0, 0
		}
		if !ok || e != f {
			t.Failf("tree", "%q is %v, from the bare archive %v; %s", n, e, f, what)
		}
	}
	if len(x) != len(y) {
		t.Failf("tree", "%d files, from the bare archive %d; %s", len(x), len(y), what)
	}
}
