package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

var startTime = time.Now().Add(-time.Hour).UnixNano()

func init() {
	register(&Prop{ID: "C12", Level: "exploration", Quick: 40, Thorough: 1500, Run: runC12, Race: true,
		Rule:   "Built with the Go race detector. A case is either a history: up to 25 operations of all kinds, failing ones included, with new and used handles in one process, then an operation whose result, files and output must be those of the same operation in a fresh process, and which must leave the options of its handle and of the package as they were set; or a stream history: coders of different methods used in turn on one handle, against the packed bytes of a new process; or a concurrent run: 2 to 6 goroutines with their own handles and directories working at the same time, with random yields, whose results must be those of the same work done alone. Distinct: kind of operation after kind of operation, outcome; pairs of operations seen overlapping.",
		Assume: []string{"exported package variables are set before goroutines start, and goroutines have handles of their own", "EncodeLzhuf and DecodeLzhuf called directly are not archive operations: one at a time"},
		Min:    map[string]int{"histories": 400, "history_operations": 2500, "history_failures": 500, "fresh_processes": 400, "concurrent_operations": 1000, "overlaps": 300, "coder_histories": 1000}})
}

func runC12(c *Ctx) {
	for i := 0; i < 9; i++ {
		c.Case("history", func(t *T) { t.history() })
	}
	for i := 0; i < 6; i++ {
		c.Case("coders", func(t *T) { t.coderHistory() })
	}
	for i := 0; i < 6; i++ {
		c.Case("concurrent", func(t *T) { t.concurrent() })
	}
}

// playground is a directory with archives, good and bad, and files.
type playground struct {
	good  []string // archives
	keys  map[string][]string
	bad   []string
	files []string
}

func makePlayground(r *rand.Rand, dir string) *playground {
	p := &playground{keys: map[string][]string{}}
	must(os.MkdirAll(dir, 0755))
	for i := 0; i < 3; i++ {
		o := worldOpt{n: 1 + r.Intn(5), maxBody: 5000, simple: true, unix: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			o.methods = [][]string{{"-lh5-", "-lh6-", "-lh7-"}, {"-lh1-", "-lh2-", "-lh3-"}, {"-pm2-", "-lzs-", "-lz5-"}, {"-lh4-", "-lh1-"}}[r.Intn(4)]
		}
		ms := world(r, o)
		n := fmt.Sprintf("g%d.lzh", i)
		b := rawArchive(ms, true)
		must(writeFile(filepath.Join(dir, n), b))
		p.good = append(p.good, n)
		for _, m := range ms {
			p.keys[n] = append(p.keys[n], m.key)
		}
		// damaged copies
		n = fmt.Sprintf("b%d.lzh", i)
		x := append([]byte(nil), b...)
		switch r.Intn(3) {
		case 0:
			x = x[:r.Intn(len(x))]
		case 1:
			for k := 1 + r.Intn(10); k > 0; k-- {
				x[r.Intn(len(x))] ^= byte(1 << r.Intn(8))
			}
		case 2:
			o := len(ms[0].raw) - len(ms[0].m.data)
			for j := range x[o : o+len(ms[0].m.data)] {
				x[o+j] = byte(r.Intn(256))
			}
		}
		must(writeFile(filepath.Join(dir, n), x))
		p.bad = append(p.bad, n)
		p.keys[n] = p.keys[p.good[len(p.good)-1]]
	}
	// directories, some of them there already
	for i := 0; i < 2; i++ {
		var ms []*member
		level := r.Intn(4)
		add := func(name, method string, mode uint16, b []byte) {
			h := ref.Header{Level: level, Method: method, Name: name, OS: 'U', Attr: 0x20, HasMode: true, Mode: mode | 0700 | uint16(r.Intn(0100))}
			h.MTime = uint32(1500000000 + r.Intn(1e8))
			h.Stamp = ref.DosTime(time.Unix(int64(h.MTime), 0))
			if level >= 2 {
				h.Stamp = h.MTime
			}
			ms = append(ms, &member{h: h, data: b, plain: b})
		}
		for _, d := range []string{"keep/", "keep/in/", "other/"} {
			if r.Intn(3) > 0 {
				add(d, "-lhd-", 0040000, nil)
			}
			if r.Intn(2) == 0 {
				add(d+"f", "-lh0-", 0100000, []byte("a file\n"))
				p.keys[fmt.Sprintf("d%d.lzh", i)] = append(p.keys[fmt.Sprintf("d%d.lzh", i)], d+"f")
			}
		}
		n := fmt.Sprintf("d%d.lzh", i)
		must(writeFile(filepath.Join(dir, n), archiveOf(ms...)))
		p.good = append(p.good, n)
	}
	if r.Intn(2) == 0 {
		must(os.MkdirAll(filepath.Join(dir, "keep/in"), 0755))
		for _, n := range []string{"keep/in", "keep"} {
			tm := time.Unix(1450000000, 0)
			must(os.Chtimes(filepath.Join(dir, n), tm, tm))
		}
	}
	for i := 0; i < 5; i++ {
		b, _ := randBody(r, 9000)
		n := fmt.Sprintf("f%d", i)
		must(writeFile(filepath.Join(dir, n), b))
		tm := time.Unix(1500000000+int64(r.Intn(1e8)), 0)
		must(os.Chtimes(filepath.Join(dir, n), tm, tm))
		p.files = append(p.files, n)
	}
	must(os.MkdirAll(filepath.Join(dir, "t/u"), 0755))
	for _, n := range []string{"t/x", "t/u/y"} {
		b, _ := randBody(r, 3000)
		must(writeFile(filepath.Join(dir, n), b))
		tm := time.Unix(1500000000+int64(r.Intn(1e8)), 0)
		must(os.Chtimes(filepath.Join(dir, n), tm, tm))
	}
	for _, n := range []string{"t/u", "t"} {
		tm := time.Unix(1500000000, 0)
		must(os.Chtimes(filepath.Join(dir, n), tm, tm))
	}
	must(os.WriteFile(filepath.Join(dir, "closed"), nil, 0))
	// some members are there already
	for _, g := range p.good {
		for _, k := range p.keys[g] {
			f := filepath.Join(dir, k)
			if r.Intn(3) == 0 && !strings.Contains(k, "/") {
				if _, err := os.Lstat(f); err != nil {
					must(writeFile(f, []byte("in the way")))
					tm := time.Unix(1400000000, 0)
					must(os.Chtimes(f, tm, tm))
				}
			}
		}
	}
	return p
}

var opKinds = []string{"bytes", "file", "add", "add", "tree", "extract", "extract", "headers", "verify", "print", "decbytes", "decompress", "list"}

// request makes an operation in the playground. good: one that must succeed.
func (p *playground) request(r *rand.Rand, good bool) (q opReq, name string) {
	name = opKinds[r.Intn(len(opKinds))]
	q = opReq{Kind: name, Method: encMethods[r.Intn(5)], Level: r.Intn(3), Sort: r.Intn(2) == 0, Generic: r.Intn(3) == 0, Force: r.Intn(2) == 0}
	arch := p.good[r.Intn(len(p.good))]
	if !good && r.Intn(3) == 0 {
		arch = p.bad[r.Intn(len(p.bad))]
	}
	if !good && r.Intn(10) == 0 {
		arch = "none.lzh"
	}
	q.Archive = arch
	ks := p.keys[arch]
	if len(ks) == 0 {
		ks = []string{"nothing"}
	}
	q.Name = ks[r.Intn(len(ks))]
	if !good && r.Intn(6) == 0 {
		q.Name = "nothing"
	}
	if r.Intn(3) == 0 {
		q.ExtractDir = []string{"out", "out2/x"}[r.Intn(2)]
	}
	switch name {
	case "bytes":
		q.Body, _ = randBody(r, 20000)
		q.Name = simpleWords[r.Intn(len(simpleWords))]
		if r.Intn(3) == 0 {
			q.Archive = "new.lzh"
		}
	case "file":
		q.Name = p.files[r.Intn(len(p.files))]
		if r.Intn(3) == 0 {
			q.Archive = "new.lzh"
		}
		if !good && r.Intn(4) == 0 {
			q.Name = "closed"
		}
	case "add":
		for k := 1 + r.Intn(3); k > 0; k-- {
			n := p.files[r.Intn(len(p.files))]
			dup := false
			for _, f := range q.Files {
				dup = dup || f == n
			}
			if !dup {
				q.Files = append(q.Files, n)
			}
		}
		if !good && r.Intn(4) == 0 {
			q.Files = append(q.Files, "closed")
		}
		if r.Intn(3) == 0 {
			q.Archive = "new.lzh"
		}
		if r.Intn(6) == 0 { // left out
			i := r.Intn(len(q.Files) + 1)
			q.Files = append(q.Files[:i:i], append([]string{"./" + q.Archive}, q.Files[i:]...)...)
		}
		q.Backup = r.Intn(4) == 0
		q.NewArchive = r.Intn(6) == 0
		q.Update = r.Intn(6) == 0
		if r.Intn(4) == 0 {
			q.Exclude = []string{"x"}
		}
	case "tree":
		q.Kind = "add"
		q.Files = []string{"t"}
		q.Recursive = true
		q.Archive = "new.lzh"
	case "extract", "list", "verify", "print", "headers":
		if name == "extract" {
			q.Stdin = []string{"", "A\nA\n", "S\n", "N\nY\n", "Y\nY\nN\n", "N\nN\nN\n"}[r.Intn(6)]
		}
		if r.Intn(3) == 0 && len(ks) > 0 {
			q.Files = []string{ks[r.Intn(len(ks))]}
		}
		q.Ignore = name == "extract" && r.Intn(6) == 0
		q.Noexec = name == "extract" && r.Intn(8) == 0
		q.Verbose = r.Intn(3) == 0
		q.VerboseListing = r.Intn(2) == 0
	}
	return q, name
}

// outDo is doOp with what it printed.
func (t *T) outDo(q *opReq, l *lha.Lha) opRes {
	out := t.Dir + "/.stdout"
	f, err := os.Create(out)
	must(err)
	os.Stdout = f
	if q.Stdin != "" {
		in := t.Dir + "/.answers"
		must(writeFile(in, []byte(q.Stdin)))
		g, err := os.Open(in)
		must(err)
		os.Stdin = g
		defer g.Close()
	}
	res := doOp(q, l)
	os.Stdin = devNull
	os.Stdout = devNull
	f.Close()
	res.Out = string(mustRead(out))
	// as it comes from another process
	var same opRes
	b, err := json.Marshal(res)
	must(err)
	must(json.Unmarshal(b, &same))
	same.Out = res.Out
	return same
}

// describeTree is what a directory holds, times of archives made just now aside.
func describeTree(dir string, clock bool) []string {
	var out []string
	for n, e := range snapshot(dir) {
		s := fmt.Sprintf("%s: %v %s ", n, e.Mode, e.Link)
		switch {
		case strings.Contains(filepath.Base(n), ".lzh"):
			s += describeArchive(mustRead(filepath.Join(dir, n)), clock)
		case e.Mode.IsDir():
			if !clock && e.MTime < startTime {
				s += fmt.Sprintf(" at %d", e.MTime)
			}
		case e.Mode.IsRegular():
			s += fmt.Sprintf("%d %s", e.Size, e.Sum)
			if !clock && e.MTime < startTime {
				s += fmt.Sprintf(" at %d", e.MTime)
			}
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// describeArchive: clock means that its new members may have the time of the day.
func describeArchive(b []byte, clock bool) string {
	if !clock {
		return fmt.Sprintf("archive of %d bytes, sum %d %x", len(b), ref.CRC16(b), hashString(string(b)))
	}
	ms, err := ref.ParseArchive(b)
	if err != nil {
		return fmt.Sprintf("no archive (%v), sum %x", err, hashString(string(b)))
	}
	s := ""
	for _, m := range ms {
		s += fmt.Sprintf("[%q %s level %d packed %d %x size %d crc %x mode %o]", m.Name, m.Method, m.Level, len(m.Data), hashString(string(m.Data)), m.Size, m.CRC, m.Mode)
	}
	return s
}

func firstDiff(a, b []string) string {
	am := map[string]bool{}
	for _, s := range a {
		am[s] = true
	}
	bm := map[string]bool{}
	for _, s := range b {
		bm[s] = true
	}
	var out []string
	for _, s := range a {
		if !bm[s] {
			out = append(out, "- "+s)
		}
	}
	for _, s := range b {
		if !am[s] {
			out = append(out, "+ "+s)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

func (t *T) history() {
	r := t.R
	watchOptions = true
	defer func() { watchOptions = false }()
	p := makePlayground(r, t.Dir+"/tpl")
	copyTree(t.Dir+"/tpl", t.Dir+"/play")
	steps := 1 + r.Intn(25)
	var handle *lha.Lha
	owner := ""
	prev := "nothing"
	var done []string
	for s := 0; s < steps; s++ {
		q, name := p.request(r, false)
		q.Dir = t.Dir + "/play"
		must(os.Chdir(q.Dir))
		if handle == nil || r.Intn(3) == 0 {
			handle, owner = newLha(q.Archive), q.Archive
		} else if q.Kind != "add" && q.Kind != "extract" && q.Kind != "list" && q.Kind != "print" && q.Kind != "verify" {
			q.Archive = owner // the archive of the handle
		}
		owner = q.Archive
		h := handle
		res := t.outDo(&q, h)
		t.Add("history_operations", 1)
		if res.Changed != "" {
			t.Failf("options", "after %s of %s (error %q): %s", name, q.Archive, res.Err, res.Changed)
		}
		if res.Err != "" {
			t.Add("history_failures", 1)
			name += "!"
		}
		done = append(done, name)
		prev = name
	}
	must(os.Chdir(t.Dir))
	os.Stdin = devNull
	// the operation judged
	for k := 0; k < 2; k++ {
		q, name := p.request(r, r.Intn(2) == 0)
		a, b := fmt.Sprintf("%s/a%d", t.Dir, k), fmt.Sprintf("%s/b%d", t.Dir, k)
		copyTree(t.Dir+"/tpl", a)
		copyTree(t.Dir+"/tpl", b)
		q.Dir = a
		must(os.Chdir(a))
		var h *lha.Lha
		if r.Intn(3) > 0 && (q.Kind == "add" || q.Kind == "extract" || q.Kind == "list" || q.Kind == "print" || q.Kind == "verify") {
			h = handle
		}
		got := t.outDo(&q, h)
		if got.Changed != "" {
			t.Failf("options", "after %s of %s (error %q): %s", name, q.Archive, got.Err, got.Changed)
		}
		must(os.Chdir(t.Dir))
		q.Dir = b
		want := t.freshOp(&q)
		t.Add("fresh_processes", 1)
		what := fmt.Sprintf("%s of %s (method %d, level %d, sorted %v, generic %v, member %q, files %q) after %v", name, q.Archive, q.Method, q.Level, q.Sort, q.Generic, q.Name, q.Files, done)
		if (got.Err == "") != (want.Err == "") {
			t.Failf("error", "the error is %q, %q in a new process: %s", got.Err, want.Err, what)
		}
		if d := diffBytes(got.Data, want.Data); d != "" {
			t.Failf("data", "%s: %s", d, what)
		}
		if !reflect.DeepEqual(got.Headers, want.Headers) {
			t.Failf("headers", "%d headers, %d in a new process, or others: %s", len(got.Headers), len(want.Headers), what)
		}
		if q.Kind == "list" || q.Kind == "print" {
			if got.Out != want.Out {
				t.Failf("output", "printed: %s: %s", diffBytes([]byte(got.Out), []byte(want.Out)), what)
			}
		}
		clock := q.Kind == "bytes"
		if x, y := describeTree(a, clock), describeTree(b, clock); !reflect.DeepEqual(x, y) {
			t.Failf("files", "the files are not those of a new process:\n%s\n%s", firstDiff(x, y), what)
		}
		outcome := name
		if got.Err != "" {
			outcome += "!"
		}
		t.Sig("%s>%s", prev, outcome)
		t.Sample(what + ": as in a new process")
		t.Add("histories", 1)
	}
}

// coderHistory uses the coders of all methods in turn.
func (t *T) coderHistory() {
	r := t.R
	type job struct {
		m      int
		b      []byte
		packed []byte
		name   string
	}
	var jobs []job
	prev := "-"
	l := newLha("")
	lha.Quiet = true
	encode := func(l *lha.Lha, m int, b []byte, fail bool) ([]byte, string, error) {
		l.CompressMethod = m
		var out bytes.Buffer
		var w io.Writer = &out
		if fail {
			w = &failWriter{left: r.Intn(len(b) + 1), err: io.ErrShortWrite}
		}
		var rd io.Reader = bytes.NewReader(b)
		var o, p int
		name := []byte("-lh?-")
		_, err := l.EncodeLzhuf(&rd, &w, len(b), &o, &p, []byte("x"), name)
		return out.Bytes(), string(name), err
	}
	decode := func(l *lha.Lha, name string, b []byte, size int) []byte {
		var out bytes.Buffer
		n := 0
		l.DecodeLzhuf(bytes.NewReader(b), &out, size, len(b), "x", methodIndex(name), &n)
		return out.Bytes()
	}
	for k := 0; k < 4; k++ {
		m := encMethods[r.Intn(5)]
		b, _ := randBody(r, 30000)
		p, name, err := encode(newLha(""), m, b, false)
		if err != nil {
			t.Failf("encode", "EncodeLzhuf: %v", err)
		}
		jobs = append(jobs, job{m, b, append([]byte(nil), p...), name})
	}
	for k := 0; k < 16; k++ {
		j := jobs[r.Intn(len(jobs))]
		switch r.Intn(5) {
		case 0, 1: // again
			p, name, err := encode(l, j.m, j.b, false)
			if err != nil || name != j.name {
				t.Failf("encode", "EncodeLzhuf(method %d) after %s: %v, %q instead of %q", j.m, prev, err, name, j.name)
			}
			if d := diffBytes(p, j.packed); d != "" {
				t.Failf("packed", "the same content packs to %s (method %d, %d bytes, after %s)", d, j.m, len(j.b), prev)
			}
			t.Sig("enc/%s>%d", prev, j.m)
			prev = fmt.Sprint("e", j.m)
		case 2: // a failure
			encode(l, j.m, j.b, true)
			prev = fmt.Sprint("fail", j.m)
		case 3: // data of another packer
			method := allMethods[r.Intn(len(allMethods))]
			data, plain, _ := packed(r, method, bodySize(r, 8000))
			if d := diffBytes(decode(l, method, data, len(plain)), plain); d != "" {
				t.Failf("decode", "%s data decodes to %s after %s", method, d, prev)
			}
			t.Sig("dec/%s>%s", prev, method)
			prev = method
		case 4: // garbage
			method := allMethods[r.Intn(len(allMethods))]
			g := make([]byte, 1+r.Intn(500))
			r.Read(g)
			decode(l, method, g, r.Intn(5000))
			prev = "bad" + method
		}
		t.Add("coder_histories", 1)
	}
	t.Sample(fmt.Sprintf("16 uses of one handle's coders, last %s", prev))
}

func methodIndex(name string) int {
	return map[string]int{"-lh0-": lha.Lzhuff0MethodNum, "-lh1-": lha.Lzhuff1MethodNum, "-lh2-": lha.Lzhuff2MethodNum, "-lh3-": lha.Lzhuff3MethodNum, "-lh4-": lha.Lzhuff4MethodNum, "-lh5-": lha.Lzhuff5MethodNum, "-lh6-": lha.Lzhuff6MethodNum, "-lh7-": lha.Lzhuff7MethodNum, "-lzs-": lha.LarcMethodNum, "-lz5-": lha.Larc5MethodNum, "-lz4-": lha.Larc4MethodNum, "-pm0-": lha.Pmarc0MethodNum, "-pm2-": lha.Pmarc2MethodNum}[name]
}

func (t *T) concurrent() {
	r := t.R
	n := 2 + r.Intn(5)
	generic := r.Intn(3) == 0
	work := make([][]opReq, n)
	names := make([][]string, n)
	for i := range work {
		seq, par := fmt.Sprintf("%s/seq%d", t.Dir, i), fmt.Sprintf("%s/par%d", t.Dir, i)
		p := makePlayground(r, seq)
		copyTree(seq, par)
		for k := 1 + r.Intn(6); k > 0; k-- {
			q, name := p.request(r, r.Intn(3) > 0)
			if name == "verify" || name == "print" { // a package variable; one output
				continue
			}
			q.Generic = generic
			if q.ExtractDir == "" {
				q.ExtractDir = "out"
			}
			work[i] = append(work[i], q)
			names[i] = append(names[i], name)
		}
	}
	lha.GenericFormat = generic
	lha.Quiet = r.Intn(2) == 0
	// absolute names: the current directory is everyone's
	at := func(q opReq, dir string) opReq {
		abs := func(s string) string { return dir + "/" + s }
		q.Archive, q.ExtractDir = abs(q.Archive), abs(q.ExtractDir)
		if q.Kind == "add" {
			var fs []string
			for _, f := range q.Files {
				fs = append(fs, abs(f))
			}
			q.Files = fs
		}
		if q.Kind == "file" {
			q.Name = abs(q.Name)
		}
		return q
	}
	run := func(i int, dir string, yield func(int), log func(string)) []opRes {
		var out []opRes
		for k := range work[i] {
			q := at(work[i][k], dir)
			yield(k)
			log("start " + names[i][k])
			res := doOp(&q, nil)
			log("end " + names[i][k])
			out = append(out, res)
		}
		return out
	}
	want := make([][]opRes, n)
	for i := range work {
		want[i] = run(i, fmt.Sprintf("%s/seq%d", t.Dir, i), func(int) {}, func(string) {})
	}
	got := make([][]opRes, n)
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	type event struct {
		g    int
		what string
	}
	var mu sync.Mutex
	var events []event
	var wg sync.WaitGroup
	start := make(chan struct{})
	panics := make([]string, n)
	for i := range work {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 1<<14)
					panics[i] = fmt.Sprintf("%v\n%s", p, trimStack(string(buf[:runtime.Stack(buf, false)])))
				}
			}()
			rr := rand.New(rand.NewSource(seeds[i]))
			<-start
			got[i] = run(i, fmt.Sprintf("%s/par%d", t.Dir, i), func(int) {
				switch rr.Intn(3) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(rr.Intn(200)) * time.Microsecond)
				}
			}, func(s string) {
				mu.Lock()
				events = append(events, event{i, s})
				mu.Unlock()
			})
		}()
	}
	close(start)
	wg.Wait()
	for i, p := range panics {
		if p != "" {
			t.Failf("panic", "goroutine %d of %d: panic: %s", i, n, p)
		}
	}
	running := map[int]string{}
	for _, e := range events {
		kind, op, _ := strings.Cut(e.what, " ")
		if kind == "start" {
			for _, o := range running {
				t.Add("overlaps", 1)
				if o < op {
					t.Sig("with/%s/%s", o, op)
				} else {
					t.Sig("with/%s/%s", op, o)
				}
			}
			running[e.g] = op
		} else {
			delete(running, e.g)
		}
	}
	for i := range work {
		clock := false
		var ops []string
		for k, q := range work[i] {
			clock = clock || q.Kind == "bytes"
			ops = append(ops, names[i][k])
			w, g := want[i][k], got[i][k]
			what := fmt.Sprintf("goroutine %d of %d, operation %d: %s of %s, member %q", i, n, k, names[i][k], q.Archive, q.Name)
			if (w.Err == "") != (g.Err == "") {
				t.Failf("error", "the error is %q, alone it is %q: %s", g.Err, w.Err, what)
			}
			if d := diffBytes(g.Data, w.Data); d != "" {
				t.Failf("data", "%s: %s", d, what)
			}
			if clock {
				for j := range w.Headers {
					w.Headers[j].Time = 0
				}
				for j := range g.Headers {
					g.Headers[j].Time = 0
				}
			}
			if !reflect.DeepEqual(g.Headers, w.Headers) {
				t.Failf("headers", "the headers are not those read alone: %s", what)
			}
			t.Add("concurrent_operations", 1)
		}
		x := describeTree(fmt.Sprintf("%s/par%d", t.Dir, i), clock)
		y := describeTree(fmt.Sprintf("%s/seq%d", t.Dir, i), clock)
		if !reflect.DeepEqual(x, y) {
			t.Failf("files", "the files of goroutine %d of %d (%v) are not those made alone:\n%s", i, n, ops, firstDiff(x, y))
		}
	}
	t.Sample(fmt.Sprintf("%d goroutines, %d operations, %d events in the log", n, len(events)/2, len(events)))
}
