package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C11", Level: "fault_enumeration", Quick: 48, Thorough: 1000, Run: runC11,
		Rule:   "A case is an operation (update scenarios as for C10; extraction, listing, testing, printing, decompression of generated archives) whose system calls are recorded with strace and which is run again with an error injected at its calls (every call that changes something, samples of repeated reads), once or from there on; or an operation on missing, unreadable or unwritable files; or a coder on a failing stream. Success must mean the complete result, an error must leave the archive as it was and no temporary file. Distinct: operation, call, error, outcome.",
		Assume: []string{"failures of chmod, chown and utimes are not failures of the extraction; messages to the terminal may be lost"},
		Min:    map[string]int{"closings_failed": 60, "faults": 1000, "faults_reported": 400, "scenarios": 100, "readings": 60, "denied": 300, "stream_faults": 1500, "fault_write": 50, "fault_read": 50, "fault_openat": 50}})
}

func runC11(c *Ctx) {
	for i := 0; i < 3; i++ {
		k := c.Chunk*3 + i
		c.Case("update", func(t *T) { t.faultyUpdate(t.genScenario(k)) })
	}
	for i := 0; i < 2; i++ {
		k := c.Chunk*2 + i
		c.Case("reading", func(t *T) { t.faultyReading(k) })
	}
	for i := 0; i < 2; i++ {
		c.Case("denied", func(t *T) { t.denied() })
	}
	for i := 0; i < 4; i++ {
		c.Case("streams", func(t *T) { t.faultyStreams() })
	}
}

// faultPoints picks the calls to fail: all rare ones, some of the repeated.
func (t *T) faultPoints(calls []sysCall, each int, stdout bool) []sysCall {
	total := map[string]int{}
	usable := func(c sysCall) bool {
		if c.n > 65535 { // strace counts no further
			return false
		}
		switch c.name {
		case "fcntl", "close":
			return c.name == "close"
		}
		switch c.name {
		case "write", "read", "pwrite64", "lseek", "fstat", "close":
			if fd := c.fd(); fd == 2 || fd == 0 || fd == 1 && !stdout {
				return false
			}
		}
		// refused by the system anyway
		return !strings.Contains(c.line, "= -1 ENOENT") && !strings.Contains(c.line, "(INJECTED)")
	}
	for _, c := range calls {
		if usable(c) {
			total[c.name]++
		}
	}
	if t.thorough() {
		each *= 5
	}
	var out []sysCall
	nth := map[string]int{}
	for _, c := range calls {
		if !usable(c) {
			continue
		}
		nth[c.name]++
		n := total[c.name]
		if n <= each || nth[c.name] <= 2 || nth[c.name] > n-2 || t.R.Intn(n) < each {
			out = append(out, c)
		}
	}
	return out
}

func faultErrors(r *rand.Rand, call string) string {
	e := []string{"EIO", "EACCES"}
	switch call {
	case "write", "pwrite64", "ftruncate":
		e = []string{"ENOSPC", "EIO", "EDQUOT"}
	case "openat", "open", "creat":
		e = []string{"EMFILE", "EACCES", "ENOSPC", "EIO"}
	case "read", "lseek":
		e = []string{"EIO"}
	case "renameat", "renameat2", "rename", "linkat":
		e = []string{"EXDEV", "EACCES", "ENOSPC", "EIO"}
	}
	return e[r.Intn(len(e))]
}

func (t *T) faultyUpdate(s *scenario) {
	r := t.R
	s.setup(t.Dir + "/tpl")
	w := t.Dir + "/w"
	s.q.Dir = w
	copyTree(t.Dir+"/tpl", w)
	base := t.traced(&s.q, s.where, "/dev/null")
	if !base.done || base.res.Err != "" {
		t.Failf("operation", "%s fails: %s", s.what, base.res.Err)
	}
	rmAll(w)
	t.Add("scenarios", 1)
	reported, done := 0, 0
	points := t.faultPoints(base.calls, 5, false)
	for _, p := range points {
		e := faultErrors(r, p.name)
		when := fmt.Sprint(p.n)
		if r.Intn(5) == 0 && (p.name == "write" || p.name == "read") {
			when += "+" // the disk stays full
		}
		copyTree(t.Dir+"/tpl", w)
		run := t.traced(&s.q, fmt.Sprintf("%s:error=%s:when=%s;%s", p.name, e, when, s.where), "/dev/null")
		if run.killed || !run.done || run.injected == "" {
			t.Add("missed", 1)
			rmAll(w)
			continue
		}
		at := fmt.Sprintf("%s at %s number %s: %s", e, p.name, when, run.injected)
		t.Add("faults", 1)
		t.Add("fault_"+p.name, 1)
		t.judgeUpdate(s, w, run.res.Err, at, run.injected)
		t.judgeClose(run, w, strings.Fields(s.what)[0], at)
		if run.res.Err == "" {
			done++
		} else {
			reported++
			t.Add("faults_reported", 1)
		}
		t.Sig("%s/%s/%s/%v", strings.Join(strings.Fields(s.what)[:2], " "), p.name, e, run.res.Err != "")
		rmAll(w)
	}
	if t.metrics["missed"]*4 > len(points) && len(points) > 4 {
		harnessError("strace missed %d of %d calls", t.metrics["missed"], len(points))
	}
	t.Sample(fmt.Sprintf("%s: %d faults, %d reported, %d without effect", s.what, reported+done, reported, done))
}

// judgeClose: when closing what was written fails (the quota, the server of the
// files), that may be all that tells of data lost.
func (t *T) judgeClose(run *traceRun, w, what, at string) {
	if !strings.HasPrefix(run.injected, "close(") {
		return
	}
	fd, open, wrote := run.injected[6:strings.IndexByte(run.injected, ')')], "", false
	for _, c := range run.calls {
		if c.line == run.injected {
			break
		}
		switch {
		case (c.name == "openat" || c.name == "open" || c.name == "creat") && strings.HasSuffix(c.line, "= "+fd):
			open, wrote = c.line, false
		case strings.HasPrefix(c.line, "close("+fd+")"):
			open = ""
		case c.name == "write" && strings.HasPrefix(c.line, "write("+fd+","):
			wrote = true
		}
	}
	if open == "" || !wrote || !strings.Contains(open, "O_WRONLY") && !strings.Contains(open, "O_RDWR") {
		return
	}
	t.Add("closings_failed", 1)
	if run.res.Err == "" {
		t.Failf("silent", "%s reports success though what it wrote could not be closed (%s); %s", what, open, at)
	}
}

// judgeUpdate: success is the complete result, an error does no harm.
func (t *T) judgeUpdate(s *scenario, w, errText, at, injected string) {
	st := s.state(t, w, at)
	if errText == "" {
		if st != "new" {
			t.Failf("silent", "%s reports success and leaves the old archive; %s", s.what, at)
		}
		if s.q.Move {
			for _, f := range s.sources {
				if _, err := os.Lstat(filepath.Join(w, f.path)); err == nil {
					// a directory may stay: it can be in use
					if f.kind == 'f' {
						t.Failf("silent", "%s reports success and leaves %q; %s", s.what, f.path, at)
					}
				}
			}
		}
	} else if st == "new" && !s.q.Move {
		t.Failf("late", "%s reports %q and has replaced the archive; %s", s.what, errText, at)
	}
	// nothing left beside the archive
	if strings.HasPrefix(injected, "unlinkat") || strings.HasPrefix(injected, "newfstatat") {
		return // what cannot be removed stays
	}
	for _, n := range readDirNames(w) {
		switch n {
		case "src", "bystander", "lh-own-file", s.q.Archive, s.target:
			continue
		}
		if n == s.bak && s.bak != "" {
			b, _ := os.ReadFile(filepath.Join(w, n))
			if bytes.Equal(b, s.old) || s.oldBak != nil && bytes.Equal(b, s.oldBak) {
				continue
			}
			t.Failf("backup", "the backup is neither the old one nor the old archive, %s; %s", s.what, at)
		}
		t.Failf("left", "%s (error %q) leaves %q beside the archive; %s", s.what, errText, n, at)
	}
}

var metaCalls = map[string]bool{"utimensat": true, "fchmodat": true, "fchmodat2": true, "chmod": true, "fchmod": true, "fchownat": true, "lchown": true, "fchown": true, "chown": true}

func (t *T) faultyReading(k int) {
	r := t.R
	kinds := []string{"extract", "headers", "verify", "print", "decbytes", "decompress", "list"}
	kind := kinds[k%len(kinds)]
	ms := world(r, worldOpt{n: 1 + r.Intn(4), maxBody: 2500, simple: true, unix: r.Intn(2) == 0})
	must(os.Mkdir("tpl", 0755))
	arch := rawArchive(ms, true)
	must(writeFile("tpl/a.lzh", arch))
	w := t.Dir + "/w"
	q := opReq{Kind: kind, Dir: w, Archive: "a.lzh", Force: r.Intn(2) == 0}
	if kind == "extract" && r.Intn(2) == 0 {
		q.ExtractDir = "out"
	}
	pick := ms[r.Intn(len(ms))]
	q.Name = pick.key
	copyTree("tpl", w)
	base := t.traced(&q, "", t.Dir+"/stdout")
	if !base.done || base.res.Err != "" {
		t.Failf("operation", "%s fails: %s", kind, base.res.Err)
	}
	out0 := mustRead("stdout")
	want := snapshot(w)
	rmAll(w)
	t.Add("readings", 1)
	var reported, done int
	points := t.faultPoints(base.calls, 8, kind == "print")
	for _, p := range points {
		e := faultErrors(r, p.name)
		when := fmt.Sprint(p.n)
		if r.Intn(5) == 0 && (p.name == "write" || p.name == "read") {
			when += "+"
		}
		copyTree("tpl", w)
		run := t.traced(&q, fmt.Sprintf("%s:error=%s:when=%s", p.name, e, when), t.Dir+"/stdout")
		if run.killed || !run.done || run.injected == "" {
			t.Add("missed", 1)
			rmAll(w)
			continue
		}
		at := fmt.Sprintf("%s at %s number %s: %s", e, p.name, when, run.injected)
		t.Add("faults", 1)
		t.Add("fault_"+p.name, 1)
		if b, err := os.ReadFile(w + "/a.lzh"); err != nil || !bytes.Equal(b, arch) {
			t.Failf("archive", "%s damages the archive (%v); %s", kind, err, at)
		}
		t.judgeClose(run, w, kind, at)
		if run.res.Err == "" {
			done++
			switch kind {
			case "extract", "decompress":
				now := snapshot(w)
				meta := metaCalls[p.name]
				for n, e := range want {
					g, ok := now[n]
					if meta {
						g.MTime, e.MTime, g.Mode, e.Mode = 0, 0, 0, 0
						g.UID, g.GID, e.UID, e.GID = 0, 0, 0, 0
					}
					g.Ino, e.Ino = 0, 0
					if e.Mode.IsDir() || meta {
						g.MTime, e.MTime = 0, 0
					}
					if n == "a.lzh" {
						continue
					}
					if kind == "decompress" || kind == "extract" {
						// times of files are those of the archive or, without UNIX fields, too
						if !ok || g.Sum != e.Sum || g.Size != e.Size || g.Link != e.Link || !meta && g.MTime != e.MTime && !e.Mode.IsDir() {
							t.Failf("silent", "%s reports success; %q is %v, must be %v; %s", kind, n, g, e, at)
						}
					}
				}
			case "headers":
				if !reflect.DeepEqual(run.res.Headers, base.res.Headers) {
					t.Failf("silent", "Headers reports success with %d members of %d; %s", len(run.res.Headers), len(base.res.Headers), at)
				}
			case "decbytes":
				if !bytes.Equal(run.res.Data, pick.plain) {
					t.Failf("silent", "DecompresBytes reports success with %s; %s", diffBytes(run.res.Data, pick.plain), at)
				}
			case "print", "list":
				if b := mustRead("stdout"); !bytes.Equal(b, out0) {
					t.Failf("silent", "%s reports success, the output has %s; %s", kind, diffBytes(b, out0), at)
				}
			}
		} else {
			reported++
			t.Add("faults_reported", 1)
		}
		t.Sig("%s/%s/%s/%v", kind, p.name, e, run.res.Err != "")
		rmAll(w)
	}
	if t.metrics["missed"]*4 > len(points) && len(points) > 4 {
		harnessError("strace missed %d of %d calls", t.metrics["missed"], len(points))
	}
	t.Sample(fmt.Sprintf("%s of %d members: %d faults, %d reported, %d without effect", kind, len(ms), reported+done, reported, done))
}

// denied: files that are not there or may not be used.
func (t *T) denied() {
	r := t.R
	ms := world(r, worldOpt{n: 1 + r.Intn(4), maxBody: 2000, simple: true})
	arch := rawArchive(ms, true)
	n := 0
	check := func(what string, q opReq, mustErr bool) {
		q.Dir = t.Dir
		before, _ := os.ReadFile(q.Archive)
		was := namesIn(filepath.Dir(q.Archive))
		res := doOp(&q, nil)
		resetGlobals()
		os.Chdir(t.Dir)
		n++
		t.Add("denied", 1)
		if mustErr && res.Err == "" {
			t.Failf("silent", "%s: %s reports success", what, q.Kind)
		}
		after, _ := os.ReadFile(q.Archive)
		if !bytes.Equal(before, after) {
			t.Failf("harm", "%s: %s changes the archive", what, q.Kind)
		}
		if now := namesIn(filepath.Dir(q.Archive)); len(now) != len(was) && mustErr && q.Kind != "extract" && q.Kind != "decompress" {
			t.Failf("left", "%s: %s leaves %q", what, q.Kind, now)
		}
		t.Sig("denied/%s/%s/%v", what, q.Kind, res.Err != "")
	}
	cli := func(what string, args ...string) {
		if r.Intn(4) > 0 {
			return
		}
		res := t.lharc(t.Dir, "", args...)
		t.Add("denied", 1)
		if c := res.crashed(); c != "" {
			t.Failf("crash", "%s: lharc %v: %s", what, args, c)
		}
		if res.code == 0 {
			t.Failf("silent", "%s: lharc %v exits with status 0", what, args)
		}
		t.Sig("denied-cli/%s/%s", what, args[0])
	}
	readings := []string{"extract", "headers", "verify", "print", "decbytes", "decompress", "list"}
	name := ms[0].key
	for _, k := range readings {
		check("no such archive", opReq{Kind: k, Archive: "none.lzh", Name: name}, true)
	}
	for _, a := range []string{"-l", "-lv", "-e", "-t", "-p", "-u"} {
		cli("no such archive", a, "-archive", "none.lzh")
	}
	must(writeFile("locked.lzh", arch))
	must(os.Chmod("locked.lzh", 0))
	for _, k := range readings {
		check("unreadable archive", opReq{Kind: k, Archive: "locked.lzh", Name: name}, true)
	}
	cli("unreadable archive", "-l", "-archive", "locked.lzh")
	cli("unreadable archive", "-e", "-archive", "locked.lzh")
	must(writeFile("in", []byte("input")))
	check("unreadable archive", opReq{Kind: "bytes", Archive: "locked.lzh", Name: "x", Body: []byte("x"), Method: 5, Level: 2}, true)
	check("unreadable archive", opReq{Kind: "file", Archive: "locked.lzh", Name: "in", Method: 5, Level: 2}, true)
	cli("unreadable archive", "-a", "in", "-archive", "locked.lzh")
	must(os.Mkdir("dir.lzh", 0755))
	for _, k := range readings {
		check("archive is a directory", opReq{Kind: k, Archive: "dir.lzh", Name: name}, true)
	}
	check("archive is a directory", opReq{Kind: "bytes", Archive: "dir.lzh", Name: "x", Body: []byte("x"), Method: 5, Level: 2}, true)
	// the directory of the archive cannot be written
	must(os.Mkdir("ro", 0755))
	must(writeFile("ro/a.lzh", arch))
	must(os.Chmod("ro", 0555))
	for _, a := range []string{"ro/a.lzh", "ro/new.lzh"} {
		check("directory without write permission", opReq{Kind: "bytes", Archive: a, Name: "x", Body: []byte("x"), Method: 5, Level: 2}, true)
		check("directory without write permission", opReq{Kind: "file", Archive: a, Name: "in", Method: 5, Level: 1}, true)
		check("directory without write permission", opReq{Kind: "add", Archive: a, Files: []string{"in"}, Method: 5, Level: 0, Move: true}, true)
		if _, err := os.Lstat("in"); err != nil {
			t.Failf("moved", "a file is removed though it could not be archived")
		}
		cli("directory without write permission", "-a", "in", "-archive", a)
	}
	check("no such directory", opReq{Kind: "bytes", Archive: "no/a.lzh", Name: "x", Body: []byte("x"), Method: 5, Level: 2}, true)
	check("extract without write permission", opReq{Kind: "extract", Archive: "ro/a.lzh", ExtractDir: "ro", Force: true}, true)
	os.Chdir("ro")
	q := opReq{Kind: "decompress", Archive: "a.lzh", Name: name}
	if res := doOp(&q, nil); res.Err == "" {
		t.Failf("silent", "Decompress into a directory without write permission reports success")
	}
	os.Chdir(t.Dir)
	t.Add("denied", 1)
	must(os.Chmod("ro", 0755))
	// inputs
	must(writeFile("a.lzh", arch))
	must(os.WriteFile("secret", []byte("x"), 0))
	check("unreadable input", opReq{Kind: "file", Archive: "a.lzh", Name: "secret", Method: 5, Level: 2}, true)
	check("unreadable input", opReq{Kind: "add", Archive: "a.lzh", Files: []string{"in", "secret"}, Method: 5, Level: 2, Move: true}, true)
	check("unreadable input", opReq{Kind: "add", Archive: "fresh.lzh", Files: []string{"secret", "in"}, Method: 5, Level: 2}, true)
	if _, err := os.Lstat("in"); err != nil {
		t.Failf("moved", "a file is removed though the update failed")
	}
	cli("unreadable input", "-a", "secret", "-archive", "a.lzh")
	must(os.MkdirAll("tree/closed", 0755))
	must(writeFile("tree/f", []byte("f")))
	must(writeFile("tree/closed/g", []byte("g")))
	must(os.Chmod("tree/closed", 0300))
	check("unreadable directory", opReq{Kind: "add", Archive: "a.lzh", Files: []string{"tree"}, Recursive: true, Method: 5, Level: 2}, true)
	check("unreadable directory", opReq{Kind: "add", Archive: "fresh.lzh", Files: []string{"tree/closed"}, Recursive: true, Method: 5, Level: 2}, true)
	must(os.Chmod("tree/closed", 0600))
	check("closed directory", opReq{Kind: "add", Archive: "a.lzh", Files: []string{"tree"}, Recursive: true, Method: 5, Level: 2}, true)
	check("closed directory", opReq{Kind: "file", Archive: "a.lzh", Name: "tree/closed/g", Method: 5, Level: 2}, true)
	must(os.Chmod("tree/closed", 0755))
	// what is neither file, directory nor link is refused; the pipe is held
	// open, so that opening it does not wait
	must(os.Mkdir("odd", 0755))
	must(syscall.Mkfifo("odd/pipe", 0644))
	if pipe, err := os.OpenFile("odd/pipe", os.O_RDWR, 0); err == nil {
		check("pipe", opReq{Kind: "add", Archive: "a.lzh", Files: []string{"in", "odd/pipe"}, Method: 5, Level: 2, Move: true}, true)
		check("pipe", opReq{Kind: "file", Archive: "a.lzh", Name: "odd/pipe", Method: 5, Level: 2}, true)
		check("pipe", opReq{Kind: "add", Archive: "fresh.lzh", Files: []string{"odd"}, Recursive: true, Method: 5, Level: 2, Move: true}, true)
		pipe.Close()
		for _, p := range []string{"odd/pipe", "in"} {
			if _, err := os.Lstat(p); err != nil {
				t.Failf("moved", "%s is removed though it was not archived", p)
			}
		}
	}
	check("device", opReq{Kind: "add", Archive: "a.lzh", Files: []string{"/dev/null"}, Method: 5, Level: 2}, true)
	// moved from a directory that does not allow it
	must(os.Mkdir("keep", 0755))
	must(writeFile("keep/k", []byte("k")))
	must(os.Chmod("keep", 0555))
	mq := opReq{Kind: "add", Archive: "moved.lzh", Files: []string{"keep/k"}, Method: 5, Level: 2, Move: true}
	if res := doOp(&mq, nil); res.Err == "" {
		t.Failf("silent", "a file which cannot be removed is reported as moved")
	}
	resetGlobals()
	must(os.Chmod("keep", 0755))
	// full output
	if full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		big := world(r, worldOpt{n: 1, simple: true, levels: []int{2}})
		big[0].plain = bytes.Repeat([]byte("full "), 200)
		m := simpleMember(2, "-lh0-", "f", big[0].plain, big[0].plain)
		must(writeFile("full.lzh", archiveOf(m)))
		os.Stdout = full
		check("full output", opReq{Kind: "print", Archive: "full.lzh"}, true)
		full.Close()
	}
	// a missing input (see known-findings.txt)
	gone := opReq{Kind: "file", Archive: "missing.lzh", Name: "does-not-exist", Method: 5, Level: 2}
	if res := doOp(&gone, nil); res.Err == "" {
		if b, err := os.ReadFile("missing.lzh"); err == nil && len(b) > 1 {
			t.Failf("missing-made", "archiving a file that does not exist makes a member of %d bytes", len(b))
		}
		t.Errorf("missing-input", "Compress of a file that does not exist reports success")
	}
	resetGlobals()
	t.Sample(fmt.Sprintf("%d operations on missing, closed or full files, all reported", n))
}

func namesIn(dir string) []string {
	if _, err := os.Lstat(dir); err != nil {
		return nil
	}
	return readDirNames(dir)
}

// failing streams

type failWriter struct {
	left int
	err  error
	hit  bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	w.hit = true
	return n, w.err
}

type failReader struct {
	b   []byte
	err error
	one bool
	hit bool
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		r.hit = true
		return 0, r.err
	}
	n := len(p)
	if r.one && n > 1 {
		n = 1
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	return n, nil
}

func (t *T) faultyStreams() {
	r := t.R
	boom := errors.New("boom")
	for k := 0; k < 12; k++ {
		m := encMethods[r.Intn(5)]
		b, kind := randBody(r, 40000)
		if len(b) == 0 {
			b = []byte{1}
		}
		// how much it writes
		l := newLha("")
		l.CompressMethod = m
		var out bytes.Buffer
		var wr io.Writer = &out
		var rd io.Reader = bytes.NewReader(b)
		var o, p int
		if _, err := l.EncodeLzhuf(&rd, &wr, len(b), &o, &p, []byte("x"), make([]byte, 5)); err != nil {
			t.Failf("encode", "EncodeLzhuf: %v", err)
		}
		// the writer fails
		fw := &failWriter{left: r.Intn(out.Len()), err: boom}
		wr, rd = fw, bytes.NewReader(b)
		_, err := l.EncodeLzhuf(&rd, &wr, len(b), &o, &p, []byte("x"), make([]byte, 5))
		if err == nil && fw.hit {
			t.Failf("silent", "EncodeLzhuf (method %d, %d bytes of %s) reports success though the writer failed", m, len(b), kind)
		}
		t.Add("stream_faults", 1)
		// the reader fails
		at := r.Intn(len(b) + 1)
		fr := &failReader{b: b[:at], err: boom, one: r.Intn(4) == 0}
		rd, wr = fr, io.Discard
		_, err = l.EncodeLzhuf(&rd, &wr, len(b), &o, &p, []byte("x"), make([]byte, 5))
		if err == nil && fr.hit && at < len(b) {
			t.Failf("silent", "EncodeLzhuf (method %d, %d bytes) reports success though the reader failed after %d", m, len(b), at)
		}
		t.Add("stream_faults", 1)
		t.Sig("stream/%d/%s/%s", m, kind, sizeClass(len(b)))
		// the handle is still good
		out.Reset()
		wr, rd = &out, bytes.NewReader(b)
		if _, err := l.EncodeLzhuf(&rd, &wr, len(b), &o, &p, []byte("x"), make([]byte, 5)); err != nil || p != out.Len() {
			t.Failf("after", "after a failure EncodeLzhuf gives %v and %d bytes, %d written", err, p, out.Len())
		}
	}
	for k := 0; k < 20; k++ {
		h, _ := richHeader(r, r.Intn(4), 0)
		safeBuild(&h)
		raw := h.Build()
		cut := r.Intn(len(raw))
		var rd io.Reader = &failReader{b: raw[:cut], err: boom, one: r.Intn(2) == 0}
		err, ok := lha.NewLzHeader().GetHeader(&rd)
		if ok || err == nil || err == io.EOF {
			t.Failf("silent", "GetHeader (level %d, %d of %d bytes, then a read error) gives %v, %v", h.Level, cut, len(raw), err, ok)
		}
		t.Add("stream_faults", 1)
		t.Sig("header/%d/%d", h.Level, cut*8/len(raw))
		x := lha.NewLzHeader()
		copy(x.Method, "-lh0-")
		x.Name = append([]byte(fileName(r, 40)), 0)
		x.HeaderLevel = byte(r.Intn(3))
		x.ExtendType = 'U'
		x.UnixMode = 0100644
		var sized bytes.Buffer
		var w io.Writer = &sized
		if err := lha.WriteHeader(&w, x); err != nil {
			t.Failf("write", "WriteHeader: %v", err)
		}
		fw := &failWriter{left: r.Intn(sized.Len()), err: boom}
		w = fw
		if err := lha.WriteHeader(&w, x); err == nil {
			t.Failf("silent", "WriteHeader reports success though the writer failed")
		}
		t.Add("stream_faults", 1)
	}
	t.Sample("coders and headers on failing readers and writers: every failure reported")
}

var _ = ref.CRC16
