package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C10", Level: "fault_enumeration", Quick: 56, Thorough: 1000, Run: runC10,
		Rule:   "A case is one scenario (create, add, replace, rebuild, move, backup, update of a self-extracting file; one file, several, trees, bytes; over no archive or one made by the independent packer). Its system calls are recorded with strace; then it is run again once for every call that changes the file system, killed just before it, and the directory left is judged. Distinct: scenario options, call killed at, state found (old or new).",
		Assume: []string{"a crash is the death of the process: what was handed to the operating system stays"},
		Min:    map[string]int{"scenarios": 200, "kills": 1000, "found_old": 500, "found_new": 30, "kills_rename": 40, "kills_moves": 50, "kills_backups": 50, "kills_backups_without_links": 20}})
}

// scenario is an update and what it must lead to.
type scenario struct {
	what    string
	q       opReq
	setup   func(dir string)
	old     []byte // archive before, nil when there is none
	target  string // where the new archive appears
	sfx     bool
	kept    []held
	added   []held
	sources []node // removed when moved
	bak     string
	oldBak  []byte
	where   string // what the file system cannot do, as an injection
}

func copyTree(from, to string) {
	must(os.Mkdir(to, 0755))
	var dirs []string
	filepath.Walk(from, func(p string, st os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(from, p)
		if rel == "." {
			return nil
		}
		d := filepath.Join(to, rel)
		switch {
		case st.IsDir():
			must(os.Mkdir(d, 0755))
			dirs = append(dirs, rel)
		case st.Mode()&os.ModeSymlink != 0:
			s, err := os.Readlink(p)
			must(err)
			must(os.Symlink(s, d))
			setTime(d, st.ModTime())
		default:
			var b []byte
			if st.Mode().Perm()&0400 != 0 {
				b = mustRead(p)
			}
			must(os.WriteFile(d, b, 0600))
			must(os.Chmod(d, st.Mode().Perm()))
			must(os.Chtimes(d, st.ModTime(), st.ModTime()))
		}
		return nil
	})
	for i := len(dirs) - 1; i >= 0; i-- {
		st, _ := os.Lstat(filepath.Join(from, dirs[i]))
		must(os.Chtimes(filepath.Join(to, dirs[i]), st.ModTime(), st.ModTime()))
		must(os.Chmod(filepath.Join(to, dirs[i]), st.Mode().Perm()))
	}
}

// genScenario makes an update scenario. Everything lies in dir "w".
func (t *T) genScenario(pick int) *scenario {
	r := t.R
	s := &scenario{target: "a.lzh"}
	s.q = opReq{Archive: "a.lzh", Method: encMethods[r.Intn(5)], Level: r.Intn(3), Sort: r.Intn(2) == 0, Generic: r.Intn(3) == 0}
	exists := r.Intn(4) > 0
	s.sfx = exists && r.Intn(8) == 0
	var old []*mem
	if exists {
		o := worldOpt{n: 1 + r.Intn(4), maxBody: 3000, sorted: true, simple: true}
		if s.sfx {
			o.levels = []int{0, 1, 2}
		}
		old = world(r, o)
		s.old = rawArchive(old, r.Intn(4) > 0)
	}
	s.what = "create"
	if exists {
		s.what = "add"
	}
	var files []node
	name := func() string {
		if len(old) > 0 && r.Intn(2) == 0 {
			if n := old[r.Intn(len(old))].key; !strings.Contains(n, "/") {
				return n
			}
		}
		return simpleWords[r.Intn(len(simpleWords))]
	}
	newFile := func(path string, max int) node {
		b, _ := randBody(r, max)
		return node{path: path, kind: 'f', data: b, perm: 0644, mtime: 1600000000 + int64(r.Intn(1000000))}
	}
	add := map[string]held{}
	kind := pick % 4
	switch kind {
	case 0:
		s.q.Kind = "bytes"
		s.q.Name = name()
		s.q.Body, _ = randBody(r, 12000)
		add[s.q.Name] = held{key: s.q.Name, plain: s.q.Body}
		s.what += " bytes"
	case 1:
		s.q.Kind = "file"
		n := name()
		f := newFile("src/"+n, 12000)
		files = append(files, f)
		s.q.Name = f.path
		add[n] = held{key: n, plain: f.data}
		s.what += " file"
	case 2:
		s.q.Kind = "add"
		for k := 1 + r.Intn(4); k > 0; k-- {
			n := name()
			if _, ok := add[n]; ok {
				continue
			}
			f := newFile("src/"+n, 6000)
			files = append(files, f)
			s.q.Files = append(s.q.Files, f.path)
			add[n] = held{key: n, plain: f.data}
		}
		s.what += fmt.Sprintf(" %d files", len(files))
	case 3:
		s.q.Kind = "add"
		s.q.Recursive = true
		nodes := genTree(r, treeOpt{max: 6, maxName: 12, maxPath: 80, maxBody: 3000, dirs: true})
		nodes = rooted(node{path: "tree", kind: 'd', perm: 0755, mtime: 1600000000}, nodes)
		for _, n := range nodes {
			key := n.path
			if n.kind == 'd' {
				key += "/"
			}
			add[key] = held{key: key, plain: n.data}
			n.path = "src/" + n.path
			n.perm |= 0600
			if n.kind == 'd' {
				n.perm |= 0700
			}
			files = append(files, n)
		}
		s.q.Files = []string{"src/tree"}
		s.what += fmt.Sprintf(" tree of %d", len(files))
	}
	if s.q.Kind != "bytes" && r.Intn(3) == 0 {
		s.q.Move = true
		s.sources = files
		s.what += " move"
	}
	if exists && !s.sfx && r.Intn(2) == 0 {
		s.q.Backup = true
		if r.Intn(2) == 0 {
			s.where = "linkat:error=EPERM"
		}
		s.bak = "a.lzh.bak"
		s.what += " backup"
		if r.Intn(2) == 0 {
			s.oldBak = []byte("an older backup")
			s.what += " over another"
		}
	}
	if exists && r.Intn(6) == 0 && s.q.Kind == "add" {
		s.q.NewArchive = true
		s.what += " rebuild"
	}
	if s.sfx {
		s.q.Archive = "a.exe"
		s.target = "a.exe.lzh"
		s.what += " self-extracting"
	}
	for _, m := range old {
		if _, ok := add[m.key]; !ok && !s.q.NewArchive {
			s.kept = append(s.kept, held{key: m.key, raw: m.raw, plain: m.plain})
		}
	}
	var ks []string
	for k := range add {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s.added = append(s.added, add[k])
	}
	s.setup = func(dir string) {
		must(os.Mkdir(dir, 0755))
		must(os.Mkdir(dir+"/src", 0755))
		makeTree(dir, files)
		must(writeFile(dir+"/bystander", []byte("bystander")))
		must(writeFile(dir+"/lh-own-file", []byte("not a temporary file")))
		if s.old != nil {
			must(writeFile(dir+"/"+s.q.Archive, s.old))
		}
		if s.oldBak != nil {
			must(writeFile(dir+"/"+s.bak, s.oldBak))
		}
	}
	return s
}

// isNew tells whether bytes are the complete new archive.
func (s *scenario) isNew(b []byte) string {
	ms, err := ref.ParseArchive(b)
	if err != nil {
		return err.Error()
	}
	if len(ms) != len(s.kept)+len(s.added) {
		return fmt.Sprintf("%d members instead of %d", len(ms), len(s.kept)+len(s.added))
	}
	by := map[string]*ref.Member{}
	for _, m := range ms {
		by[keyOf(m)] = m
	}
	for _, k := range s.kept {
		if m := by[k.key]; m == nil || !bytes.Equal(m.Raw, k.raw) {
			return fmt.Sprintf("%q is not the member it was", k.key)
		}
	}
	for _, a := range s.added {
		m := by[a.key]
		if m == nil {
			return fmt.Sprintf("%q is not there", a.key)
		}
		d, err := m.Unpack()
		if err != nil {
			return err.Error()
		}
		if x := diffBytes(d, a.plain); x != "" {
			return fmt.Sprintf("%q has %s", a.key, x)
		}
	}
	return ""
}

// state of the directory after the operation ended, somehow: old or new.
func (s *scenario) state(t *T, dir, when string) string {
	b, err := os.ReadFile(filepath.Join(dir, s.target))
	state := ""
	before := s.old
	if s.sfx {
		before = nil
		if p, err := os.ReadFile(filepath.Join(dir, s.q.Archive)); err != nil || !bytes.Equal(p, s.old) {
			t.Failf("program", "the self-extracting file is changed (%v), %s, %s", err, s.what, when)
		}
	}
	switch {
	case err != nil && before == nil:
		state = "old"
	case err != nil:
		t.Failf("lost", "the archive is gone: %v, %s, %s; the directory holds %q", err, s.what, when, readDirNames(dir))
	case before != nil && bytes.Equal(b, before):
		state = "old"
	default:
		if d := s.isNew(b); d != "" {
			t.Failf("mixture", "the archive (%d bytes) is neither the old one (%d bytes) nor the new one: %s, %s, %s", len(b), len(before), d, s.what, when)
		}
		state = "new"
	}
	for _, f := range s.sources {
		p := filepath.Join(dir, f.path)
		st, err := os.Lstat(p)
		if err == nil {
			if f.kind == 'f' {
				if x, err := os.ReadFile(p); err != nil || !bytes.Equal(x, f.data) {
					t.Failf("source", "%q, being moved, is damaged (%v), %s, %s", f.path, err, s.what, when)
				}
			}
			_ = st
		} else if state == "old" && f.kind == 'f' {
			t.Failf("moved", "%q is removed while the archive is still the old one, %s, %s", f.path, s.what, when)
		}
	}
	if s.bak != "" && state != "old" {
		x, err := os.ReadFile(filepath.Join(dir, s.bak))
		if err != nil || !bytes.Equal(x, s.old) {
			t.Failf("backup", "the archive is replaced and the backup is not the old archive (%v), %s, %s", err, s.what, when)
		}
	}
	for f, want := range map[string]string{"bystander": "bystander", "lh-own-file": "not a temporary file"} {
		if x, err := os.ReadFile(filepath.Join(dir, f)); err != nil || string(x) != want {
			t.Failf("bystander", "%q was damaged (%v), %s, %s", f, err, s.what, when)
		}
	}
	return state
}

func runC10(c *Ctx) {
	for i := 0; i < 5; i++ {
		k := c.Chunk*5 + i
		c.Case("scenario", func(t *T) { t.crashScenario(t.genScenario(k)) })
	}
}

func (t *T) crashScenario(s *scenario) {
	r := t.R
	s.setup(t.Dir + "/tpl")
	w := t.Dir + "/w"
	s.q.Dir = w
	copyTree(t.Dir+"/tpl", w)
	base := t.traced(&s.q, s.where, "/dev/null")
	if !base.done || base.res.Err != "" {
		t.Failf("operation", "%s fails: %s", s.what, base.res.Err)
	}
	if st := s.state(t, w, "at the end"); st != "new" {
		t.Failf("operation", "%s leaves the old archive", s.what)
	}
	if s.q.Move {
		for _, f := range s.sources {
			if _, err := os.Lstat(filepath.Join(w, f.path)); err == nil {
				t.Failf("not-moved", "%q is still there after the move, %s", f.path, s.what)
			}
		}
	}
	rmAll(w)
	t.Add("scenarios", 1)
	// the calls to be killed at
	var points []sysCall
	writes := 0
	for _, c := range base.calls {
		if c.name == "write" || c.name == "pwrite64" {
			if fd := c.fd(); fd == 1 || fd == 2 {
				continue
			}
			writes++
		}
	}
	keep := 6
	if t.thorough() {
		keep = 60
	}
	for _, c := range base.calls {
		switch {
		case c.n > 65535: // strace counts no further
		case strings.Contains(c.line, "(INJECTED)"): // done already
		case c.name == "write" || c.name == "pwrite64":
			if fd := c.fd(); fd == 1 || fd == 2 {
				continue
			}
			if r.Intn(max(writes, 1)) < keep {
				points = append(points, c)
			}
		case mutating[c.name]:
			points = append(points, c)
		case c.name == "openat" && (strings.Contains(c.line, "O_CREAT") || strings.Contains(c.line, "O_TRUNC")):
			points = append(points, c)
		}
	}
	seen := map[string]int{}
	for _, p := range points {
		copyTree(t.Dir+"/tpl", w)
		run := t.traced(&s.q, fmt.Sprintf("%s:error=EINTR:signal=KILL:when=%d;%s", p.name, p.n, s.where), "/dev/null")
		if !run.killed || run.done {
			t.Add("missed", 1)
			rmAll(w)
			continue
		}
		line := ""
		if n := len(run.calls); n > 0 {
			line = run.calls[n-1].line
		}
		st := s.state(t, w, fmt.Sprintf("killed at %s number %d: %s", p.name, p.n, line))
		t.Add("kills", 1)
		t.Add("found_"+st, 1)
		seen[st]++
		if strings.HasPrefix(p.name, "rename") {
			t.Add("kills_rename", 1)
		}
		if s.q.Move {
			t.Add("kills_moves", 1)
		}
		if s.q.Backup {
			t.Add("kills_backups", 1)
			if s.where != "" {
				t.Add("kills_backups_without_links", 1)
			}
		}
		t.Add("kill_at_"+p.name, 1)
		t.Sig("%s/%s/%s/%v%v%v%v", strings.Join(strings.Fields(s.what)[:2], " "), p.name, st, s.q.Move, s.q.Backup, s.q.NewArchive, s.sfx)
		rmAll(w)
	}
	if t.metrics["missed"]*4 > len(points) && len(points) > 4 {
		harnessError("strace missed %d of %d calls", t.metrics["missed"], len(points))
	}
	t.Sample(fmt.Sprintf("%s: %d system calls, killed at %d, found old %d times, new %d times", s.what, len(base.calls), len(points), seen["old"], seen["new"]))
}
