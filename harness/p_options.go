package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C19", Level: "exploration", Quick: 2000, Thorough: 20000, Run: runC19,
		Rule: "A case is an archive of the independent packer (or none) and files and trees on disk with times older than, equal to and newer than the members of the same names, updated with a random combination of dry run, exclusions, newer only, automatic update, fresh archive, move and backup, once or twice with one handle; or an archive lying among the files to add, named as one of them in any spelling, with base names that occur twice. A model gives the members that must be added and kept, the files that must be gone and the backup; the archive is read by the independent reader, the directory compared entry by entry. Distinct: combination of options, counts of added/kept/refused.",
		Min:  map[string]int{"updates": 14000, "dry_runs": 1500, "excluded": 2500, "newer_replaced": 3000, "older_kept": 700, "fresh_archives": 1200, "moved": 10000, "not_moved": 4000, "backups": 3000, "automatic": 3000, "members_kept": 20000, "updates_near_itself": 7000, "same_base_names": 5000}})
}

func runC19(c *Ctx) {
	for i := 0; i < 14; i++ {
		c.Case("options", func(t *T) { t.options() })
	}
	for i := 0; i < 4; i++ {
		c.Case("automatic", func(t *T) { t.automatic() })
		c.Case("automatic tree", func(t *T) { t.automaticTree() })
	}
	for i := 0; i < 4; i++ {
		c.Case("itself", func(t *T) { t.itself() })
	}
}

// sourceFile is a file that may be archived.
type sourceFile struct {
	path  string
	key   string
	data  []byte
	mtime int64
	dir   bool
}

func mixCase(t *T, s string) string {
	switch t.R.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

func (t *T) options() {
	r := t.R
	arch := "a.lzh"
	var old []*mem
	var oldBytes []byte
	sorted := r.Intn(2) == 0
	exists := r.Intn(5) > 0
	if exists {
		old = world(r, worldOpt{n: 1 + r.Intn(6), maxBody: 1200, simple: true, sorted: true})
		oldBytes = rawArchive(old, r.Intn(4) > 0)
		must(writeFile(arch, oldBytes))
	}
	var oldBak []byte
	if r.Intn(3) == 0 {
		oldBak = []byte("older backup")
		must(writeFile(arch+".bak", oldBak))
	}
	byKey := map[string]*mem{}
	for _, m := range old {
		byKey[m.key] = m
	}
	must(os.Mkdir("src", 0755))
	var files []sourceFile
	var args []string
	put := func(path, key string) {
		if _, err := os.Lstat(path); err == nil {
			return
		}
		b, _ := randBody(r, 1200)
		f := sourceFile{path: path, key: key, data: b, mtime: 1200000000 + int64(r.Intn(100000000))*2}
		if m := byKey[key]; m != nil {
			f.mtime = m.want.Time + int64([]int{-100000, -4, 0, 4, 100000, -2, 2}[r.Intn(7)])
			if f.mtime < 400000000 {
				f.mtime = m.want.Time
			}
		}
		must(os.WriteFile(path, b, 0644))
		tm := time.Unix(f.mtime, int64(r.Intn(2))*500000000)
		must(os.Chtimes(path, tm, tm))
		files = append(files, f)
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		n := simpleWords[r.Intn(len(simpleWords))]
		if len(old) > 0 && r.Intn(2) == 0 {
			if c := old[r.Intn(len(old))].key; !strings.Contains(c, "/") {
				n = c
			}
		}
		before := len(files)
		put("src/"+n, n)
		if len(files) > before {
			args = append(args, "src/"+n)
		}
	}
	recursive := r.Intn(3) == 0
	if recursive {
		root := []string{"d", "dir", "tree"}[r.Intn(3)]
		must(os.MkdirAll("src/"+root+"/sub", 0755))
		files = append(files, sourceFile{path: "src/" + root, key: root + "/", dir: true}, sourceFile{path: "src/" + root + "/sub", key: root + "/sub/", dir: true})
		for k := r.Intn(4); k > 0; k-- {
			n := simpleWords[r.Intn(len(simpleWords))]
			p := root + "/" + []string{"", "sub/"}[r.Intn(2)] + n
			put("src/"+p, p)
		}
		args = append(args, "src/"+root)
		for i := len(files) - 1; i >= 0; i-- { // the times of directories, last
			if files[i].dir {
				tm := time.Unix(1300000000, 0)
				must(os.Chtimes(files[i].path, tm, tm))
				files[i].mtime = 1300000000
			}
		}
	}
	must(writeFile("bystander", []byte("bystander")))
	q := opReq{Kind: "add", Dir: t.Dir, Archive: arch, Files: args, Method: encMethods[r.Intn(5)], Level: r.Intn(3), Sort: sorted, Recursive: recursive, Generic: r.Intn(3) == 0}
	q.Noexec = r.Intn(7) == 0
	q.Update = r.Intn(3) == 0
	q.NewArchive = r.Intn(7) == 0
	q.Move = r.Intn(3) == 0
	q.Backup = r.Intn(3) == 0
	for k := r.Intn(3); k > 0 && r.Intn(2) == 0; k-- {
		f := files[r.Intn(len(files))]
		switch r.Intn(5) {
		case 0:
			q.Exclude = append(q.Exclude, "nothing-like-it")
		case 1: // part of a name excludes nothing else
			b := filepath.Base(f.path)
			q.Exclude = append(q.Exclude, b[:len(b)/2]+"zzz")
		default:
			q.Exclude = append(q.Exclude, mixCase(t, filepath.Base(f.path)))
		}
	}
	excluded := func(path string) bool {
		for p := path; p != "src" && p != "."; p = filepath.Dir(p) {
			for _, x := range q.Exclude {
				if strings.EqualFold(x, filepath.Base(p)) && strings.ToUpper(x) == strings.ToUpper(filepath.Base(p)) {
					return true
				}
			}
		}
		return false
	}
	before := snapshot(t.Dir)
	res := doOp(&q, nil)
	lha.Quiet = false
	opts := fmt.Sprintf("dry %v exclude %q newer %v fresh %v move %v backup %v recursive %v sorted %v", q.Noexec, q.Exclude, q.Update, q.NewArchive, q.Move, q.Backup, recursive, sorted)
	var names []string
	for _, f := range files {
		names = append(names, f.key)
	}
	what := fmt.Sprintf("adding %q to an archive of %s, %s", names, keys(old), opts)
	if res.Err != "" {
		t.Failf("error", "%s; %s", res.Err, what)
	}
	t.Add("updates", 1)
	after := snapshot(t.Dir)
	if q.Noexec {
		if d := diffSnap(before, after, false); d != "" {
			t.Failf("dry", "%s; %s", d, what)
		}
		t.Add("dry_runs", 1)
		t.Sig("dry/%v/%v/%v/%v", q.Update, q.Move, q.Backup, exists)
		return
	}
	// the model
	want := map[string]*sourceFile{}
	kept := map[string]*mem{}
	if !q.NewArchive {
		for _, m := range old {
			kept[m.key] = m
		}
	} else {
		t.Add("fresh_archives", 1)
	}
	var archived []sourceFile
	refused := 0
	for i, f := range files {
		if excluded(f.path) {
			t.Add("excluded", 1)
			refused++
			continue
		}
		if m := kept[f.key]; m != nil && q.Update && m.want.Time >= f.mtime {
			t.Add("older_kept", 1)
			refused++
			continue
		} else if m != nil && q.Update {
			t.Add("newer_replaced", 1)
		}
		want[f.key] = &files[i]
		archived = append(archived, f)
	}
	for k := range want {
		delete(kept, k)
	}
	b, err := os.ReadFile(arch)
	if err != nil {
		if len(want)+len(kept) > 0 || exists {
			t.Failf("archive", "%v; %s", err, what)
		}
	} else {
		ms, perr := ref.ParseArchive(b)
		if perr != nil {
			t.Failf("archive", "%v; %s", perr, what)
		}
		var got []string
		for _, m := range ms {
			k := keyOf(m)
			got = append(got, k)
			switch {
			case kept[k] != nil:
				if !bytes.Equal(m.Raw, kept[k].raw) {
					t.Failf("kept", "%q is not the member it was; %s", k, what)
				}
				t.Add("members_kept", 1)
			case want[k] != nil:
				d, uerr := m.Unpack()
				if uerr != nil || !bytes.Equal(d, want[k].data) {
					t.Failf("content", "%q: %v, %s; %s", k, uerr, diffBytes(d, want[k].data), what)
				}
			default:
				t.Failf("extra", "%q is in the archive; %s", k, what)
			}
		}
		sort.Strings(got)
		for i := range got {
			if i > 0 && got[i] == got[i-1] {
				t.Failf("twice", "%q; %s", got, what)
			}
		}
		if len(got) != len(want)+len(kept) {
			t.Failf("missing", "the archive has %q; %s", got, what)
		}
	}
	// files
	gone := map[string]bool{}
	if q.Move {
		for _, f := range archived {
			if !f.dir {
				gone[f.path] = true
			}
		}
	}
	left := map[string]bool{}
	for _, f := range files {
		if !f.dir && !gone[f.path] {
			for p := filepath.Dir(f.path); p != "."; p = filepath.Dir(p) {
				left[p] = true
			}
		}
	}
	isArchivedDir := map[string]bool{}
	for _, f := range archived {
		isArchivedDir[f.path] = f.dir
	}
	// a directory stays while something is in it
	for i := len(files) - 1; i >= 0; i-- {
		f := files[i]
		if f.dir && (!q.Move || !isArchivedDir[f.path]) {
			for p := f.path; p != "."; p = filepath.Dir(p) {
				left[p] = true
			}
		}
	}
	for p, e := range before {
		a, ok := after[p]
		switch {
		case p == arch:
			continue
		case p == arch+".bak":
			continue
		case gone[p]:
			if ok {
				t.Failf("not-moved", "%q is archived and still there; %s", p, what)
			}
			t.Add("moved", 1)
			continue
		case q.Move && e.Mode.IsDir() && isArchivedDir[p] && !left[p]:
			if ok {
				t.Failf("not-moved", "the directory %q is archived, empty and still there; %s", p, what)
			}
			t.Add("moved", 1)
			continue
		}
		if e.Mode.IsDir() {
			a.MTime, e.MTime = 0, 0
		}
		if !ok || a != e {
			t.Failf("touched", "%q was %v, is %v; %s", p, e, a, what)
		}
		if q.Move && !e.Mode.IsDir() {
			t.Add("not_moved", 1)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && p != arch && p != arch+".bak" {
			t.Failf("new", "%q appears; %s", p, what)
		}
	}
	bak, berr := os.ReadFile(arch + ".bak")
	switch {
	case q.Backup && exists:
		if berr != nil || !bytes.Equal(bak, oldBytes) {
			t.Failf("backup", "%v, %s; %s", berr, diffBytes(bak, oldBytes), what)
		}
		t.Add("backups", 1)
	case oldBak != nil:
		if berr != nil || !bytes.Equal(bak, oldBak) {
			t.Failf("backup", "the older backup is changed; %s", what)
		}
	case berr == nil:
		t.Failf("backup", "there is a backup nobody asked for; %s", what)
	}
	t.Sig("%v/%v/%v/%v/%v/%d/%d/%d", q.Update, q.NewArchive, q.Move, q.Backup, exists, min(len(want), 3), min(len(kept), 3), min(refused, 2))
	t.Sample(fmt.Sprintf("%s: %d added, %d kept, %d refused", what, len(want), len(kept), refused))
}

// automaticTree: an update without names of what the library archived,
// directories included; a file may have become a link.
func (t *T) automaticTree() {
	r := t.R
	const then = 1000000000
	must(os.Mkdir("d", 0755))
	must(os.Mkdir("d/e", 0755))
	files := []string{"d/f", "d/e/g", "d/h"}
	all := append([]string{"d/e", "d"}, files...)
	for _, f := range files {
		must(writeFile(f, []byte(f)))
		must(os.Chmod(f, 0644))
	}
	stamp := func(p string, s int64) {
		tm := time.Unix(s, 0)
		must(os.Chtimes(p, tm, tm))
	}
	for _, p := range []string{"d/f", "d/e/g", "d/h", "d/e", "d"} {
		stamp(p, then)
	}
	q := opReq{Kind: "add", Archive: "a.lzh", Files: []string{"d"}, Method: 5, Level: r.Intn(3), Sort: r.Intn(2) == 0, Recursive: true}
	if res := doOp(&q, nil); res.Err != "" {
		t.Failf("error", "%s; archiving a tree", res.Err)
	}
	old, err := ref.ParseArchive(mustRead("a.lzh"))
	must(err)
	// changes
	type change struct {
		link string
		mode os.FileMode
		body string
		time int64
	}
	changed := map[string]change{} // by the name in the archive
	link := ""
	for _, f := range files {
		switch r.Intn(4) {
		case 0:
			body := f + " changed"
			must(writeFile(f, []byte(body)))
			stamp(f, then+60)
			changed[f] = change{body: body, mode: 0644, time: then + 60}
		case 1:
			if link == "" {
				link = f
				to := []string{"nowhere", "../a.lzh", "/dev/null"}[r.Intn(3)]
				must(os.Remove(f))
				must(os.Symlink(to, f))
				changed[f] = change{link: to}
			}
		case 2: // older
			must(writeFile(f, []byte(f+" older")))
			stamp(f, then-60)
		}
	}
	for _, d := range []string{"d/e", "d"} {
		if r.Intn(2) == 0 {
			must(os.Chmod(d, 0700))
			stamp(d, then+120)
			changed[d+"/"] = change{mode: 0700, time: then + 120}
		} else {
			stamp(d, then-int64(r.Intn(2)))
		}
	}
	before := snapshot(t.Dir)
	what := fmt.Sprintf("automatic update after changes of %v, level %d", changed, q.Level)
	q.Files, q.Recursive, q.Update = nil, r.Intn(2) == 0, true
	res := doOp(&q, nil)
	if res.Err != "" {
		t.Failf("error", "%s; %s", res.Err, what)
	}
	ms, err := ref.ParseArchive(mustRead("a.lzh"))
	if err != nil {
		t.Failf("archive", "%v; %s", err, what)
	}
	if len(ms) != len(old) {
		t.Failf("members", "%d members of %d; %s", len(ms), len(old), what)
	}
	for i, m := range ms {
		k := keyOf(m)
		if k != keyOf(old[i]) {
			t.Failf("order", "member %d is %q, was %q; %s", i, k, keyOf(old[i]), what)
		}
		c, ok := changed[k]
		if !ok {
			if !bytes.Equal(m.Raw, old[i].Raw) {
				t.Failf("kept", "%q is not the member it was; %s", k, what)
			}
			continue
		}
		if c.link != "" {
			if m.Name != k+"|"+c.link || m.Mode&0170000 != 0120000 {
				t.Failf("link", "%q is %q with mode %o; %s", k, m.Name, m.Mode, what)
			}
			t.Add("automatic_links", 1)
			continue
		}
		mt := int64(m.MTime)
		if m.Level == 2 {
			mt = int64(m.Stamp)
		}
		if mt != c.time || os.FileMode(m.Mode).Perm() != c.mode {
			t.Failf("entry", "%q has time %d and mode %o; %s", k, mt, m.Mode, what)
		}
		if b, err := m.Unpack(); !strings.HasSuffix(k, "/") && (err != nil || string(b) != c.body) {
			t.Failf("content", "%q: %v, %q; %s", k, err, b, what)
		}
		t.Add("automatic_entries", 1)
	}
	after := snapshot(t.Dir)
	delete(before, "a.lzh")
	delete(after, "a.lzh")
	if d := diffSnap(before, after, false); d != "" {
		t.Failf("touched", "%s; %s", d, what)
	}
	_ = all
	t.Sig("auto tree/%d/%d/%v", q.Level, len(changed), link != "")
}

// automatic: update without names.
func (t *T) automatic() {
	r := t.R
	old := world(r, worldOpt{n: 1 + r.Intn(7), maxBody: 1000, simple: true, sorted: true})
	endMark := r.Intn(4) > 0
	oldBytes := rawArchive(old, endMark)
	must(writeFile("a.lzh", oldBytes))
	want := map[string][]byte{}
	newer := 0
	for _, m := range old {
		if r.Intn(4) == 0 {
			continue // not on disk
		}
		must(os.MkdirAll(filepath.Dir(m.key), 0755))
		b, _ := randBody(r, 1000)
		must(os.WriteFile(m.key, b, 0644))
		d := int64([]int{-100000, -4, 0, 4, 100000, 2}[r.Intn(6)])
		tm := time.Unix(m.want.Time+d, 0)
		must(os.Chtimes(m.key, tm, tm))
		if d > 0 {
			want[m.key] = b
			newer++
		}
	}
	// others are not archived
	must(writeFile("other-file", []byte("other")))
	q := opReq{Kind: "add", Dir: t.Dir, Archive: "a.lzh", Update: true, Method: encMethods[r.Intn(5)], Level: r.Intn(3), Sort: r.Intn(2) == 0, Generic: r.Intn(3) == 0, Move: r.Intn(5) == 0, Backup: r.Intn(4) == 0, Noexec: r.Intn(6) == 0}
	before := snapshot(t.Dir)
	what := fmt.Sprintf("automatic update of %s, %d newer files, move %v backup %v dry %v sorted %v", keys(old), newer, q.Move, q.Backup, q.Noexec, q.Sort)
	how := "library"
	if r.Intn(8) == 0 && !q.Backup {
		how = "lharc"
		args := []string{"-u", "-archive", "a.lzh"}
		if q.Noexec {
			args = append(args, "-n")
		}
		if q.Move {
			args = append(args, "-m")
		}
		if res := t.lharc(t.Dir, "", args...); res.code != 0 {
			t.Failf("error", "lharc %q: %v; %s", args, res, what)
		}
	} else if res := doOp(&q, nil); res.Err != "" {
		t.Failf("error", "%s; %s", res.Err, what)
	}
	t.Add("automatic", 1)
	after := snapshot(t.Dir)
	if q.Noexec {
		if d := diffSnap(before, after, false); d != "" {
			t.Failf("dry", "%s; %s", d, what)
		}
		return
	}
	nb := mustRead("a.lzh")
	if newer == 0 && !endMark && bytes.Equal(nb, oldBytes) {
		nb = append(nb[:len(nb):len(nb)], 0) // nothing to do: also fine without the end mark it never had
	}
	ms, err := ref.ParseArchive(nb)
	if err != nil {
		t.Failf("archive", "%v; %s", err, what)
	}
	seen := map[string]bool{}
	for _, m := range ms {
		k := keyOf(m)
		var o *mem
		for _, x := range old {
			if x.key == k {
				o = x
			}
		}
		if o == nil || seen[k] {
			t.Failf("extra", "%q is in the archive, or twice; %s", k, what)
		}
		seen[k] = true
		if b, ok := want[k]; ok {
			d, uerr := m.Unpack()
			if uerr != nil || !bytes.Equal(d, b) {
				t.Failf("content", "%q: %v, %s; %s", k, uerr, diffBytes(d, b), what)
			}
			t.Add("newer_replaced", 1)
		} else if !bytes.Equal(m.Raw, o.raw) {
			t.Failf("kept", "%q is not the member it was; %s", k, what)
		} else {
			t.Add("members_kept", 1)
		}
	}
	if len(seen) != len(old) {
		t.Failf("missing", "%d members of %d; %s", len(seen), len(old), what)
	}
	for p, e := range before {
		if strings.HasPrefix(p, "a.lzh") {
			continue
		}
		a, ok := after[p]
		if _, w := want[p]; w && q.Move {
			if ok {
				t.Failf("not-moved", "%q is archived and still there; %s", p, what)
			}
			t.Add("moved", 1)
			continue
		}
		if e.Mode.IsDir() {
			a.MTime, e.MTime = 0, 0
		}
		if !ok || a != e {
			t.Failf("touched", "%q was %v, is %v; %s", p, e, a, what)
		}
	}
	if q.Backup && newer > 0 {
		if b, err := os.ReadFile("a.lzh.bak"); err != nil || !bytes.Equal(b, oldBytes) {
			t.Failf("backup", "%v, %s; %s", err, diffBytes(b, oldBytes), what)
		}
		t.Add("backups", 1)
	}
	for p := range after {
		if _, ok := before[p]; !ok && p != "a.lzh.bak" {
			t.Failf("new", "%q appears; %s", p, what)
		}
	}
	t.Sig("auto/%s/%d/%d/%v/%v", how, min(newer, 3), min(len(old), 4), q.Move, q.Backup)
	t.Sample(what)
}

// itself: the archive lies among the files to archive, or is named as one of
// them in another spelling, and files of one base name come from two places.
// It is never added to itself, never removed, and only the files whose content
// is in the archive are moved.
func (t *T) itself() {
	r := t.R
	base := []string{"a.lzh", "self", "m.LZH", "z"}[r.Intn(4)]
	must(os.MkdirAll("w/d/sub", 0755))
	must(os.MkdirAll("w/e", 0755))
	must(os.Symlink("w/d", "ln"))
	arch := "w/d/" + base
	spell := func(p string) string {
		switch r.Intn(6) {
		case 0:
			return "./" + p
		case 1:
			return filepath.Join(t.Dir, p)
		case 2:
			return "w/e/../../" + p
		case 3:
			return strings.Replace(p, "/", "//", 1)
		case 4:
			if strings.HasPrefix(p, "w/d/") {
				return "ln/" + p[4:]
			}
		}
		return p
	}
	var old []*mem
	var oldBytes []byte
	exists := r.Intn(4) > 0
	if exists {
		old = world(r, worldOpt{n: 1 + r.Intn(4), maxBody: 600, simple: true, sorted: true})
		oldBytes = rawArchive(old, r.Intn(4) > 0)
		must(writeFile(arch, oldBytes))
	}
	q := opReq{Kind: "add", Dir: t.Dir, Archive: spell(arch), Method: encMethods[r.Intn(5)], Level: r.Intn(3), Sort: r.Intn(2) == 0, Generic: r.Intn(3) == 0}
	q.Move = r.Intn(3) > 0
	q.Backup = r.Intn(4) == 0
	want := map[string]string{} // name in the archive -> file
	data := map[string][]byte{}
	put := func(path, key string) {
		if _, err := os.Lstat(path); err == nil || path == arch {
			return
		}
		b, _ := randBody(r, 600)
		must(os.WriteFile(path, b, 0644))
		data[path] = b
		if key != "" {
			want[key] = path
		}
	}
	name := func() string {
		for {
			if n := simpleWords[r.Intn(len(simpleWords))]; n != base && n != "sub" && n != base+".bak" {
				return n
			}
		}
	}
	collided := 0
	if q.Recursive = r.Intn(2) == 0; q.Recursive {
		for k := 1 + r.Intn(3); k > 0; k-- {
			n := name()
			put("w/d/"+n, "d/"+n)
		}
		n := name()
		put("w/d/sub/"+n, "d/sub/"+n)
		want["d/"], want["d/sub/"] = "", ""
		if r.Intn(2) == 0 { // an earlier backup
			put(arch+".bak", "d/"+base+".bak")
		}
		q.Files = append(q.Files, []string{"w/d", "./w/d", "w/d/", t.Dir + "/w/d"}[r.Intn(4)])
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		n := name()
		p := "w/e/" + n
		if data[p] != nil {
			continue
		}
		put(p, n)
		q.Files = append(q.Files, spell(p))
		if r.Intn(2) == 0 { // the same base name from elsewhere: the last one counts
			p = n
			if data[p] == nil {
				put(p, n)
				q.Files = append(q.Files, p)
				collided++
			}
		}
	}
	named := !q.Recursive || r.Intn(2) == 0
	if named && exists {
		i := r.Intn(len(q.Files) + 1)
		q.Files = append(q.Files[:i:i], append([]string{spell(arch)}, q.Files[i:]...)...)
	}
	before := snapshot(t.Dir)
	res := doOp(&q, nil)
	lha.Quiet = false
	what := fmt.Sprintf("adding %q to %q (existing %v), recursive %v move %v", q.Files, q.Archive, exists, q.Recursive, q.Move)
	if res.Err != "" {
		t.Failf("error", "%s; %s", res.Err, what)
	}
	t.Add("updates_near_itself", 1)
	b, err := os.ReadFile(arch)
	if err != nil {
		t.Failf("archive-gone", "%v; %s", err, what)
	}
	ms, perr := ref.ParseArchive(b)
	if perr != nil {
		t.Failf("archive", "%v; %s", perr, what)
	}
	kept := map[string]*mem{}
	for _, m := range old {
		if _, ok := want[m.key]; !ok {
			kept[m.key] = m
		}
	}
	seen := map[string]bool{}
	for _, m := range ms {
		k := keyOf(m)
		if seen[k] {
			t.Failf("twice", "%q; %s", k, what)
		}
		seen[k] = true
		path, ok := want[k]
		switch {
		case kept[k] != nil:
			if !bytes.Equal(m.Raw, kept[k].raw) {
				t.Failf("kept", "%q is not the member it was; %s", k, what)
			}
		case ok:
			if d, uerr := m.Unpack(); uerr != nil || !bytes.Equal(d, data[path]) {
				t.Failf("content", "%q: %v, %s; %s", k, uerr, diffBytes(d, data[path]), what)
			}
		default:
			t.Failf("extra", "%q is in the archive; %s", k, what)
		}
	}
	if len(seen) != len(want)+len(kept) {
		t.Failf("missing", "the archive has %d members, not %d; %s", len(seen), len(want)+len(kept), what)
	}
	gone := map[string]bool{}
	if q.Move {
		for _, p := range want {
			gone[p] = true
		}
	}
	after := snapshot(t.Dir)
	if q.Backup && exists {
		b, err := os.ReadFile(arch + ".bak")
		if err != nil || !bytes.Equal(b, oldBytes) {
			t.Failf("backup", "the backup is not the old archive: %v %s; %s", err, diffBytes(b, oldBytes), what)
		}
		delete(data, arch+".bak")
		t.Add("backups", 1)
	}
	for p := range data {
		_, ok := after[p]
		if ok == gone[p] {
			t.Failf("moved", "%q: archived and moved %v, there %v; %s", p, gone[p], ok, what)
		}
		if ok && after[p] != before[p] {
			t.Failf("touched", "%q was %v, is %v; %s", p, before[p], after[p], what)
		}
	}
	t.Add("same_base_names", collided)
	t.Sig("itself/%v/%v/%v/%v/%d", exists, q.Recursive, q.Move, named, collided)
}
