package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C09", Level: "exploration", Quick: 700, Thorough: 8000, Run: runC09,
		Rule: "A case is a history of up to ten updates (bytes, a file, several files, directory trees; sorted or not; new or used handle; a failing one now and then) of an archive that starts empty or was made by the independent packer in all methods and levels, with or without its end mark. After each step the archive is parsed by the independent reader: names once each, kept members' bytes (header and data) and order, updated contents, place of new members, one end mark; the library's own listing must agree. Distinct: operation, sorted, members kept/replaced/new, origin, levels.",
		Min:  map[string]int{"updates": 12000, "members_kept_compared": 60000, "members_replaced": 5000, "members_new": 15000, "foreign_archives": 1500, "without_end_mark": 400, "permissions_compared": 8000, "updates_of_duplicates": 1000}})
}

type held struct {
	key   string
	raw   []byte // nil when just written
	plain []byte
	kind  string
}

func runC09(c *Ctx) {
	for i := 0; i < 14; i++ {
		c.Case("history", func(t *T) { t.updateHistory() })
	}
	if c.Chunk%40 == 3 {
		c.Case("large", func(t *T) { t.largeUpdate(c.Chunk%80 == 3) })
	}
	c.Case("duplicates", func(t *T) {
		for k := 0; k < 3; k++ {
			t.updateDuplicates()
		}
	})
}

// updateDuplicates: an archive from elsewhere holds names more than once. Those
// updated are there once afterwards, the others as they were.
func (t *T) updateDuplicates() {
	r := t.R
	names := []string{"a", "b", "c", "d", "e"}[:2+r.Intn(4)]
	var old []held
	var b []byte
	for i := 2 + r.Intn(7); i > 0; i-- {
		n := names[r.Intn(len(names))]
		body, _ := randBody(r, 300)
		raw := simpleMember(r.Intn(4), "-lh0-", n, body, body).bytes()
		old = append(old, held{key: n, raw: raw, plain: body})
		b = append(b, raw...)
	}
	must(writeFile("dup.lzh", append(b, 0)))
	l := newLha("dup.lzh")
	l.SortContents = r.Intn(2) == 0
	l.CompressMethod, l.HeaderLevel = encMethods[r.Intn(5)], r.Intn(3)
	rmAll("dup")
	must(os.Mkdir("dup", 0755))
	added := map[string][]byte{}
	for _, i := range r.Perm(len(names))[:1+r.Intn(len(names))] {
		body, _ := randBody(r, 300)
		must(writeFile("dup/"+names[i], body))
		added[names[i]] = body
		l.CmdFilev = append(l.CmdFilev, "dup/"+names[i])
	}
	l.CmdFilec = len(l.CmdFilev)
	var was []string
	for _, o := range old {
		was = append(was, o.key)
	}
	what := fmt.Sprintf("adding %q, sorted %v, to an archive of %q", l.CmdFilev, l.SortContents, was)
	if err := lha.CommandAdd("dup.lzh", l); err != nil {
		t.Failf("update", "%v; %s", err, what)
	}
	ms, err := ref.ParseArchive(mustRead("dup.lzh"))
	if err != nil {
		t.Failf("format", "%v; %s", err, what)
	}
	var kept []held
	for _, o := range old {
		if added[o.key] == nil {
			kept = append(kept, o)
		}
	}
	count := map[string]int{}
	for _, m := range ms {
		k := keyOf(m)
		if added[k] == nil {
			if len(kept) == 0 || !bytes.Equal(kept[0].raw, m.Raw) {
				t.Failf("touched", "%q is not the member that was there; %s", k, what)
			}
			kept = kept[1:]
			continue
		}
		if count[k]++; count[k] > 1 {
			t.Failf("twice", "%q is in the archive twice; %s", k, what)
		}
		if d, uerr := m.Unpack(); uerr != nil || !bytes.Equal(d, added[k]) {
			t.Failf("content", "%q: %v %s; %s", k, uerr, diffBytes(d, added[k]), what)
		}
	}
	if len(kept) > 0 || len(count) != len(added) {
		t.Failf("lost", "%d members are lost, %d of %d added; %s", len(kept), len(count), len(added), what)
	}
	t.Add("updates_of_duplicates", 1)
	t.Sig("duplicates/%v/%d/%d", l.SortContents, len(old), len(added))
}

func (t *T) updateHistory() {
	r := t.R
	var model []held
	arch := t.Dir + "/a.lzh"
	origin := "none"
	isSorted := true
	if r.Intn(3) > 0 {
		origin = "foreign"
		ms := world(r, worldOpt{n: 1 + r.Intn(7), sorted: r.Intn(2) == 0, simple: r.Intn(2) == 0})
		end := r.Intn(3) > 0
		must(writeFile(arch, rawArchive(ms, end)))
		for _, m := range ms {
			model = append(model, held{key: m.key, raw: m.raw, plain: m.plain, kind: m.kind})
		}
		t.Add("foreign_archives", 1)
		if !end {
			t.Add("without_end_mark", 1)
			origin = "foreign, no end mark"
		}
		isSorted = sort.SliceIsSorted(ms, func(i, j int) bool { return ms[i].key < ms[j].key })
	}
	lha.GenericFormat = r.Intn(3) == 0
	var l *lha.Lha
	steps := 1 + r.Intn(8)
	for s := 0; s < steps; s++ {
		if l == nil || r.Intn(2) == 0 {
			l = newLha(arch)
		}
		l.SortContents = r.Intn(2) == 0
		method, level := encMethods[r.Intn(5)], r.Intn(3)
		pickName := func() string {
			if len(model) > 0 && r.Intn(3) > 0 {
				for k := 0; k < 10; k++ {
					n := model[r.Intn(len(model))].key
					if !strings.Contains(n, "/") && n != "" && n != "." && n != ".." && len(n) < 200 && !strings.ContainsRune(n, 0) {
						return n
					}
				}
			}
			if r.Intn(2) == 0 {
				return simpleWords[r.Intn(len(simpleWords))]
			}
			return fileName(r, 40)
		}
		old := model
		added := map[string]held{}
		var order []string
		put := func(h held) {
			if _, ok := added[h.key]; !ok {
				order = append(order, h.key)
			}
			added[h.key] = h
		}
		var err error
		op := ""
		fail := false
		before, _ := os.ReadFile(arch)
		os.Chdir(t.Dir)
		perm := os.FileMode(0)
		if _, e := os.Stat(arch); e == nil {
			perm = 0400 | os.FileMode(r.Intn(01000))
			must(os.Chmod(arch, perm))
		}
		src := fmt.Sprintf("s%d", s)
		must(os.Mkdir(src, 0755))
		switch r.Intn(6) {
		case 0, 1:
			op = "CompressBytes"
			n := pickName()
			b, _ := randBody(r, 6000)
			put(held{key: n, plain: b, kind: "file"})
			err = l.CompressBytes([]string{"", "x/", "/no/where/"}[r.Intn(3)]+n, b, method, level)
		case 2:
			op = "Compress"
			n := pickName()
			b, _ := randBody(r, 6000)
			must(writeFile(filepath.Join(src, n), b))
			put(held{key: n, plain: b, kind: "file"})
			err = l.Compress(filepath.Join(src, n), method, level)
		case 3, 4:
			op = "CommandAdd"
			l.HeaderLevel, l.CompressMethod = level, method
			l.CmdFilev = nil
			count, most := 1+r.Intn(5), 3000
			if r.Intn(10) == 0 {
				count, most = 15+r.Intn(20), 200
			}
			for k := count; k > 0; k-- {
				n := pickName()
				b, _ := randBody(r, most)
				p := filepath.Join(src, n)
				if _, e := os.Lstat(p); e == nil {
					continue
				}
				must(writeFile(p, b))
				put(held{key: n, plain: b, kind: "file"})
				l.CmdFilev = append(l.CmdFilev, p)
			}
			if r.Intn(8) == 0 {
				fail = true
				must(os.WriteFile(src+"/locked", []byte("x"), 0))
				l.CmdFilev = append(l.CmdFilev, src+"/locked")
			}
			l.CmdFilec = len(l.CmdFilev)
			err = lha.CommandAdd(arch, l)
			l.CmdFilev, l.CmdFilec = nil, 0
		case 5:
			op = "recursive"
			l.HeaderLevel, l.CompressMethod, l.RecursiveArchiving = level, method, true
			nodes := genTree(r, treeOpt{max: 8, maxName: 20, maxPath: 100, maxBody: 2000, dirs: true})
			root := []string{"tree", "d", "dir"}[r.Intn(3)]
			nodes = rooted(node{path: root, kind: 'd', perm: 0755, mtime: 1234567890}, nodes)
			makeTree(src, nodes)
			for _, n := range nodes {
				h := held{key: n.path, plain: n.data, kind: "file"}
				if n.kind == 'd' {
					h = held{key: n.path + "/", kind: "dir"}
				}
				put(h)
			}
			l.CmdFilev, l.CmdFilec = []string{src + "/" + root}, 1
			err = lha.CommandAdd(arch, l)
			l.CmdFilev, l.CmdFilec, l.RecursiveArchiving = nil, 0, false
		}
		what := fmt.Sprintf("step %d: %s of %q, sorted %v, method %d level %d, archive (%s) of %d", s, op, order, l.SortContents, method, level, origin, len(old))
		if st, e := os.Stat(arch); e == nil && perm != 0 {
			if st.Mode().Perm() != perm {
				t.Failf("mode", "the archive had the permissions %o, has %o; %s", perm, st.Mode().Perm(), what)
			}
			t.Add("permissions_compared", 1)
		}
		after, rerr := os.ReadFile(arch)
		if fail {
			if err == nil {
				t.Failf("error", "an unreadable file is no error; %s", what)
			}
			if !bytes.Equal(before, after) {
				t.Failf("harm", "a failed update changes the archive; %s", what)
			}
			t.Add("failed_updates", 1)
			continue
		}
		if err != nil {
			t.Failf("update", "%v; %s", err, what)
		}
		if rerr != nil {
			t.Failf("gone", "%v; %s", rerr, what)
		}
		ms, perr := ref.ParseArchive(after)
		if perr != nil {
			t.Failf("format", "the archive is no longer valid: %v; %s", perr, what)
		}
		// who is there
		var got []string
		seen := map[string]*ref.Member{}
		for _, m := range ms {
			k := keyOf(m)
			if seen[k] != nil {
				t.Failf("twice", "%q is in the archive twice; %s", k, what)
			}
			seen[k] = m
			got = append(got, k)
		}
		var kept []string
		newModel := map[string]held{}
		for _, o := range old {
			m := seen[o.key]
			if m == nil {
				t.Failf("lost", "%q is no longer in the archive; %s", o.key, what)
			}
			if _, ok := added[o.key]; ok {
				t.Add("members_replaced", 1)
				continue
			}
			if !bytes.Equal(m.Raw, o.raw) {
				t.Failf("touched", "%q, which was not named, is changed: %s; %s", o.key, diffBytes(m.Raw, o.raw), what)
			}
			t.Add("members_kept_compared", 1)
			kept = append(kept, o.key)
			newModel[o.key] = o
		}
		oldKeys := map[string]bool{}
		for _, o := range old {
			oldKeys[o.key] = true
		}
		nnew := 0
		for _, k := range order {
			a := added[k]
			m := seen[k]
			if m == nil {
				t.Failf("not-added", "%q was not added; %s", k, what)
			}
			b, uerr := m.Unpack()
			if uerr != nil {
				t.Failf("content", "%v; %s", uerr, what)
			}
			if d := diffBytes(b, a.plain); d != "" {
				t.Failf("content", "%q has %s; %s", k, d, what)
			}
			a.raw = m.Raw
			newModel[k] = a
			if !oldKeys[k] {
				nnew++
			}
		}
		t.Add("members_new", nnew)
		if len(got) != len(newModel) {
			t.Failf("extra", "members are %q; %s", got, what)
		}
		// their order
		var gotKept []string
		lastKept, firstNew := -1, -1
		for i, k := range got {
			if _, ok := added[k]; !ok {
				gotKept = append(gotKept, k)
				lastKept = i
			} else if !oldKeys[k] && firstNew < 0 {
				firstNew = i
			}
		}
		if strings.Join(gotKept, "\x00") != strings.Join(kept, "\x00") {
			t.Failf("order", "the members kept were in order %q, are in %q; %s", kept, gotKept, what)
		}
		if !l.SortContents && firstNew >= 0 && firstNew < lastKept {
			t.Failf("place", "a new member is before an old one: %q; %s", got, what)
		}
		if !l.SortContents && op == "CommandAdd" {
			var given, found []string
			for _, k := range order {
				if !oldKeys[k] {
					given = append(given, k)
				}
			}
			for _, k := range got {
				if _, ok := added[k]; ok && !oldKeys[k] {
					found = append(found, k)
				}
			}
			if strings.Join(given, "\x00") != strings.Join(found, "\x00") {
				t.Failf("place", "new members given in order %q are in order %q; %s", given, found, what)
			}
		}
		if l.SortContents && isSorted && !sort.StringsAreSorted(got) {
			t.Failf("sort", "the members are not in the order of names: %q; %s", got, what)
		}
		isSorted = sort.StringsAreSorted(got)
		model = nil
		for _, k := range got {
			model = append(model, newModel[k])
		}
		t.Add("updates", 1)
		t.Sig("%s/%v/%d/%d/%d/%s/%d", op, l.SortContents, min(len(kept), 5), min(len(order)-nnew, 3), min(nnew, 4), origin, level)
		// the library's own view
		hs, herr := newLha(arch).Headers()
		if herr != nil {
			t.Failf("list", "Headers: %v; %s", herr, what)
		}
		for i, h := range hs {
			if i >= len(got) || cstr(h.Name) != got[i] {
				t.Failf("list", "Headers gives %q at %d of %q; %s", cstr(h.Name), i, got, what)
			}
		}
		if len(hs) != len(got) {
			t.Failf("list", "Headers gives %d members of %d; %s", len(hs), len(got), what)
		}
		if k := model[r.Intn(len(model))]; k.kind == "file" {
			b, derr := newLha(arch).DecompresBytes(hdrNamed(k.key))
			if derr != nil {
				t.Failf("read", "DecompresBytes(%q): %v; %s", k.key, derr, what)
			}
			if d := diffBytes(b, k.plain); d != "" {
				t.Failf("read", "DecompresBytes(%q) gives %s; %s", k.key, d, what)
			}
		}
		t.Sample(what + fmt.Sprintf(": %d kept, %d replaced, %d new", len(kept), len(order)-nnew, nnew))
		rmAll(src)
	}
}
