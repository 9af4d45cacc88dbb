package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C02", Level: "exploration", Quick: 300, Thorough: 8000, Run: runC02,
		Rule: "A case is a generated tree (or single file) of files, directories and links with their permissions and times, archived (Compress or CommandAdd, recursive) and extracted elsewhere; the two trees are compared entry by entry. Distinct: way of archiving and extracting, level, format, method, time zone, and the number of files, directories and links.",
		Min:  map[string]int{"files_compared": 200, "dirs_compared": 50, "links_compared": 20, "flat": 100}})
	register(&Prop{ID: "C03", Level: "exploration", Quick: 400, Thorough: 9000, Run: runC03,
		Rule: "A case is an archive written by CompressBytes, Compress or CommandAdd from generated bodies and trees, read by the independent strict reader and decoder. Distinct: way, level, format, methods asked and found, size class, name length class.",
		Min:  map[string]int{"members_read": 200, "members-lh1-": 5, "members-lh5-": 5, "members-lh6-": 5, "members-lh7-": 5, "sizes_judged_below_stored": 100}})
}

var zones = []string{"UTC", "UTC", "America/New_York", "Asia/Tokyo", "Asia/Kathmandu", "Australia/Lord_Howe", "America/St_Johns", "Europe/Paris"}

func (t *T) setZone() string {
	z := zones[t.R.Intn(len(zones))]
	loc, err := time.LoadLocation(z)
	must(err)
	time.Local = loc
	return z
}

// dosAmbiguous tells whether a local time happens twice or never.
func dosAmbiguous(sec int64, loc *time.Location) bool {
	back := ref.FromDos(ref.DosTime(time.Unix(sec, 0).In(loc)), loc).Unix()
	return back != sec&^1 && back != sec || time.Unix(sec, 0).In(loc).Year() < 1980
}

func pathLimit(level int, generic bool) (name, path int) {
	switch level {
	case 0:
		if generic {
			return 120, 200
		}
		return 120, 200
	default:
		return 120, 700
	}
}

func runC02(c *Ctx) {
	for i := 0; i < 14; i++ {
		c.Case("tree", func(t *T) { t.treeRoundTrip() })
	}
	for i := 0; i < 8; i++ {
		c.Case("file", func(t *T) { t.fileRoundTrip() })
	}
	for i := 0; i < 3; i++ {
		c.Case("list", func(t *T) { t.listRoundTrip() })
	}
	for i := 0; i < 2; i++ {
		c.Case("flat", func(t *T) { t.flatRoundTrip() })
	}
	for i := 0; i < 3; i++ {
		c.Case("long", func(t *T) { t.longRoundTrip() })
	}
	c.Case("closed", func(t *T) { t.closedRoundTrip() })
	if c.Chunk%8 == 3 {
		c.Case("large", func(t *T) { t.largeFile() })
	}
}

// longRoundTrip archives paths and link targets up to the longest there are:
// they come back whole, or the archive is not made.
func (t *T) longRoundTrip() {
	r := t.R
	level := r.Intn(3)
	generic := r.Intn(4) == 0
	method := encMethods[r.Intn(5)]
	lha.GenericFormat = generic
	t.setZone()
	word := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	}
	deepest := []int{180, 240, 300, 1000, 1100, 2000, 3900}[r.Intn(7)]
	deepest -= r.Intn(40)
	nodes := []node{{path: "top", kind: 'd', perm: 0755, mtime: 1111111111}}
	dir, longest := "top", 0
	put := func(n node) {
		if n.mtime == 0 {
			n.mtime = randTime(r)
		}
		nodes = append(nodes, n)
		longest = max(longest, len(n.path)+1+len(n.link))
	}
	for {
		left := deepest - len(dir) - 1
		if r.Intn(3) == 0 && left > 1 {
			n := min(left, 1+r.Intn(250))
			b, _ := randBody(r, 500)
			put(node{path: dir + "/" + word(n), kind: 'f', perm: 0640, data: b})
		}
		if !generic && r.Intn(3) == 0 && left > 1 {
			n := min(left, 1+r.Intn(250))
			k := []int{5, 60, 100, 250, 900, 1022, 1023, 1024, 1025, 1100, 2500, 3990, 4095}[r.Intn(13)]
			put(node{path: dir + "/" + word(n), kind: 'l', perm: 0777, link: word(k)})
		}
		if left < 3 {
			break
		}
		n := min(left, 100+r.Intn(151))
		dir += "/" + word(n)
		put(node{path: dir, kind: 'd', perm: 0750})
	}
	makeTree(".", nodes)
	var before []byte
	if r.Intn(2) == 0 {
		before, _ = t.damageArchive(2, func() string { return "-lh5-" }, r.Intn(3), 500)
		must(writeFile("a.lzh", before))
		must(os.Chmod("a.lzh", 0600))
	}
	l := newLha("a.lzh")
	l.HeaderLevel, l.CompressMethod, l.RecursiveArchiving = level, method, true
	err := l.Compress("top", method, level)
	what := fmt.Sprintf("paths with link targets of up to %d bytes, level %d generic %v", longest, level, generic)
	t.Sig("long/%d/%v/%d/%v/%v", level, generic, longest/100, err == nil, before != nil)
	if err != nil {
		if level == 0 && longest <= 215 || level > 0 && longest <= 3900 {
			t.Failf("archive", "%s: %v", what, err)
		}
		got, _ := os.ReadFile("a.lzh")
		if !bytes.Equal(got, before) {
			t.Failf("refused", "%s are refused (%v), but the archive is changed", what, err)
		}
		t.Add("long_refused", 1)
		return
	}
	t.Add("long_restored", 1)
	if before != nil {
		return // C09 is about the other members
	}
	t.extractAndCompare(t.Dir+"/a.lzh", nodes, level, generic, what)
}

// flatRoundTrip extracts a tree without its directories.
func (t *T) flatRoundTrip() {
	r := t.R
	level := r.Intn(3)
	generic := r.Intn(4) == 0
	method := encMethods[r.Intn(5)]
	lha.GenericFormat = generic
	mn, mp := pathLimit(level, generic)
	seen := map[string]bool{}
	var nodes, want []node
	for _, n := range rooted(node{path: "top", kind: 'd', perm: 0755, mtime: 1111111111}, genTree(r, treeOpt{max: 14, links: !generic, maxName: mn, maxPath: mp, maxBody: 8000, dirs: true})) {
		base := filepath.Base(n.path)
		if n.kind != 'd' && seen[base] {
			continue
		}
		seen[base] = true
		nodes = append(nodes, n)
		if n.kind == 'f' {
			n.path = base
			want = append(want, n)
		}
	}
	makeTree(".", nodes)
	l := newLha("a.lzh")
	l.HeaderLevel, l.CompressMethod, l.RecursiveArchiving = level, method, true
	l.CmdFilev, l.CmdFilec = []string{"top"}, 1
	if err := lha.CommandAdd("a.lzh", l); err != nil {
		t.Failf("archive", "CommandAdd of a tree: %v", err)
	}
	must(os.Mkdir("out", 0755))
	x := newLha("../a.lzh")
	x.IgnoreDirectory = true
	var err error
	how := "current directory"
	switch r.Intn(3) {
	case 0:
		how = "extract directory"
		x.ExtractDirectory = "out"
		err = lha.CommandExtract("a.lzh", x)
	case 1:
		os.Chdir("out")
		err = lha.CommandExtract("../a.lzh", x)
		os.Chdir(t.Dir)
	default:
		how = "Decompress"
		os.Chdir("out")
		var hs []*lha.LzHeader
		hs, err = newLha("../a.lzh").Headers()
		for _, h := range hs {
			x := newLha("../a.lzh")
			x.IgnoreDirectory = true
			if e := x.Decompress(h); e != nil {
				err = e
			}
		}
		os.Chdir(t.Dir)
	}
	what := fmt.Sprintf("extraction of %d entries without their directories, level %d generic %v, %s", len(nodes), level, generic, how)
	if err != nil {
		t.Failf("extract", "%s: %v", what, err)
	}
	t.compareTree("out", want, level, generic, what)
	t.Add("flat", len(want))
	t.Sig("flat/%s/%d/%v/%d/%d", how, level, generic, method, len(nodes))
}

func (t *T) treeRoundTrip() {
	r := t.R
	level := r.Intn(3)
	generic := r.Intn(4) == 0
	method := encMethods[r.Intn(5)]
	lha.GenericFormat = generic
	zone := t.setZone()
	mn, mp := pathLimit(level, generic)
	opt := treeOpt{max: 14, links: !generic, maxName: mn, maxPath: mp, maxBody: 20000, dirs: true}
	if r.Intn(8) == 0 { // many
		opt.max, opt.maxBody, opt.maxName = 150, 300, 30
	}
	nodes := genTree(r, opt)
	root := node{path: "top", kind: 'd', perm: 0755, mtime: 1111111111}
	nodes = rooted(root, nodes)
	must(os.Mkdir("src", 0755))
	makeTree("src", nodes)
	arch, _ := filepath.Abs("a.lzh")

	// the same directory, spelled in many ways
	given := "src/top"
	sub := ""
	for _, n := range nodes[1:] {
		if n.kind == 'd' && n.perm&0500 == 0500 {
			sub = strings.TrimPrefix(n.path, "top/")
		}
	}
	switch k := r.Intn(16); {
	case k < 5:
	case k < 7:
		given = "src/top/"
	case k == 7:
		given = "./src//top"
	case k == 8:
		given = t.Dir + "/src/top"
	case k == 9:
		given = "src/../src/top/"
	case k < 12:
		must(os.Chdir("src"))
		given = "top"
	case k == 12 || sub == "" || strings.Contains(sub, "/"):
		// as the directory it is extracted into
		must(os.Chdir("src/top"))
		given = []string{".", "./", "../top/."}[r.Intn(3)]
		for i := range nodes {
			nodes[i].path = strings.TrimPrefix(nodes[i].path, "top/")
		}
		nodes = nodes[1:]
	case k == 13:
		given = "src/top/" + sub + "/.."
	case k == 14:
		given = "src/top/" + sub + "/../"
	default:
		must(os.Chdir("src/top/" + sub))
		given = ".."
	}
	l := newLha(arch)
	l.HeaderLevel, l.CompressMethod = level, method
	l.RecursiveArchiving = true
	l.SortContents = r.Intn(2) == 0
	how := "CommandAdd"
	var err error
	if r.Intn(3) == 0 {
		how = "Compress"
		err = l.Compress(given, method, level)
	} else {
		l.CmdFilev, l.CmdFilec = []string{given}, 1
		err = lha.CommandAdd(arch, l)
	}
	must(os.Chdir(t.Dir))
	if err != nil {
		t.Failf("archive", "%s of a tree: %v", how, err)
	}
	if sub != "" {
		given = strings.Replace(given, sub, "SUB", 1)
	}
	how += " of " + strings.Replace(given, t.Dir, "", 1)
	t.extractAndCompare(arch, nodes, level, generic, fmt.Sprintf("%s level %d generic %v method %d zone %s", how, level, generic, method, zone))
	t.Sig("tree/%s/%d/%v/%d/%s/%d", how, level, generic, method, zone, len(nodes))
}

func rooted(root node, nodes []node) []node {
	out := []node{root}
	for _, n := range nodes {
		n.path = root.path + "/" + n.path
		out = append(out, n)
	}
	return out
}

// extractAndCompare extracts all of arch into an empty place and compares.
func (t *T) extractAndCompare(arch string, nodes []node, level int, generic bool, what string) {
	r := t.R
	must(os.Mkdir("out", 0755))
	var err error
	x := newLha(arch)
	out := "out"
	switch r.Intn(3) {
	case 0:
		x.ExtractDirectory = "out"
		err = lha.CommandExtract(arch, x)
		what += ", extract directory"
	case 1:
		os.Chdir("out")
		err = lha.CommandExtract(arch, x)
		os.Chdir("..")
		what += ", current directory"
	default:
		// one member after the other
		what += ", Decompress"
		var hs []*lha.LzHeader
		hs, err = newLha(arch).Headers()
		if err == nil {
			os.Chdir("out")
			for _, h := range hs {
				if err = newLha(arch).Decompress(h); err != nil {
					break
				}
			}
			os.Chdir("..")
		}
		// a file extracted after its directory changes the time of the directory
		for i := range nodes {
			if nodes[i].kind == 'd' {
				nodes[i].mtime = -1
			}
		}
		level2 := 0
		_ = level2
	}
	if err != nil {
		t.Failf("extract", "extraction: %v (%s)", err, what)
	}
	t.compareTree(out, nodes, level, generic, what)
}

func (t *T) compareTree(out string, nodes []node, level int, generic bool, what string) {
	snap := snapshot(out)
	for _, n := range nodes {
		e, ok := snap[n.path]
		if !ok {
			t.Failf("missing", "%q (%c) was not restored (%s)", n.path, n.kind, what)
		}
		delete(snap, n.path)
		switch n.kind {
		case 'f':
			if !e.Mode.IsRegular() {
				t.Failf("type", "%q is restored as %v (%s)", n.path, e.Mode, what)
			}
			b, err := os.ReadFile(filepath.Join(out, n.path))
			if err != nil && e.Mode.Perm()&0400 != 0 {
				t.Failf("content", "%q: %v", n.path, err)
			}
			if d := diffBytes(b, n.data); d != "" {
				t.Failf("content", "%q is restored with %s (%s)", n.path, d, what)
			}
			t.Add("files_compared", 1)
			t.Add("bytes_compared", len(b))
		case 'd':
			if !e.Mode.IsDir() {
				t.Failf("type", "%q is restored as %v (%s)", n.path, e.Mode, what)
			}
			t.Add("dirs_compared", 1)
		case 'l':
			if e.Link != n.link {
				t.Failf("link", "%q is restored as %v, it pointed to %q (%s)", n.path, e, n.link, what)
			}
			t.Add("links_compared", 1)
			continue
		}
		if !generic && e.Mode.Perm() != n.perm {
			t.Failf("perm", "%q (%c) is restored with permissions %v, it had %v (%s)", n.path, n.kind, e.Mode.Perm(), n.perm, what)
		}
		if n.mtime < 0 {
			continue
		}
		slack := int64(0)
		if generic && level < 2 {
			slack = 1
			if dosAmbiguous(n.mtime, time.Local) {
				t.Add("times_ambiguous", 1)
				continue
			}
		}
		if d := n.mtime - e.MTime/1e9; d < 0 || d > slack || e.MTime%1e9 != 0 {
			t.Failf("mtime", "%q (%c) is restored with time %d, it had %d (%s)", n.path, n.kind, e.MTime/1e9, n.mtime, what)
		}
		t.Add("times_compared", 1)
	}
	var extra []string
	for p := range snap {
		extra = append(extra, p)
	}
	if len(extra) > 0 {
		t.Failf("extra", "extraction made %q, which was not archived (%s)", extra, what)
	}
	t.Sample(fmt.Sprintf("%d entries restored as archived: %s", len(nodes), what))
}

func (t *T) fileRoundTrip() {
	r := t.R
	level := r.Intn(3)
	generic := r.Intn(3) == 0
	method := encMethods[r.Intn(5)]
	lha.GenericFormat = generic
	zone := t.setZone()
	data, kind := randBody(r, 200000)
	name := fileName(r, 120)
	n := node{path: name, kind: 'f', data: data, perm: os.FileMode(0400 | r.Intn(0400)), mtime: randTime(r)}
	must(os.MkdirAll("src/deep", 0755))
	makeTree("src/deep", []node{n})
	arch, _ := filepath.Abs("a.lzh")
	if err := newLha(arch).Compress("src/deep/"+name, method, level); err != nil {
		t.Failf("archive", "Compress(%q): %v", name, err)
	}
	t.extractAndCompare(arch, []node{n}, level, generic, fmt.Sprintf("Compress level %d generic %v method %d zone %s, %d bytes of %s", level, generic, method, zone, len(data), kind))
	t.Sig("file/%d/%v/%d/%s/%s/%s", level, generic, method, zone, kind, sizeClass(len(data)))
}

// listRoundTrip archives several files named one by one.
func (t *T) listRoundTrip() {
	r := t.R
	level := r.Intn(3)
	method := encMethods[r.Intn(5)]
	nodes := genTree(r, treeOpt{max: 12, links: true, maxName: 60, maxPath: 200, maxBody: 30000})
	must(os.Mkdir("src", 0755))
	makeTree("src", nodes)
	arch, _ := filepath.Abs("a.lzh")
	l := newLha(arch)
	l.HeaderLevel, l.CompressMethod = level, method
	l.SortContents = r.Intn(2) == 0
	for _, n := range nodes {
		l.CmdFilev = append(l.CmdFilev, "src/"+n.path)
	}
	r.Shuffle(len(l.CmdFilev), func(i, j int) { l.CmdFilev[i], l.CmdFilev[j] = l.CmdFilev[j], l.CmdFilev[i] })
	l.CmdFilec = len(l.CmdFilev)
	if err := lha.CommandAdd(arch, l); err != nil {
		t.Failf("archive", "CommandAdd of %d files: %v", len(nodes), err)
	}
	t.extractAndCompare(arch, nodes, level, false, fmt.Sprintf("CommandAdd of %d files, level %d method %d", len(nodes), level, method))
	t.Sig("list/%d/%d/%d", level, method, len(nodes))
}

// ---- C03

func runC03(c *Ctx) {
	for i := 0; i < 24; i++ {
		k := c.Chunk*24 + i
		c.Case("bytes", func(t *T) {
			r := t.R
			m := encMethods[k%5]
			level := r.Intn(3)
			lha.GenericFormat = r.Intn(2) == 0
			t.setZone()
			max := 120000
			if k%6 == 0 {
				max = 350000
			}
			b, kind := randBody(r, max)
			limit := 250
			if level == 0 {
				limit = 215
			}
			name := fileName(r, limit)
			dir := ""
			if r.Intn(2) == 0 {
				dir = "some/where/"
			}
			before := time.Now().Unix()
			if err := newLha("a.lzh").CompressBytes(dir+name, b, m, level); err != nil {
				t.Failf("archive", "CompressBytes: %v", err)
			}
			after := time.Now().Unix()
			ms := t.strict("a.lzh", fmt.Sprintf("%d bytes of %s, method %d, level %d", len(b), kind, m, level))
			if len(ms) != 1 {
				t.Failf("members", "%d members", len(ms))
			}
			t.strictMember(ms[0], name, b, m, level, before, after)
			t.Sig("bytes/%d/%d/%v/%s/%s/%s", m, level, lha.GenericFormat, ms[0].Method, kind, sizeClass(len(b)))
		})
	}
	for i := 0; i < 8; i++ {
		c.Case("tree", func(t *T) {
			r := t.R
			level := r.Intn(3)
			generic := r.Intn(4) == 0
			m := encMethods[r.Intn(5)]
			lha.GenericFormat = generic
			t.setZone()
			mn, mp := pathLimit(level, generic)
			nodes := rooted(node{path: "top", kind: 'd', perm: 0750, mtime: 1234567890}, genTree(r, treeOpt{max: 14, links: !generic, maxName: mn, maxPath: mp, maxBody: 20000, dirs: true}))
			makeTree(".", nodes)
			l := newLha("a.lzh")
			l.HeaderLevel, l.CompressMethod, l.RecursiveArchiving = level, m, true
			l.CmdFilev, l.CmdFilec = []string{"top"}, 1
			if err := lha.CommandAdd("a.lzh", l); err != nil {
				t.Failf("archive", "CommandAdd: %v", err)
			}
			ms := t.strict("a.lzh", fmt.Sprintf("tree of %d, method %d, level %d", len(nodes), m, level))
			byName := map[string]*ref.Member{}
			for _, x := range ms {
				if byName[x.Name] != nil {
					t.Failf("twice", "%q is in the archive twice", x.Name)
				}
				byName[x.Name] = x
			}
			for _, n := range nodes {
				name := n.path
				switch n.kind {
				case 'd':
					name += "/"
				case 'l':
					name += "|" + n.link
					name = strings.ReplaceAll(name, "\\", "/")
				}
				x := byName[name]
				if x == nil {
					var have []string
					for k := range byName {
						have = append(have, k)
					}
					sort.Strings(have)
					t.Failf("missing", "%q is not in the archive: %q", name, have)
				}
				delete(byName, name)
				if n.kind != 'f' {
					if x.Method != "-lhd-" || x.Size != 0 || x.Packed != 0 {
						t.Failf("dir", "%q is %s of %d bytes", name, x.Method, x.Size)
					}
				} else {
					t.strictMember(x, name, n.data, m, level, n.mtime, n.mtime)
				}
				if n.kind == 'd' && level == 0 && x.Attr != 0x10 {
					t.Failf("attribute", "%q, a directory, has the attribute %02x", name, x.Attr)
				}
				if n.kind == 'l' {
					continue
				}
				want := uint16(0100000)
				if n.kind == 'd' {
					want = 0040000
				}
				if !generic && (!x.HasMode || x.Mode != want|uint16(n.perm)) {
					t.Failf("mode", "%q has mode %o, the file %c %o", name, x.Mode, n.kind, n.perm)
				}
				t.strictTime(x, n.mtime, n.mtime)
			}
			if len(byName) > 0 {
				t.Failf("extra", "%d members which were not asked for", len(byName))
			}
			t.Sig("tree/%d/%d/%v/%d", m, level, generic, len(nodes))
		})
	}
}

// strict reads an archive with the independent reader.
func (t *T) strict(path, what string) []*ref.Member {
	b := mustRead(path)
	ms, err := ref.ParseArchive(b)
	if err != nil {
		t.Failf("format", "the archive is not valid: %v (%s)", err, what)
	}
	for _, m := range ms {
		if _, err := m.Unpack(); err != nil {
			t.Failf("format", "member is not valid: %v (%s)", err, what)
		}
	}
	t.Add("members_read", len(ms))
	return ms
}

func (t *T) strictMember(m *ref.Member, name string, b []byte, method, level int, from, to int64) {
	if m.Name != name {
		t.Failf("name", "the member is named %q, %q was added (level %d)", m.Name, name, level)
	}
	if m.Level != level {
		t.Failf("level", "level %d, %d was asked", m.Level, level)
	}
	got, err := m.Unpack()
	if err != nil {
		t.Failf("format", "%v", err)
	}
	if d := diffBytes(got, b); d != "" {
		t.Failf("content", "the independent decoder of %s gives %s", m.Method, d)
	}
	if m.NoCRC || m.CRC != ref.CRC16(b) {
		t.Failf("crc", "CRC %04x of %d bytes is %04x in the header", ref.CRC16(b), len(b), m.CRC)
	}
	want := fmt.Sprintf("-lh%d-", method)
	switch {
	case m.Method != want && m.Method != "-lh0-":
		t.Failf("method", "method is %s, %s was asked", m.Method, want)
	case m.Packed > m.Size:
		t.Failf("larger", "%d bytes packed (%s) into %d", m.Size, m.Method, m.Packed)
	case m.Method != "-lh0-" && m.Packed >= m.Size:
		t.Failf("larger", "%d bytes compressed by %s to %d instead of stored", m.Size, m.Method, m.Packed)
	case method != 0 && m.Method == "-lh0-" && runny(b):
		t.Failf("stored", "%d bytes of long runs are stored, %s was asked", m.Size, want)
	}
	if m.Attr != 0x20 {
		t.Failf("attribute", "%q, a file, has the attribute %02x", m.Name, m.Attr)
	}
	if m.Level == 0 && m.Slack != 0 {
		t.Failf("format", "%d bytes follow the UNIX extension of %q", m.Slack, m.Name)
	}
	if runny(b) {
		t.Add("compressible", 1)
	}
	if method != 0 && len(b) >= 500 && t.R.Intn(3) == 0 {
		// no plain greedy packer does much better
		win := map[int]int{1: 4096, 5: 8192, 6: 32768, 7: 65536}[method]
		maxLen, each := 256, 900
		if method == 1 {
			maxLen, each = 60, 40
		}
		est := ref.Estimate(b, win-maxLen-4, maxLen)
		if limit := est + est/8 + len(b)/each + 300; m.Packed > limit {
			t.Failf("poorly", "%d bytes are packed by %s into %d; a plain greedy packer needs about %d", m.Size, m.Method, m.Packed, est)
		}
		t.Add("sizes_judged", 1)
		if est < len(b)*9/10 {
			t.Add("sizes_judged_below_stored", 1)
		}
	}
	t.strictTime(m, from, to)
	t.Add("members"+m.Method, 1)
	t.Add("bytes_decoded", len(b))
	t.Sample(fmt.Sprintf("%q: %s, %d of %d bytes, level %d, read by the independent reader", m.Name, m.Method, m.Packed, m.Size, m.Level))
}

// runny tells of data any compressor makes smaller.
func runny(b []byte) bool {
	n := 0
	for i := 1; i < len(b); i++ {
		if b[i] == b[i-1] {
			n++
		}
	}
	return len(b) >= 300 && n > len(b)*9/10
}

func (t *T) strictTime(m *ref.Member, from, to int64) {
	if m.Level >= 2 {
		if s := int64(m.Stamp); s < from || s > to {
			t.Failf("time", "%q has time %d, the file %d..%d", m.Name, s, from, to)
		}
		return
	}
	if !dosAmbiguous(from, time.Local) && !dosAmbiguous(to, time.Local) {
		s := ref.FromDos(m.Stamp, time.Local).Unix()
		if s < from-1 || s > to {
			t.Failf("time", "%q has DOS time %d, the file %d..%d", m.Name, s, from, to)
		}
	}
	if m.HasMTime {
		if s := int64(m.MTime); s < from || s > to {
			t.Failf("time", "%q has UNIX time %d, the file %d..%d", m.Name, s, from, to)
		}
	}
}

// closedRoundTrip: directories that cannot be searched are restored last of
// all, with what is below them.
func (t *T) closedRoundTrip() {
	r := t.R
	const then = 1000000000
	dirs := []string{"d", "d/e", "d/e/g"}
	mode := map[string]os.FileMode{}
	for _, d := range dirs {
		must(os.Mkdir(d, 0755))
		mode[d] = []os.FileMode{0755, 0700, 0711}[r.Intn(3)]
	}
	must(writeFile("d/e/g/f", []byte("f")))
	for i := len(dirs) - 1; i >= 0; i-- {
		must(os.Chmod(dirs[i], mode[dirs[i]]))
		tm := time.Unix(then+int64(i)*100, 0)
		must(os.Chtimes(dirs[i], tm, tm))
	}
	level := r.Intn(3)
	q := opReq{Kind: "add", Archive: "a.lzh", Files: []string{"d"}, Method: 5, Level: level, Recursive: true, Sort: r.Intn(2) == 0}
	if res := doOp(&q, nil); res.Err != "" {
		t.Failf("add", "%s", res.Err)
	}
	mode["d"] = []os.FileMode{0, 0400, 0600, 0200, 0500}[r.Intn(5)]
	must(os.Chmod("d", mode["d"]))
	q.Recursive = false
	res := doOp(&q, nil)
	must(os.Chmod("d", 0700))
	if res.Err != "" {
		t.Failf("add", "a directory by itself, of mode %o: %s", mode["d"], res.Err)
	}
	must(os.Mkdir("out", 0755))
	x := opReq{Kind: "extract", Archive: "a.lzh", ExtractDir: "out"}
	res = doOp(&x, nil)
	what := fmt.Sprintf("directories of modes %o, level %d, sorted %v", []os.FileMode{mode["d"], mode["d/e"], mode["d/e/g"]}, level, q.Sort)
	if res.Err != "" {
		t.Failf("extract", "%s; %s", res.Err, what)
	}
	for i, d := range dirs {
		st, err := os.Lstat("out/" + d)
		if err != nil {
			t.Failf("lost", "%v; %s", err, what)
		}
		if st.Mode().Perm() != mode[d] || st.ModTime().Unix() != then+int64(i)*100 {
			t.Failf("closed", "%q has mode %o and time %d; %s", d, st.Mode().Perm(), st.ModTime().Unix(), what)
		}
		must(os.Chmod("out/"+d, 0700))
	}
	if b := mustRead("out/d/e/g/f"); string(b) != "f" {
		t.Failf("content", "%q; %s", b, what)
	}
	t.Add("closed_directories", 1)
	t.Sig("closed/%o/%d", mode["d"], level)
}
