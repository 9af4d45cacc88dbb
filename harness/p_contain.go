package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C08", Level: "exploration", Quick: 1200, Thorough: 24000, Run: runC08,
		Rule:   "A case is a history of one to three extractions of hostile archives (names with parent directories, absolute names, foreign separators, symbolic links from the archive and links placed before, directory members over links) into one directory; the snapshot of everything outside that directory (content, modes, times, links) is compared before and after every operation. Distinct: kinds of attack in the archive, options, way of extraction, whether it was refused.",
		Assume: []string{"nothing else changes the target directory during the extraction"},
		Min:    map[string]int{"extractions": 15000, "escapes_tried": 30000, "refused": 5000, "members_written": 5000, "links_made": 800}})
}

func runC08(c *Ctx) {
	for i := 0; i < 40; i++ {
		c.Case("escape", func(t *T) { t.escape() })
	}
}

// escapeMember makes one member that may try to leave the target.
func (t *T) escapeMember(i int, links *[]string) (*member, string) {
	r := t.R
	root := t.Dir[1:] // without the first '/'
	depth := r.Intn(4)
	up := strings.Repeat("../", 1+depth)
	victims := []string{"outside/secret", "outside/new", "outside/dir/file", "outside/dir", "outside/dir/newdir/x", "sibling", "work/other", "work/newfile", "a0.lzh", "outside/ro", "outside/lnk"}
	victim := victims[r.Intn(len(victims))]
	// the target is DIR/work/target
	rel := "../../" + victim
	var name, kind string
	mode := uint16(0100000 | r.Intn(01000))
	if r.Intn(3) == 0 {
		mode = 0100777
	}
	method := "-lh0-"
	data := []byte(fmt.Sprintf("hostile %d\n", i))
	link := ""
	switch r.Intn(20) {
	case 0:
		name, kind = rel, "parent"
	case 1:
		name, kind = "a/"+up+"../../"+victim, "inner parent"
	case 2:
		name, kind = t.Dir+"/"+victim, "absolute"
	case 3:
		name, kind = strings.Repeat("/", 1+r.Intn(3))+t.Dir+"/"+victim, "slashes"
	case 4:
		name, kind = strings.Repeat("../", 30)+root+"/"+victim, "root by parents"
	case 5:
		name, kind = "./"+rel, "dot parent"
	case 6:
		name, kind = "..//..//"+victim, "double slash"
	case 7:
		name, kind = strings.ReplaceAll(rel, "/", "\\"), "backslash"
	case 8:
		name, kind = strings.ReplaceAll(rel, "/", "\xff"), "0xff"
	case 9: // a link out
		kind = "link out"
		name = fmt.Sprintf("ln%d", r.Intn(4))
		if r.Intn(3) == 0 {
			name = "d/" + name
		}
		link = []string{"../../outside", "../../outside/dir", t.Dir + "/outside", "..", "../..", "../../outside/secret", ".", "/" + root, "ln0", "ln1/dir"}[r.Intn(10)]
		*links = append(*links, name)
	case 10, 11: // through a link of this archive, or one there before
		kind = "through link"
		all := append([]string{"pre", "predir", "d/pre", "chain"}, *links...)
		name = all[r.Intn(len(all))] + "/" + []string{"secret", "new", "dir/file", "outside/secret", "dir/new", "outside/new", "work/other"}[r.Intn(7)]
	case 12: // over a link
		kind = "over link"
		all := append([]string{"pre", "predir", "prefile", "d/pre", "chain", "dangling", "hard"}, *links...)
		name = all[r.Intn(len(all))]
	case 13: // a directory over a link: its modes
		kind = "dir over link"
		all := append([]string{"pre", "predir", "d/pre", "chain"}, *links...)
		name = all[r.Intn(len(all))] + "/"
		method, mode = "-lhd-", uint16(0040000|r.Intn(01000))
		data = nil
	case 14:
		kind = "dir outside"
		name = []string{"../", "../../outside/dir/", "../../outside/made/", "..", "/" + root + "/outside/dir/", "./../", "x/../../"}[r.Intn(7)]
		method, mode, data = "-lhd-", uint16(0040000|r.Intn(01000)), nil
	case 15:
		kind = "dots"
		name = []string{".", "..", "./", "../", "/", "//", "", "/..", "...", "....", ".../x", "..x/y", "x..", "/."}[r.Intn(14)]
		if r.Intn(2) == 0 {
			method, mode, data = "-lhd-", uint16(0040700), nil
		}
	case 16:
		kind = "NUL"
		name = "x\x00/../../../outside/secret"
		if r.Intn(2) == 0 {
			name = rel + "\x00x"
		}
	case 17:
		kind = "link by parents"
		name = "../ln" + fmt.Sprint(r.Intn(3))
		if r.Intn(2) == 0 {
			name = t.Dir + "/outside/secret"
		}
		link = "outside"
	case 18:
		kind = "device"
		name = strings.Repeat("/", 1+r.Intn(2)) + "dd" + strings.Repeat("/", 1+r.Intn(3)) + rel
		if r.Intn(2) == 0 {
			name = "/dd" + strings.Repeat("/", r.Intn(3)) + t.Dir + "/" + victim
		}
	default:
		kind = "good"
		name = fmt.Sprintf("good%d", i)
		if r.Intn(2) == 0 {
			name = fmt.Sprintf("gd%d/good%d", r.Intn(3), i)
		}
	}
	level := r.Intn(4)
	osid := byte('U')
	switch r.Intn(6) {
	case 0:
		osid = 'M'
	case 1:
		osid = 'K'
	}
	if kind == "device" && r.Intn(4) > 0 { // the systems that have device names
		osid = "KX"[r.Intn(2)]
	}
	if link != "" {
		osid = 'U'
		method, mode, data = "-lhd-", 0120777, nil
		name += "|" + link
	}
	h := ref.Header{Level: level, Method: method, Name: name, OS: osid, Attr: 0x20, Stamp: 0x2f6b5a31}
	h.MTime, h.Mode = 1000000000, mode
	// the owner may be given a file again, which shows in its mode
	h.HasIDs, h.UID, h.GID = level > 0 && r.Intn(2) == 0, uint16(os.Getuid()), uint16(os.Getgid())
	if level > 0 && (osid != 'M' || r.Intn(2) == 0) {
		h.HasMode = true
	}
	if level >= 2 {
		h.Stamp = 1000000000
		h.HasHCRC = true
	}
	if level == 1 {
		h.NameExt = r.Intn(2) == 0
		if dir, base := splitLast(name); dir == "" && !h.NameExt && len(base) > 200 {
			h.NameExt = true
		}
	}
	if level >= 2 && r.Intn(3) == 0 {
		h.PlainName = true // the whole name in the file name extension
	}
	if len(name) > 200 && level == 0 {
		h.Level, h.Stamp = 2, 1000000000
	}
	return &member{h: h, data: data, plain: data}, kind
}

func (t *T) escapeArchive() ([]byte, []string) {
	var ms []*member
	var kinds []string
	var links []string
	n := 1 + t.R.Intn(4)
	for i := 0; i < n; i++ {
		m, k := t.escapeMember(i, &links)
		func() {
			defer func() {
				if recover() != nil {
					m = nil
				}
			}()
			m.bytes()
		}()
		if m != nil {
			ms = append(ms, m)
			kinds = append(kinds, k)
		}
	}
	return archiveOf(ms...), kinds
}

func (t *T) escape() {
	r := t.R
	w := func(p, s string, mode os.FileMode) {
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, []byte(s), 0600))
		must(os.Chmod(p, mode))
	}
	w("outside/secret", "secret\n", 0750|os.ModeSetuid)
	w("outside/dir/file", "file in dir\n", 0600)
	w("outside/ro", "read only\n", 0555|os.ModeSetgid)
	must(os.Symlink("secret", "outside/lnk"))
	w("sibling", "sibling\n", 0644)
	w("work/other", "other\n", 0644)
	must(os.MkdirAll("work/target/d", 0755))
	// what was there before
	if r.Intn(2) == 0 {
		must(os.Symlink("../../outside", "work/target/pre"))
		must(os.Symlink(t.Dir+"/outside/dir", "work/target/predir"))
		must(os.Symlink("../../outside/secret", "work/target/prefile"))
		must(os.Symlink("../../../outside", "work/target/d/pre"))
		must(os.Symlink("pre/dir", "work/target/chain"))
		must(os.Symlink("../../outside/none", "work/target/dangling"))
		must(os.Link("outside/secret", "work/target/hard"))
	}
	n := 1 + r.Intn(3)
	var archs [][]byte
	var kinds [][]string
	for i := 0; i < n; i++ {
		b, k := t.escapeArchive()
		archs, kinds = append(archs, b), append(kinds, k)
		must(writeFile(fmt.Sprintf("a%d.lzh", i), b))
	}
	must(os.Symlink("target", "work/tlink"))
	abs := t.Dir
	picture := func() Snap {
		s := snapshot(abs)
		for p := range s {
			if p == "work/target" || strings.HasPrefix(p, "work/target/") {
				delete(s, p)
			}
		}
		return s
	}
	var l *lha.Lha
	for i := range archs {
		arch := fmt.Sprintf("%s/a%d.lzh", abs, i)
		before := picture()
		inside := snapshot(abs + "/work/target")
		if l == nil || r.Intn(2) == 0 {
			l = newLha(arch)
		}
		l.Force = r.Intn(3) > 0
		l.IgnoreDirectory = r.Intn(4) == 0
		l.ExtractDirectory = ""
		way := r.Intn(5)
		var err error
		how := ""
		switch way {
		case 0, 1:
			l.ExtractDirectory = []string{abs + "/work/target", "work/target", "work/../work/target", "work/tlink", abs + "/work/target/"}[r.Intn(5)]
			how = "directory " + strings.TrimPrefix(l.ExtractDirectory, abs)
			os.Chdir(abs)
			err = lha.CommandExtract(arch, l)
		case 2:
			how = "current directory"
			must(os.Chdir(abs + "/work/target"))
			err = lha.CommandExtract(arch, l)
		case 3:
			how = "Decompress"
			must(os.Chdir(abs + "/work/target"))
			hs, _ := newLha(arch).Headers()
			for _, h := range hs {
				x := newLha(arch)
				x.Force = l.Force
				x.IgnoreDirectory = l.IgnoreDirectory
				if e := x.Decompress(h); e != nil {
					err = e
				}
			}
		case 4:
			how = "command"
			args := []string{"-e", "-archive", arch}
			if l.Force {
				args = append([]string{"-f"}, args...)
			}
			res := t.lharc(abs+"/work/target", "y\ny\ny\ny\n", args...)
			if c := res.crashed(); c != "" {
				t.Failf("crash", "%s", c)
			}
			if res.code != 0 {
				err = fmt.Errorf("exit %d", res.code)
			}
		}
		must(os.Chdir(abs))
		os.Chmod("work/target", 0755) // a member may set its modes
		after := picture()
		if d := diffSnap(before, after, true); d != "" {
			t.Failf("outside", "extraction %d (%s, force %v, ignore %v, error %v) of members %v changes things outside of the target: %s\narchive: %x", i, how, l.Force, l.IgnoreDirectory, err, kinds[i], d, head(archs[i], 600))
		}
		t.Add("extractions", 1)
		for _, k := range kinds[i] {
			if k != "good" {
				t.Add("escapes_tried", 1)
			}
			t.Sig("%s/%d/%v/%v/%v", k, way, l.Force, l.IgnoreDirectory, err != nil)
		}
		if err != nil {
			t.Add("refused", 1)
		}
		now := snapshot(abs + "/work/target")
		for p, e := range now {
			if o, ok := inside[p]; ok && o == e {
				continue
			}
			if e.Link != "" {
				t.Add("links_made", 1)
			} else if e.Mode.IsRegular() {
				t.Add("members_written", 1)
			}
		}
		t.Sample(fmt.Sprintf("%v by %s, force %v: error %v, nothing outside changed (%d entries pictured)", kinds[i], how, l.Force, err, len(after)))
		fixModes(abs + "/work/target")
	}
}

// fixModes lets the harness look into directories hostile members closed.
func fixModes(dir string) {
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

var _ = rand.Int
