package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/jeromelesaux/lha"
)

func init() {
	register(&Prop{ID: "C17", Level: "exploration", Quick: 800, Thorough: 12000, Run: runC17,
		Rule: "A case is an archive of up to 30 members of all methods and levels whose names resemble each other (prefixes, case, directories). Each member is asked for by name (memory and file), then random selections are extracted, printed, listed, tested and verified, with other members' data damaged half of the time; names that are not there (other case, part of a name, base name, with a slash) are asked for too. Files created, bytes and errors must be those of the named members only. Distinct: operation, position, method, kind of wrong name.",
		Min:  map[string]int{"archives": 800, "single_members": 4000, "selections": 3000, "members_selected": 5000, "wrong_names": 4000, "beside_damage": 400, "damage_reported": 300}})
}

func runC17(c *Ctx) {
	for i := 0; i < 6; i++ {
		c.Case("selection", func(t *T) { t.selection() })
		c.Case("places", func(t *T) { t.places() })
	}
	if c.Chunk%150 == 3 {
		c.Case("many", func(t *T) { t.manySelect() })
	}
}

func (t *T) selection() {
	r := t.R
	n := 1 + r.Intn(8)
	if r.Intn(5) == 0 {
		n = 30
	}
	ms := world(r, worldOpt{n: n, maxBody: 2500, simple: true, unix: r.Intn(2) == 0})
	arch := t.Dir + "/a.lzh"
	good := rawArchive(ms, r.Intn(4) > 0)
	must(writeFile(arch, good))
	there := map[string]*mem{}
	for _, m := range ms {
		there[m.key] = m
	}
	t.Add("archives", 1)
	what := fmt.Sprintf("archive of %s", keys(ms))
	fresh := func(name string) string {
		d := t.Dir + "/" + name
		rmAll(d)
		must(os.Mkdir(d, 0755))
		must(os.Chdir(d))
		return d
	}
	// exactly these files, with their contents
	holds := func(dir string, want map[string]*mem, how string) {
		for p, e := range snapshot(dir) {
			if e.Mode.IsDir() {
				need := false
				for k := range want {
					need = need || strings.HasPrefix(k, p+"/")
				}
				if !need {
					t.Failf("others", "%s makes the directory %q; %s", how, p, what)
				}
				continue
			}
			if want[p] == nil {
				t.Failf("others", "%s makes %q; %s", how, p, what)
			}
		}
		for k, m := range want {
			os.Chmod(filepath.Join(dir, k), 0600)
			b, err := os.ReadFile(filepath.Join(dir, k))
			if err != nil {
				t.Failf("missing", "%s does not make %q: %v; %s", how, k, err, what)
			}
			if d := diffBytes(b, m.plain); d != "" {
				t.Failf("content", "%s: %q has %s; %s", how, k, d, what)
			}
		}
	}
	// one by one
	order := r.Perm(len(ms))
	if len(order) > 8 {
		order = order[:8]
	}
	handle := newLha(arch)
	for _, i := range order {
		m := ms[i]
		l := handle
		if r.Intn(2) == 0 {
			l = newLha(arch)
		}
		ask := hdrNamed(m.key)
		if r.Intn(2) == 0 { // as the listing gives it
			hs, err := newLha(arch).Headers()
			if err != nil || len(hs) != len(ms) {
				t.Failf("headers", "Headers: %d members, %v; %s", len(hs), err, what)
			}
			ask = hs[i]
		}
		b, err := l.DecompresBytes(ask)
		if err != nil {
			t.Failf("bytes", "DecompresBytes(%q): %v; %s", m.key, err, what)
		}
		if d := diffBytes(b, m.plain); d != "" {
			t.Failf("bytes", "DecompresBytes(%q) gives %s; %s", m.key, d, what)
		}
		dir := fresh("one")
		if r.Intn(3) == 0 {
			l.ExtractDirectory = "sub"
			must(os.Mkdir("sub", 0755))
			dir += "/sub"
		}
		err = l.Decompress(ask)
		l.ExtractDirectory = ""
		if err != nil {
			t.Failf("file", "Decompress(%q): %v; %s", m.key, err, what)
		}
		holds(dir, map[string]*mem{m.key: m}, fmt.Sprintf("Decompress(%q)", m.key))
		t.Add("single_members", 1)
		t.Sig("one/%d of %d/%s", i, len(ms), m.m.h.Method)
	}
	// names that are not there
	for k := 0; k < 6; k++ {
		m := ms[r.Intn(len(ms))]
		var name, kind string
		switch r.Intn(9) {
		case 0:
			name, kind = strings.ToUpper(m.key), "upper case"
		case 1:
			name, kind = strings.ToLower(m.key), "lower case"
		case 2:
			name, kind = m.key+"x", "longer"
		case 3:
			name, kind = m.key[:len(m.key)-1], "shorter"
		case 4:
			name, kind = filepath.Base(m.key), "base name"
		case 5:
			name, kind = "./"+m.key, "dot"
		case 6:
			name, kind = filepath.Dir(m.key), "directory"
		case 7:
			name, kind = "*", "pattern"
		case 8:
			name, kind = m.key+"/", "slash"
		}
		if there[name] != nil || name == "" {
			continue
		}
		dir := fresh("none")
		l := newLha(arch)
		b, err := l.DecompresBytes(hdrNamed(name))
		if err == nil {
			t.Failf("absent", "DecompresBytes(%q) gives %d bytes and no error; %s", name, len(b), what)
		}
		if err := l.Decompress(hdrNamed(name)); err == nil {
			t.Failf("absent", "Decompress(%q) gives no error; %s", name, what)
		}
		l = newLha(arch)
		l.CmdFilev, l.CmdFilec = []string{name}, 1
		lha.CommandExtract(arch, l)
		holds(dir, nil, fmt.Sprintf("asking for %q", name))
		t.Add("wrong_names", 1)
		t.Sig("wrong/%s", kind)
	}
	// selections
	for k := 0; k < 5; k++ {
		sel := map[string]*mem{}
		for j := 1 + r.Intn(min(len(ms), 5)); j > 0; j-- {
			m := ms[r.Intn(len(ms))]
			sel[m.key] = m
		}
		var names []string
		for n := range sel {
			names = append(names, n)
		}
		sort.Strings(names)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		if r.Intn(4) == 0 {
			names = append(names, "not there")
		}
		how := ""
		l := newLha(arch)
		l.CmdFilev, l.CmdFilec = names, len(names)
		switch k {
		case 0:
			how = fmt.Sprintf("CommandExtract of %q", names)
			dir := fresh("sel")
			if err := lha.CommandExtract(arch, l); err != nil {
				t.Failf("extract", "%s: %v; %s", how, err, what)
			}
			holds(dir, sel, how)
		case 1:
			how = fmt.Sprintf("printing %q", names)
			dir := fresh("sel")
			var want bytes.Buffer
			for _, m := range ms {
				if sel[m.key] != nil {
					want.Write(m.plain)
				}
			}
			lha.Quiet = true // contents only
			q := opReq{Kind: "print", Archive: arch, Files: names}
			res := t.outDo(&q, nil)
			lha.Quiet = false
			if res.Err != "" {
				t.Failf("print", "%s: %s; %s", how, res.Err, what)
			}
			if d := diffBytes([]byte(res.Out), want.Bytes()); d != "" {
				t.Failf("print", "%s gives %s; %s", how, d, what)
			}
			holds(dir, nil, how)
		case 2:
			how = fmt.Sprintf("listing %q", names)
			lha.Quiet = true // entries only
			q := opReq{Kind: "list", Archive: arch, Files: names}
			res := t.outDo(&q, nil)
			lha.Quiet = false
			if res.Err != "" {
				t.Failf("list", "%s: %s; %s", how, res.Err, what)
			}
			var got []string
			out := strings.ReplaceAll(res.Out, "\x00", "")
			for _, line := range strings.Split(strings.TrimRight(out, "\n"), "\n") {
				got = append(got, line)
			}
			i := 0
			for _, m := range ms {
				if sel[m.key] == nil {
					continue
				}
				if i >= len(got) || !strings.HasSuffix(got[i], " "+m.key) {
					t.Failf("list", "%s prints %q; %s", how, got, what)
				}
				i++
			}
			if i != len(got) {
				t.Failf("list", "%s prints %q; %s", how, got, what)
			}
		case 3, 4:
			// damage in one member is seen by those who ask for it only
			var can []*mem
			for _, m := range ms {
				if k := m.m.h.Method; len(m.m.data) > 0 && m.want.HasCRC && (k == "-lh0-" || k == "-lz4-" || k == "-pm0-") {
					can = append(can, m)
				}
			}
			if len(can) == 0 {
				continue
			}
			victim := can[r.Intn(len(can))]
			pos := 0
			for _, m := range ms {
				pos += len(m.raw)
				if m == victim {
					break
				}
			}
			bad := append([]byte(nil), good...)
			bad[pos-1-r.Intn(len(victim.m.data))] ^= 0x41
			must(writeFile(t.Dir+"/bad.lzh", bad))
			kind := []string{"headers", "verify", "extract"}[r.Intn(3)]
			how = fmt.Sprintf("%s of %q, %q damaged", kind, names, victim.key)
			fresh("sel")
			q := opReq{Kind: kind, Archive: t.Dir + "/bad.lzh", Files: names}
			res := t.outDo(&q, nil)
			if sel[victim.key] != nil {
				if res.Err == "" {
					t.Failf("unseen", "%s: no error; %s", how, what)
				}
				t.Add("damage_reported", 1)
			} else {
				if res.Err != "" {
					t.Failf("beside", "%s: %s; %s", how, res.Err, what)
				}
				t.Add("beside_damage", 1)
			}
			t.Sig("damage/%s/%v", kind, sel[victim.key] != nil)
		}
		t.Add("selections", 1)
		t.Add("members_selected", len(sel))
		t.Sig("sel/%d/%d of %d", k, len(sel), len(ms))
		t.Sample(how + "; " + what)
	}
}

// places: where the members of archives from elsewhere are extracted to.
func (t *T) places() {
	r := t.R
	want := map[string]string{} // path -> content
	bare := map[string]bool{}   // path -> no permissions are stored
	var ms []*member
	var names []string
	ignore := r.Intn(4) == 0
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		base := fmt.Sprintf("f%d.%d", i, r.Intn(100))
		var parts []string
		for k := r.Intn(3); k > 0; k-- {
			parts = append(parts, fmt.Sprintf("d%d", r.Intn(3)))
		}
		parts = append(parts, base)
		lead := []string{"", "", "/", "//", "///"}[r.Intn(5)]
		os := []byte{'U', 'M', 0, 'K', 'X', 'H', '9'}[r.Intn(7)]
		level := r.Intn(4)
		if len(parts) == 1 && level == 1 {
			lead = ""
		}
		content := fmt.Sprint("content of ", i)
		name := lead + strings.Join(parts, "/")
		m := simpleMember(level, "-lh0-", name, []byte(content), []byte(content))
		m.h.OS = os
		if os != 'U' {
			m.h.HasMode, m.h.HasIDs, m.h.HasMTime = false, false, false
		}
		if level == 0 && os != 'U' {
			m.h.MTime = 0
		}
		at := parts
		if lead != "" && (os == 'K' || os == 'X') {
			at = parts[1:] // the device
			if len(at) == 0 {
				continue
			}
			t.Add("devices_taken_off", 1)
		}
		if ignore {
			at = parts[len(parts)-1:]
		}
		p := strings.Join(at, "/")
		if _, there := want[p]; there {
			continue
		}
		want[p] = content
		bare[p] = os == 'M' || os == 0 || os == 'H' || os == '9'
		ms = append(ms, m)
		names = append(names, fmt.Sprintf("%q (%q, level %d)", name, os, level))
		t.Sig("places/%d/%q/%d/%d/%v", level, os, len(lead), len(parts), ignore)
	}
	must(writeFile("x.lzh", archiveOf(ms...)))
	must(os.Mkdir("out", 0755))
	l := newLha("x.lzh")
	l.ExtractDirectory = "out"
	l.IgnoreDirectory = ignore
	what := fmt.Sprintf("%s, directories ignored %v", names, ignore)
	mask := []int{022, 022, 0, 027, 077}[r.Intn(5)]
	syscall.Umask(mask)
	err := lha.CommandExtract("x.lzh", l)
	syscall.Umask(022)
	if err != nil {
		t.Failf("places", "CommandExtract: %v; %s", err, what)
	}
	for p, c := range want {
		b, err := os.ReadFile("out/" + p)
		if err != nil || string(b) != c {
			t.Failf("places", "%q: %v, %q instead of %q; %s", p, err, b, c, what)
		}
		t.Add("places", 1)
	}
	for p, e := range snapshot(t.Dir + "/out") {
		if _, ok := want[p]; !ok && !e.Mode.IsDir() {
			t.Failf("places", "%q is there; %s", p, what)
		}
		// what the archive has no permissions for gets the usual ones
		usual := os.FileMode(0777 &^ mask)
		if !e.Mode.IsDir() {
			usual = os.FileMode(0666 &^ mask)
			if !bare[p] {
				continue
			}
		}
		if p != "." && p != "" && e.Mode.Perm() != usual {
			t.Failf("places", "%q gets the permissions %o instead of %o; %s", p, e.Mode.Perm(), usual, what)
		}
		t.Add("usual_permissions", 1)
	}
	rmAll("out")
}
