package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C16", Level: "exploration", Quick: 640, Thorough: 12000, Run: runC16,
		Rule: "A case is a directory with intact, damaged and missing archives and files, in which the built program runs a series of commands with random modifiers in random order and spelling. A copy of the directory gets the library call with the settings the flags stand for: files, archives (byte for byte), standard output and success must be the same. Independently: the archive made has the header level, method, system and members asked for, excluded and dry run ones apart; a move removes the files and only them; missing and damaged archives, invalid options, unsupported or absent commands give a status other than 0 and change nothing. Distinct: command, modifiers, kind of archive, status.",
		Min:  map[string]int{"command_runs": 6000, "adds": 1000, "creates": 400, "updates": 300, "moves": 300, "excludes": 300, "dry_runs": 300, "lists": 400, "extracts": 600, "prints": 200, "tests": 400, "invalid": 600, "status_0": 2500, "status_not_0": 1500, "archives_parsed": 1200}})
}

func runC16(c *Ctx) {
	for i := 0; i < 3; i++ {
		c.Case("commands", func(t *T) { t.commands() })
	}
}

func (t *T) commands() {
	r := t.R
	dir, twin := t.Dir+"/cmd", t.Dir+"/lib"
	p := makePlayground(r, dir)
	// files with names which differ in case
	for _, n := range []string{"Readme", "NOTES", "x,y", "-o", "a b"} {
		b, _ := randBody(r, 300)
		must(writeFile(dir+"/"+n, b))
		tm := time.Unix(1400000000+int64(r.Intn(1e8)), 0)
		must(os.Chtimes(dir+"/"+n, tm, tm))
		p.files = append(p.files, n)
	}
	copyTree(dir, twin)
	for k := 0; k < 5; k++ {
		sameTimes(dir, twin)
		t.oneCommand(p, dir, twin)
	}
}

// sameTimes gives the files of twin the times of those of dir: what was made
// just now may have been made in another second.
func sameTimes(dir, twin string) {
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		setTime(filepath.Join(twin, rel), st.ModTime())
		return nil
	})
}

// setTime sets the time of a file, or of a link itself, if it is there.
func setTime(path string, at time.Time) {
	name, err := syscall.BytePtrFromString(path)
	must(err)
	n := at.UnixNano()
	ts := [2]syscall.Timespec{syscall.NsecToTimespec(n), syscall.NsecToTimespec(n)}
	const noFollow = 0x100
	cwd := -100
	syscall.Syscall6(syscall.SYS_UTIMENSAT, uintptr(cwd), uintptr(unsafe.Pointer(name)), uintptr(unsafe.Pointer(&ts)), noFollow, 0, 0)
}

func (t *T) oneCommand(p *playground, dir, twin string) {
	r := t.R
	var q opReq
	var args [][]string
	flag := func(name string) {
		switch r.Intn(6) {
		case 0:
			args = append(args, []string{"-" + name + "=true"})
		case 1:
			args = append(args, []string{"--" + name})
		default:
			args = append(args, []string{"-" + name})
		}
	}
	value := func(name, v string) {
		switch r.Intn(4) {
		case 0:
			args = append(args, []string{"-" + name + "=" + v})
		case 1:
			args = append(args, []string{"--" + name, v})
		default:
			args = append(args, []string{"-" + name, v})
		}
	}
	archKind := "good"
	switch r.Intn(8) {
	case 0, 1:
		q.Archive, archKind = p.bad[r.Intn(len(p.bad))], "bad"
	case 2:
		q.Archive, archKind = fmt.Sprintf("none%d.lzh", r.Intn(3)), "none"
		if _, err := os.Stat(dir + "/" + q.Archive); err == nil {
			archKind = "good"
		}
	case 3:
		q.Archive, archKind = "nowhere/x.lzh", "nowhere"
	default:
		q.Archive = p.good[r.Intn(len(p.good))]
	}
	// what the program is, without flags
	q.Sort, q.Level, q.Method, q.Generic = true, 2, lha.Lzhuff5MethodNum, true
	kind := []string{"a", "a", "a", "c", "u", "am", "au", "ax", "l", "lv", "e", "e", "p", "t", "d", "none", "m", "bad"}[r.Intn(18)]
	pickFile := func() string { return p.files[r.Intn(len(p.files))] }
	invalid := ""
	file := ""
	subs := false
	print := false
	switch kind {
	case "a", "ax", "am", "au":
		q.Kind = "add"
		file = pickFile()
		if r.Intn(12) == 0 {
			file = []string{"t", "t/x", "closed", "t/u/y", "./f1"}[r.Intn(5)]
		}
		value("a", file)
		q.Files = []string{file}
		subs = true
		t.Add("adds", 1)
	case "c":
		q.Kind, q.NewArchive = "add", true
		file = pickFile()
		value("c", file)
		q.Files = []string{file}
		if r.Intn(4) == 0 {
			more := pickFile()
			if more != file {
				value("a", more)
				q.Files = append(q.Files, more)
				if more < file {
					q.Files = []string{more, file}
				}
			}
		}
		subs = true
		t.Add("creates", 1)
	case "u", "m":
		q.Kind = "add"
		subs = true
	case "l", "lv":
		q.Kind = "list"
		q.VerboseListing = kind == "lv"
		flag(kind)
		t.Add("lists", 1)
	case "e":
		q.Kind = "extract"
		flag("e")
		t.Add("extracts", 1)
	case "p":
		q.Kind, print = "print", true
		flag("p")
		t.Add("prints", 1)
	case "t":
		q.Kind = "verify"
		flag("t")
		subs = r.Intn(2) == 0
		t.Add("tests", 1)
	case "d":
		flag("d")
		invalid = "unsupported"
	case "none":
		invalid = "no command"
	case "bad":
		f := pickFile()
		if _, err := os.Stat(dir + "/" + f); err != nil {
			f = "t/x"
		}
		value("a", f)
		switch r.Intn(5) {
		case 0:
			value("o", fmt.Sprint([]int{1, 2, 3, 4, 8, -5, 55}[r.Intn(7)]))
		case 1:
			value("h", fmt.Sprint([]int{3, 4, 7, -1, 22}[r.Intn(5)]))
		case 2:
			value("g", fmt.Sprint([]int{3, 4, 7, -1, 22}[r.Intn(5)]))
		case 3:
			value([]string{"o", "h", "g"}[r.Intn(3)], []string{"x", "5.0", "2x"}[r.Intn(3)])
		case 4:
			flag([]string{"z", "lz", "extract", "q"}[r.Intn(4)])
		}
		invalid = "option"
	}
	if kind == "u" || kind == "au" || kind == "c" && r.Intn(5) == 0 {
		flag("u")
		q.Update = true
		t.Add("updates", 1)
	}
	if kind == "am" || kind == "m" || kind == "c" && r.Intn(6) == 0 {
		flag("m")
		q.Move = true
		t.Add("moves", 1)
	}
	if invalid == "" && r.Intn(5) == 0 {
		flag("v")
		q.Verbose = true
	}
	if invalid == "" && r.Intn(6) == 0 {
		flag("n")
		q.Noexec = true
		t.Add("dry_runs", 1)
	}
	if invalid == "" && r.Intn(4) == 0 {
		flag("f")
		q.Force = true
	}
	if subs {
		g, h := 2, 2
		if r.Intn(2) == 0 {
			g = r.Intn(3)
			value("g", fmt.Sprint(g))
			q.Level = g
		}
		if r.Intn(2) == 0 {
			h = r.Intn(3)
			if g != 2 && h == 2 { // which one wins is not said
				h = r.Intn(2)
			}
			value("h", fmt.Sprint(h))
			q.Level = h
		}
		if r.Intn(2) == 0 {
			o := 5 + r.Intn(3)
			value("o", fmt.Sprint(o))
			q.Method = []int{lha.Lzhuff5MethodNum, lha.Lzhuff6MethodNum, lha.Lzhuff7MethodNum}[o-5]
		}
		if kind == "ax" || r.Intn(8) == 0 {
			n := 1 + r.Intn(4)
			for k := 0; k < n; k++ {
				x := pickFile()
				if strings.Contains(x, ",") {
					x = "q"
				}
				switch r.Intn(4) {
				case 0:
					x = strings.ToUpper(x)
				case 1:
					x = strings.ToLower(x)
				case 2:
					x = "other"
				}
				q.Exclude = append(q.Exclude, x)
			}
			value("x", strings.Join(q.Exclude, ","))
			t.Add("excludes", 1)
		}
	}
	value("archive", q.Archive)
	r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	var line []string
	for _, a := range args {
		line = append(line, a...)
	}
	if q.Kind == "extract" {
		for k := r.Intn(4); k > 0; k-- {
			q.Stdin += []string{"y\n", "n\n", "a\n", "s\n", "?\n", "\n"}[r.Intn(6)]
		}
	}
	before := snapshot(dir)
	oldArchive, _ := os.ReadFile(dir + "/" + q.Archive)
	res := t.run(dir, q.Stdin, []string{"TZ=UTC"}, filepath.Join(t.Bin, "lharc"), line...)
	t.Add("command_runs", 1)
	what := fmt.Sprintf("lharc %q (archive %s): %v", line, archKind, res)
	if c := res.crashed(); c != "" {
		t.Failf("crash", "%s; %s", c, what)
	}
	after := snapshot(dir)
	t.Add(map[bool]string{true: "status_0", false: "status_not_0"}[res.code == 0], 1)
	t.Sig("%s/%s/%d/%v%v%v%v%v%v/%d", kind, archKind, res.code, q.Update, q.Move, q.Noexec, q.Force, q.Verbose, len(q.Exclude) > 1, q.Level)
	if res.code != 0 && strings.TrimSpace(res.err) == "" {
		t.Failf("silent", "nothing tells what failed; %s", what)
	}
	if res.code == 0 {
		for _, line := range strings.Split(res.err, "\n") {
			if line != "" && !strings.Contains(line, "cannot access file") && !strings.Contains(line, "Skipped") && !strings.Contains(line, "'|'") && !strings.Contains(line, "(directory)") {
				t.Failf("noise", "all went well, yet standard error has %q; %s", line, what)
			}
		}
	}
	if invalid != "" {
		if res.code == 0 {
			t.Failf("status", "%s, yet the status is 0; %s", invalid, what)
		}
		if d := diffSnap(before, after, true); d != "" {
			t.Failf("changed", "%s, yet %s; %s", invalid, d, what)
		}
		t.Add("invalid", 1)
		return
	}
	// the library, with these settings
	must(os.Chdir(twin))
	lib := t.outDo(&q, nil)
	must(os.Chdir(t.Dir))
	lha.GenericFormat = false
	if (lib.Err == "") != (res.code == 0) {
		t.Failf("status", "the library reports %q; %s", lib.Err, what)
	}
	if lib.Out != res.out {
		t.Failf("output", "the library prints %q, the command %q; %s", clip(lib.Out), clip(res.out), what)
	}
	other := snapshot(twin)
	for _, s := range []Snap{after, other} {
		for n, e := range s {
			e.Ino = 0
			if e.Mode.IsDir() || e.MTime >= startTime {
				e.MTime = 0
			}
			s[n] = e
		}
	}
	if d := diffSnap(other, after, true); d != "" {
		t.Failf("files", "other files than with the library: %s; %s", d, what)
	}
	// on its own
	if (archKind == "none" || archKind == "nowhere") && q.Kind != "add" && res.code == 0 {
		t.Failf("status", "the archive is missing, yet the status is 0; %s", what)
	}
	if archKind == "nowhere" && q.Kind == "add" && !q.Noexec && !(kind == "u") && res.code == 0 && !excluded(q.Exclude, file) {
		t.Failf("status", "the archive cannot be made, yet the status is 0; %s", what)
	}
	if print && res.code == 0 && archKind == "good" {
		ms, err := ref.ParseArchive(oldArchive)
		if err != nil {
			return
		}
		rest := res.out
		for _, m := range ms {
			if m.Method == "-lhd-" || q.Noexec {
				continue
			}
			b, err := m.Unpack()
			if err != nil { // a method the reference does not unpack
				continue
			}
			i := strings.Index(rest, string(b))
			if i < 0 {
				t.Failf("print", "the contents of %q are not printed in their place; %s", m.Name, what)
			}
			rest = rest[i+len(b):]
		}
	}
	if q.Kind != "add" || res.code != 0 {
		return
	}
	if q.Noexec {
		for n, e := range before {
			a := after[n]
			if a.Sum != e.Sum || a.Mode != e.Mode || a.Link != e.Link {
				t.Failf("dry", "%q was %v, is %v; %s", n, e, a, what)
			}
		}
		if len(before) != len(after) {
			t.Failf("dry", "%d files become %d; %s", len(before), len(after), what)
		}
		return
	}
	if kind == "u" || kind == "m" || archKind == "bad" {
		return
	}
	b, err := os.ReadFile(dir + "/" + q.Archive)
	if err != nil {
		t.Failf("archive", "%v; %s", err, what)
	}
	ms, perr := ref.ParseArchive(b)
	if perr != nil {
		t.Failf("archive", "%v; %s", perr, what)
	}
	t.Add("archives_parsed", 1)
	byKey := map[string]*ref.Member{}
	for _, m := range ms {
		byKey[keyOf(m)] = m
	}
	old := map[string]*ref.Member{}
	if oms, err := ref.ParseArchive(oldArchive); err == nil && oldArchive != nil {
		for _, m := range oms {
			old[keyOf(m)] = m
			if n := byKey[keyOf(m)]; !q.NewArchive && n == nil {
				t.Failf("lost", "%q is no longer in the archive; %s", keyOf(m), what)
			}
		}
	}
	added := 0
	for _, f := range q.Files {
		name := filepath.Base(f)
		was, there := before[filepath.Clean(f)]
		if !there {
			continue // C11 has that
		}
		if !was.Mode.IsRegular() || excluded(q.Exclude, f) {
			if excluded(q.Exclude, f) {
				if m := byKey[name]; m != nil && (old[name] == nil || q.NewArchive || !bytes.Equal(m.Raw, old[name].Raw)) {
					t.Failf("excluded", "%q is archived; %s", f, what)
				}
				if after[filepath.Clean(f)].Sum != was.Sum {
					t.Failf("excluded", "%q is changed or removed; %s", f, what)
				}
			}
			continue
		}
		m := byKey[name]
		if m == nil {
			t.Failf("added", "%q is not in the archive; %s", name, what)
		}
		if q.Update && !q.NewArchive && old[name] != nil {
			continue
		}
		added++
		x, err := m.Unpack()
		if err != nil {
			t.Failf("added", "%v; %s", err, what)
		}
		if int64(len(x)) != was.Size || m.Level != q.Level || m.OS != 0 {
			t.Failf("added", "%q has %d bytes of %d, level %d, system %q; %s", name, len(x), was.Size, m.Level, m.OS, what)
		}
		method := map[int]string{lha.Lzhuff5MethodNum: "-lh5-", lha.Lzhuff6MethodNum: "-lh6-", lha.Lzhuff7MethodNum: "-lh7-"}[q.Method]
		if m.Method != method && m.Method != "-lh0-" {
			t.Failf("method", "%q is packed with %s, not %s; %s", name, m.Method, method, what)
		}
		if _, there := after[filepath.Clean(f)]; there == q.Move {
			t.Failf("move", "%q is there: %v, moved: %v; %s", f, there, q.Move, what)
		}
	}
	if q.NewArchive && !q.Update && len(ms) != added {
		t.Failf("new", "the new archive has %d members, not %d; %s", len(ms), added, what)
	}
	t.Sample(what)
}

func excluded(list []string, file string) bool {
	for _, x := range list {
		if strings.EqualFold(x, filepath.Base(file)) {
			return true
		}
	}
	return false
}
