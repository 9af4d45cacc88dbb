package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C22", Level: "exploration", Quick: 1200, Thorough: 20000, Run: runC22,
		Rule: "A case is an archive of files, directories and links of all methods and levels which is extracted, tested, printed, read by name, with and without Quiet, in dry runs, selections, with files in the way and with a damaged member; or files and trees which are added to an archive, first in a dry run. Standard output is compared with what the members processed, in archive order, must give. Distinct: operation, Quiet, dry, kinds of members, damage, answers.",
		Min:  map[string]int{"outputs_compared": 20000, "quiet": 5000, "dry_runs": 3000, "lines_judged": 40000, "damaged": 1000, "questions": 500, "updates": 3000, "replaced": 1000, "kept_unmentioned": 500}})
}

func runC22(c *Ctx) {
	for i := 0; i < 5; i++ {
		c.Case("reading", func(t *T) { t.saysRead() })
	}
	for i := 0; i < 5; i++ {
		c.Case("writing", func(t *T) { t.saysWritten() })
	}
}

// said is output without what is layout: NULs and blanks before a line end.
func said(s string) string {
	s = strings.ReplaceAll(s, "\x00", "")
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimRight(ls[i], " ")
	}
	return strings.Join(ls, "\n")
}

func (t *T) same(got, want, what string) {
	t.Add("outputs_compared", 1)
	t.Add("lines_judged", strings.Count(want, "\n"))
	if said(got) != said(want) {
		t.Failf("output", "prints %q, must print %q; %s", clipped(said(got)), clipped(said(want)), what)
	}
}

func clipped(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

func (t *T) saysRead() {
	r := t.R
	ms := world(r, worldOpt{n: 1 + r.Intn(8), maxBody: 1500, simple: true, unix: r.Intn(2) == 0})
	used := map[string]bool{}
	for _, m := range ms {
		used[m.key] = true
	}
	for k := r.Intn(4); k > 0; k-- { // directories and links among them
		level := r.Intn(4)
		h := headerFor(r, level, "-lhd-", simplePath(r))
		h.OS, h.NoOS, h.NameExt = 'U', false, false
		h.HasMode = level > 0
		x := &mem{kind: "dir"}
		h.Mode = 0040755
		if r.Intn(2) == 0 {
			x.kind, x.link = "link", []string{"a", "x1", "none"}[r.Intn(3)]
			h.Mode = 0120777
		}
		if clash(h.Name, used) || used[h.Name] {
			continue
		}
		used[h.Name] = true
		x.key = h.Name
		if x.kind == "dir" {
			h.Name += "/"
			x.key += "/"
		} else {
			h.Name += "|" + x.link
		}
		safeBuild(&h)
		x.m = &member{h: h}
		x.raw = h.Build()
		i := r.Intn(len(ms) + 1)
		ms = append(ms[:i], append([]*mem{x}, ms[i:]...)...)
	}
	arch := t.Dir + "/a.lzh"
	must(writeFile(arch, rawArchive(ms, true)))
	bad := -1
	if r.Intn(3) == 0 { // one damaged member
		var can []int
		for i, m := range ms {
			if k := m.m.h.Method; m.kind == "file" && len(m.m.data) > 0 && m.want.HasCRC && (k == "-lh0-" || k == "-lz4-" || k == "-pm0-") {
				can = append(can, i)
			}
		}
		if len(can) > 0 {
			bad = can[r.Intn(len(can))]
			b := mustRead(arch)
			pos := 0
			for _, m := range ms[:bad+1] {
				pos += len(m.raw)
			}
			b[pos-1-r.Intn(len(ms[bad].m.data))] ^= 0x41
			must(writeFile(arch, b))
		}
	}
	var kinds string
	for _, m := range ms {
		kinds += m.kind[:1]
	}
	for k, kind := range []string{"extract", "verify", "headers", "print", "extract", "decompress", "decbytes", "extract"} {
		dir := fmt.Sprintf("%s/w%d", t.Dir, k)
		must(os.Mkdir(dir, 0755))
		must(os.Chdir(dir))
		quiet := r.Intn(3) == 0
		lha.Quiet = quiet
		q := opReq{Kind: kind, Dir: dir, Archive: arch, Verbose: r.Intn(2) == 0, Force: r.Intn(3) == 0}
		if kind != "headers" && kind != "decbytes" && kind != "decompress" {
			q.Noexec = r.Intn(4) == 0
		}
		prefix := ""
		if (kind == "extract" || kind == "decompress") && r.Intn(3) == 0 {
			q.ExtractDir, prefix = "sub", "sub/"
			must(os.Mkdir("sub", 0755))
		}
		sel := map[string]bool{}
		if r.Intn(3) == 0 && !strings.HasPrefix(kind, "dec") {
			for j := 1 + r.Intn(3); j > 0; j-- {
				m := ms[r.Intn(len(ms))]
				sel[m.key] = true
				q.Files = append(q.Files, m.key)
			}
		}
		if strings.HasPrefix(kind, "dec") {
			m := ms[r.Intn(len(ms))]
			if m.kind != "file" {
				continue
			}
			q.Name = m.key
			sel[m.key] = true
		}
		// files in the way, with answers
		way := map[string]bool{}
		if (kind == "extract" || kind == "decompress") && r.Intn(2) == 0 {
			for _, m := range ms {
				if m.kind == "file" && r.Intn(2) == 0 {
					p := prefix + m.key
					must(os.MkdirAll(filepath.Dir(p), 0755))
					must(writeFile(p, []byte("in the way")))
					way[m.key] = true
				}
			}
		}
		// what must be said, and what may be said up to a damaged member
		var want, upTo strings.Builder
		stopped := false
		force := q.Force
		skip := false
		say := func(format string, a ...any) {
			if !quiet {
				fmt.Fprintf(&want, format, a...)
			}
		}
		for i, m := range ms {
			if len(sel) > 0 && !sel[m.key] || stopped {
				continue
			}
			upTo.Reset()
			upTo.WriteString(want.String())
			p := prefix + m.key
			done := true
			switch kind {
			case "verify", "headers":
				if m.kind == "file" {
					if q.Noexec {
						fmt.Fprintf(&want, "VERIFY %s\n", p)
						done = false
					} else {
						fmt.Fprintf(&want, "%s\t- Tested\n", p)
					}
				}
			case "print":
				if m.kind != "file" {
					break
				}
				if q.Noexec {
					fmt.Fprintf(&want, "EXTRACT %s\n", p)
					done = false
					break
				}
				say("::::::::\n%s\n::::::::\n", p)
				if i != bad {
					want.Write(m.plain)
				}
			case "decbytes":
				say("%s\t- Melted\n", p)
			default:
				if m.kind == "dir" {
					break
				}
				if m.kind == "link" {
					if !q.Noexec {
						say("Symbolic Link %s -> %s\n", p, m.link)
					}
					break
				}
				if way[m.key] && q.Noexec {
					fmt.Fprintf(&want, "EXTRACT %s but file is exist\n", p)
					done = false
					break
				}
				if way[m.key] && !force && !skip {
					fmt.Fprintf(&want, "%s OverWrite ?(Yes/[No]/All/Skip) ", p)
					a := []string{"y\n", "n\n", "Y\n", "\n", "a\n", "s\n", "q\ny\n"}[r.Intn(7)]
					q.Stdin += a
					t.Add("questions", 1)
					if a == "q\ny\n" { // asked again
						fmt.Fprintf(&want, "%s OverWrite ?(Yes/[No]/All/Skip) ", p)
					}
					done = strings.ContainsAny(a, "yYa")
					force = a == "a\n"
					skip = a == "s\n"
				} else if way[m.key] && !force {
					done = false
				}
				if q.Noexec {
					fmt.Fprintf(&want, "EXTRACT %s\n", p)
					done = false
				}
				if done {
					say("%s\t- Melted\n", p)
				}
			}
			if i == bad && done && m.kind == "file" {
				stopped = true
			}
		}
		if q.Stdin == "" {
			q.Stdin = "\n"
		}
		res := t.outDo(&q, nil)
		what := fmt.Sprintf("%s of %q (quiet %v, dry %v, force %v, damaged %d, answers %q, in the way %d): %s; archive of %s", kind, q.Files, quiet, q.Noexec, q.Force, bad, q.Stdin, len(way), res.Err, keys(ms))
		if stopped != (res.Err != "") {
			t.Failf("result", "error %q, must fail: %v; %s", res.Err, stopped, what)
		}
		if stopped {
			// members after the damaged one are not spoken of
			got := said(res.Out)
			if !strings.HasPrefix(got, said(upTo.String())) {
				t.Failf("output", "prints %q, which must begin with %q; %s", clipped(got), clipped(said(upTo.String())), what)
			}
			if kind != "print" && !strings.HasPrefix(said(want.String()), got) {
				t.Failf("output", "prints %q, must print nothing after %q; %s", clipped(got), clipped(said(want.String())), what)
			}
			t.Add("outputs_compared", 1)
			t.Add("damaged", 1)
		} else {
			t.same(res.Out, want.String(), what)
		}
		if quiet {
			t.Add("quiet", 1)
		}
		if q.Noexec {
			t.Add("dry_runs", 1)
		}
		t.Sig("%s/%v/%v/%v/%v/%d/%s", kind, quiet, q.Noexec, stopped, len(sel) > 0, len(way), kinds[:min(len(kinds), 3)])
		t.Sample(what + "; printed " + clipped(fmt.Sprintf("%q", res.Out)))
	}
}

func (t *T) saysWritten() {
	r := t.R
	arch := "a.lzh"
	byKey := map[string]*mem{}
	if r.Intn(4) > 0 {
		old := world(r, worldOpt{n: 1 + r.Intn(6), maxBody: 800, simple: true, sorted: true})
		must(writeFile(arch, rawArchive(old, true)))
		for _, m := range old {
			byKey[m.key] = m
		}
	}
	generic := r.Intn(3) == 0
	must(os.Mkdir("src", 0755))
	type item struct{ kind, link string }
	items := map[string]item{}
	times := map[string]int64{}
	var args []string
	put := func(rel, key string) {
		p := "src/" + rel
		if _, err := os.Lstat(p); err == nil {
			return
		}
		if k := byKey[key]; k == nil && r.Intn(5) == 0 && !generic {
			must(os.Symlink("some/target", p))
			items[key] = item{"link", "some/target"}
			if !strings.Contains(rel, "/") {
				args = append(args, p)
			}
			return
		}
		b, _ := randBody(r, 1500)
		if r.Intn(5) == 0 {
			b = nil
		}
		must(writeFile(p, b))
		tm := int64(1200000000 + 2*r.Intn(100000000))
		if m := byKey[key]; m != nil {
			tm = m.want.Time + int64([]int{-100000, 0, 100000}[r.Intn(3)])
			if tm < 400000000 || tm > 4200000000 {
				tm = m.want.Time
			}
		}
		must(os.Chtimes(p, time.Unix(tm, 0), time.Unix(tm, 0)))
		times[key] = tm
		items[key] = item{kind: "file"}
		if !strings.Contains(rel, "/") {
			args = append(args, p)
		}
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		n := simpleWords[r.Intn(len(simpleWords))]
		put(n, n)
	}
	for _, k := range sortedMems(byKey) {
		if !strings.Contains(k, "/") && r.Intn(2) == 0 {
			put(k, k)
		}
	}
	recursive := r.Intn(2) == 0
	if recursive {
		must(os.MkdirAll("src/tree/sub", 0755))
		items["tree/"], items["tree/sub/"] = item{kind: "dir"}, item{kind: "dir"}
		for k := r.Intn(4); k > 0; k-- {
			n := "tree/" + []string{"", "sub/"}[r.Intn(2)] + simpleWords[r.Intn(len(simpleWords))]
			put(n, n)
		}
		args = append(args, "src/tree")
	}
	r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	q := opReq{Kind: "add", Dir: t.Dir, Archive: arch, Files: args, Method: encMethods[r.Intn(5)], Level: r.Intn(3), Sort: r.Intn(2) == 0, Recursive: recursive, Generic: generic, Verbose: r.Intn(2) == 0}
	q.Update = r.Intn(3) == 0
	q.Move = r.Intn(4) == 0
	q.Backup = r.Intn(4) == 0
	q.Stdin = "\n"
	switch r.Intn(6) {
	case 0: // one file by its name
		if it := items[filepath.Base(args[0])]; it.kind == "file" {
			q.Kind, q.Name, q.Files, q.Update = "file", args[0], nil, false
			items = map[string]item{filepath.Base(args[0]): it}
			q.Sort = false
		}
	case 1: // bytes
		q.Kind, q.Name, q.Files, q.Update, q.Move = "bytes", simpleWords[r.Intn(len(simpleWords))], nil, false, false
		q.Body, _ = randBody(r, 2000)
		items = map[string]item{q.Name: {kind: "file"}}
		q.Sort = false
	}
	added := map[string]item{}
	kept := 0
	for k, it := range items {
		if m := byKey[k]; m != nil && q.Update && m.want.Time >= times[k] {
			kept++
			continue
		}
		added[k] = it
	}
	what := fmt.Sprintf("%s of %q %q to an archive of %q: sort %v, newer only %v, method %d, level %d", q.Kind, q.Files, q.Name, sortedMems(byKey), q.Sort, q.Update, q.Method, q.Level)
	// the dry run first
	var dry opRes
	quiet := r.Intn(3) == 0
	isDry := q.Kind == "add" || q.Kind == "file"
	if isDry {
		d := q
		d.Noexec = true
		lha.Quiet = quiet
		dry = t.outDo(&d, nil)
		if dry.Err != "" {
			t.Failf("dry", "dry run: %s; %s", dry.Err, what)
		}
	}
	lha.Quiet = quiet
	res := t.outDo(&q, nil)
	if res.Err != "" {
		t.Failf("result", "%s; %s", res.Err, what)
	}
	ms, err := ref.ParseArchive(mustRead(arch))
	if err != nil {
		t.Failf("format", "%v; %s", err, what)
	}
	var want, wantDry strings.Builder
	for _, m := range ms {
		k := keyOf(m)
		it, ok := added[k]
		if !ok {
			continue
		}
		delete(added, k)
		if byKey[k] != nil {
			fmt.Fprintf(&wantDry, "REPLACE src/%s\n", strings.TrimSuffix(k, "/"))
			t.Add("replaced", 1)
		} else {
			fmt.Fprintf(&wantDry, "ADD src/%s\n", strings.TrimSuffix(k, "/"))
		}
		if it.kind == "link" {
			fmt.Fprintf(&want, "%s -> %s\t- Symbolic Link\n", k, it.link)
		}
		fmt.Fprintf(&want, "%s\t- Frozen\n", k)
	}
	if len(added) > 0 {
		t.Failf("members", "%d files are not in the archive; %s", len(added), what)
	}
	if quiet {
		want.Reset()
		t.Add("quiet", 1)
	}
	t.same(res.Out, want.String(), what)
	if isDry {
		t.same(dry.Out, wantDry.String(), "dry run; "+what)
		t.Add("dry_runs", 1)
	}
	t.Add("updates", 1)
	t.Add("kept_unmentioned", kept)
	t.Sig("%s/%v/%d/%d/%v/%v/%d", q.Kind, quiet, q.Method, q.Level, q.Sort, q.Update, kept)
	t.Sample(what + "; printed " + clipped(fmt.Sprintf("%q", res.Out)))
}

func sortedMems(m map[string]*mem) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
