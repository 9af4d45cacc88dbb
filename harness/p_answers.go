package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/jeromelesaux/lha"
)

func init() {
	register(&Prop{ID: "C14", Level: "exploration", Quick: 2400, Thorough: 40000, Run: runC14,
		Rule: "A case is an archive extracted (one to three times with one handle, or by the command, or member by member) over a directory where files, links, directories and pipes are in the way of members, with a script of answers on the standard input (a file, or a pipe filled in pieces), forced or not. A model of the questions says which files may be replaced: those must have the member's content and time, the others must be untouched (inode, content, time, mode). Distinct: kind in the way, answer, forced, outcome.",
		Min:  map[string]int{"extractions": 2000, "kept_untouched": 2000, "replaced": 1000, "answers_yes": 300, "answers_no": 300, "answers_all": 200, "answers_skip": 200, "answers_empty": 150, "answers_none": 300, "not_regular_kept": 300, "again": 300, "command_runs": 150}})
}

func runC14(c *Ctx) {
	for i := 0; i < 14; i++ {
		c.Case("overwrite", func(t *T) { t.overwrite() })
	}
}

type policy struct {
	lines []string
	force bool // forced, or all
	skip  bool
	asked []string
}

// replace is the verdict on a regular file in the way.
func (p *policy) replace() bool {
	if p.force {
		p.asked = append(p.asked, "forced")
		return true
	}
	if p.skip {
		p.asked = append(p.asked, "skipping")
		return false
	}
	for {
		if len(p.lines) == 0 {
			p.asked = append(p.asked, "none")
			return false
		}
		a := p.lines[0]
		p.lines = p.lines[1:]
		if a == "" {
			p.asked = append(p.asked, "empty")
			return false
		}
		switch a[0] {
		case 'Y', 'y':
			p.asked = append(p.asked, "yes")
			return true
		case 'N', 'n':
			p.asked = append(p.asked, "no")
			return false
		case 'A', 'a':
			p.asked = append(p.asked, "all")
			p.force = true
			return true
		case 'S', 's':
			p.asked = append(p.asked, "skip")
			p.skip = true
			return false
		}
		// asked again
	}
}

// answers puts a script on the standard input.
func (t *T) answers(s string) func() {
	r := t.R
	if r.Intn(2) == 0 {
		must(writeFile(t.Dir+"/.answers", []byte(s)))
		f, err := os.Open(t.Dir + "/.answers")
		must(err)
		os.Stdin = f
		return func() { os.Stdin = devNull; f.Close() }
	}
	pr, pw, err := os.Pipe()
	must(err)
	os.Stdin = pr
	whole := r.Intn(2) == 0
	done := make(chan bool)
	go func() {
		b := []byte(s)
		for len(b) > 0 {
			n := 1
			if whole {
				n = len(b)
			}
			if _, err := pw.Write(b[:n]); err != nil {
				break
			}
			b = b[n:]
		}
		pw.Close()
		done <- true
	}()
	return func() { os.Stdin = devNull; pr.Close(); <-done }
}

func (t *T) overwrite() {
	r := t.R
	ms := world(r, worldOpt{n: 1 + r.Intn(6), maxBody: 1500, simple: true, unix: true})
	links := 0
	for _, m := range ms {
		if m.m.h.Level > 0 && r.Intn(6) == 0 { // a symbolic link instead
			h := m.m.h
			h.Method = "-lhd-"
			h.HasMode, h.Mode = true, 0120777
			h.Name = m.key + "|to-" + fmt.Sprint(r.Intn(10))
			m.link = h.Name[len(m.key)+1:]
			h.Packed, h.Size, h.CRC = 0, 0, 0
			m.kind, m.plain = "link", nil
			m.m = &member{h: h}
			m.raw = h.Build()
			links++
		}
	}
	arch := t.Dir + "/a.lzh"
	must(writeFile(arch, rawArchive(ms, true)))
	base := t.Dir + "/w"
	must(os.Mkdir(base, 0755))
	edir := ""
	if r.Intn(2) == 0 {
		edir = "into/here"
	}
	target := filepath.Join(base, edir)
	must(os.MkdirAll(target, 0755))
	outside := t.Dir + "/outside"
	must(writeFile(outside, []byte("outside")))
	odd := false
	// what is in the way
	way := map[string]string{}
	place := func(m *mem, kind string) {
		p := filepath.Join(target, m.key)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		switch kind {
		case "file":
			must(os.WriteFile(p, []byte("old contents of "+m.key), 0600))
			must(os.Chmod(p, os.FileMode(0400|r.Intn(0400))))
			tm := time.Unix(1111111111, 0)
			must(os.Chtimes(p, tm, tm))
		case "link":
			must(os.Symlink([]string{outside, "dangling", "."}[r.Intn(3)], p))
		case "dir":
			must(os.Mkdir(p, 0755))
			if r.Intn(2) == 0 {
				must(writeFile(p+"/inside", []byte("inside")))
			}
		case "pipe":
			must(syscall.Mkfifo(p, 0644))
		}
		way[m.key] = kind
	}
	strange := r.Intn(4) == 0
	for _, m := range ms {
		switch {
		case r.Intn(3) == 0:
		case strange && r.Intn(3) == 0:
			place(m, []string{"link", "dir", "pipe"}[r.Intn(3)])
			odd = true
		default:
			place(m, "file")
		}
	}
	force := r.Intn(4) == 0
	useCLI := edir == "" && r.Intn(6) == 0
	single := !useCLI && r.Intn(6) == 0
	rounds := 1 + r.Intn(3)
	l := newLha(arch)
	l.ExtractDirectory = edir
	must(os.Chdir(base))
	for round := 0; round < rounds; round++ {
		n := r.Intn(6)
		var lines []string
		for k := 0; k < n; k++ {
			lines = append(lines, []string{"Y", "y", "N", "n", "A", "a", "S", "s", "", "yes", "No", "x", "?", " y", "Y", "n", "all", "skip"}[r.Intn(18)])
		}
		script := strings.Join(lines, "\n")
		if len(lines) > 0 && r.Intn(4) > 0 {
			script += "\n"
		}
		if strings.HasSuffix(script, "\n") || script == "" {
			// nothing after the last line end
		} else if lines[len(lines)-1] == "" {
			lines = lines[:len(lines)-1]
		}
		if script == "" {
			lines = nil
		}
		before := snapshot(target)
		pol := &policy{lines: append([]string(nil), lines...), force: force}
		todo := ms
		if single {
			todo = []*mem{ms[r.Intn(len(ms))]}
		}
		var err error
		what := ""
		if useCLI {
			args := []string{"-e", "-archive", arch}
			if force {
				args = append([]string{"-f"}, args...)
			}
			res := t.lharc(base, script, args...)
			if c := res.crashed(); c != "" {
				t.Failf("crash", "lharc %q: %s", args, c)
			}
			if res.code != 0 {
				err = fmt.Errorf("exit status %d: %s", res.code, res.err)
			}
			what = fmt.Sprintf("lharc %q", args)
			t.Add("command_runs", 1)
		} else {
			l.Force = force
			end := t.answers(script)
			if single {
				what = fmt.Sprintf("Decompress(%q)", todo[0].key)
				err = l.Decompress(hdrNamed(todo[0].key))
			} else {
				what = "CommandExtract"
				err = lha.CommandExtract(arch, l)
			}
			end()
			if !useCLI && l.Force != force {
				t.Failf("option", "the Force option of the handle changes from %v", force)
			}
		}
		what += fmt.Sprintf(", round %d, forced %v, answers %q, in the way %v, error %v", round, force, lines, way, err)
		after := snapshot(target)
		t.Add("extractions", 1)
		if round > 0 {
			t.Add("again", 1)
		}
		judged := true
		for _, m := range todo {
			b, was := before[m.key]
			a, is := after[m.key]
			switch {
			case !was:
				if !judged {
					continue
				}
				if !is {
					t.Failf("missing", "%q is not extracted; %s", m.key, what)
				}
				t.isMember(m, target, a, what)
				t.Sig("free/%s", m.kind)
			case b.Mode.IsRegular():
				if !judged {
					// after an error: replaced only if someone said so
					if a != b && !force && !strings.ContainsAny(strings.Join(lines, ""), "YyAa") {
						t.Failf("replaced", "%q is replaced; %s", m.key, what)
					}
					continue
				}
				ok := pol.replace()
				t.Add("answers_"+pol.asked[len(pol.asked)-1], 1)
				t.Sig("file/%s/%v/%s/%v", pol.asked[len(pol.asked)-1], force, m.kind, single)
				if !ok {
					if a != b {
						t.Failf("replaced", "%q was %v, is %v (questions: %v); %s", m.key, b, a, pol.asked, what)
					}
					t.Add("kept_untouched", 1)
					continue
				}
				if !is {
					t.Failf("gone", "%q is gone; %s", m.key, what)
				}
				t.isMember(m, target, a, what+fmt.Sprintf(" (questions: %v)", pol.asked))
				t.Add("replaced", 1)
			default:
				kind := "other"
				if b.Mode.IsDir() {
					kind = "dir"
				} else if b.Link != "" {
					kind = "link"
				}
				if b.Mode.IsDir() {
					if !is || !a.Mode.IsDir() || a.Ino != b.Ino {
						t.Failf("directory", "the directory %q becomes %v; %s", m.key, a, what)
					}
					if judged && err == nil && !pol.skip {
						t.Failf("silent", "the directory %q stays and no error is reported; %s", m.key, what)
					}
					judged = judged && pol.skip
					t.Add("not_regular_kept", 1)
				} else if !force && !pol.force {
					if a != b && judged {
						t.Failf("not-regular", "%q was %v, is %v; %s", m.key, b, a, what)
					}
					if judged && err == nil && !pol.skip {
						t.Failf("silent", "%q, not a file, stays and no error is reported; %s", m.key, what)
					}
					judged = judged && pol.skip
					t.Add("not_regular_kept", 1)
				} else if force && judged {
					if !is {
						t.Failf("gone", "%q is gone; %s", m.key, what)
					}
					t.isMember(m, target, a, what)
					t.Add("replaced", 1)
				} else {
					judged = false
				}
				t.Sig("odd/%s/%v/%v", kind, force, err != nil)
			}
		}
		if judged && err != nil {
			t.Failf("error", "%v; %s", err, what)
		}
		// what is inside directories and behind links
		for n, b := range before {
			if filepath.Base(n) == "inside" && after[n] != b {
				t.Failf("directory", "%q was %v, is %v; %s", n, b, after[n], what)
			}
		}
		if b, err := os.ReadFile(outside); err != nil || string(b) != "outside" {
			t.Failf("through", "the file behind a link is written to; %s", what)
		}
		t.Sample(what + fmt.Sprintf(", questions answered %v", pol.asked))
		// the next round meets what was extracted, or part of it
		for _, m := range ms {
			p := filepath.Join(target, m.key)
			st, err := os.Lstat(p)
			if err != nil {
				continue
			}
			switch {
			case r.Intn(3) == 0 && st.Mode().IsRegular():
				os.Remove(p)
				delete(way, m.key)
			case st.Mode().IsRegular():
				way[m.key] = "file"
			default:
				way[m.key] = st.Mode().Type().String()
			}
		}
	}
	_ = odd
}

// isMember: a file is what the archive says.
func (t *T) isMember(m *mem, dir string, e Ent, what string) {
	if m.kind == "link" {
		if e.Link != m.link {
			t.Failf("content", "%q is %v, must be a link to %q; %s", m.key, e, m.link, what)
		}
		return
	}
	p := filepath.Join(dir, m.key)
	os.Chmod(p, 0600)
	b, err := os.ReadFile(p)
	if err != nil || !e.Mode.IsRegular() || !bytes.Equal(b, m.plain) {
		t.Failf("content", "%q is %v, not the member (%v, %s); %s", m.key, e, err, diffBytes(b, m.plain), what)
	}
	if e.MTime/1e9 != m.want.Time {
		t.Failf("time", "%q has the time %d, the member %d; %s", m.key, e.MTime/1e9, m.want.Time, what)
	}
}
