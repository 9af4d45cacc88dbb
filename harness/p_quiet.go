package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/jeromelesaux/lha"
)

func init() {
	register(&Prop{ID: "C13", Level: "exploration", Quick: 200, Thorough: 3000, Run: runC13,
		Rule:   "A case is a sequence of operations on intact, damaged, hostile and missing archives. Around each one the whole directory (type, mode, owner, size, contents, time, inode of every file), the directory for temporary files and /proc/self/fd are pictured, with the garbage collector off so that a lost file stays open. Reading operations and dry runs must change nothing; updates may only make the archive and its backup, failed ones nothing; no operation may leave a descriptor. The command is judged the same way. Distinct: operation, archive kind, outcome.",
		Assume: []string{"access times are not looked at"},
		Min:    map[string]int{"pictures_compared": 5000, "readings": 3000, "readings_failed": 500, "dry_runs": 500, "updates_done": 500, "updates_failed": 300, "descriptor_counts": 5000, "command_runs": 150}})
}

func runC13(c *Ctx) {
	for i := 0; i < 12; i++ {
		c.Case("operations", func(t *T) { t.traceless() })
	}
}

// openFiles lists what the process has open, pipes and the like included.
func openFiles() []string {
	d, err := os.Open("/proc/self/fd")
	must(err)
	self := fmt.Sprint(d.Fd())
	names, err := d.Readdirnames(-1)
	must(err)
	d.Close()
	var out []string
	for _, n := range names {
		if n == self {
			continue
		}
		s, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil || strings.HasPrefix(s, "/proc/") || strings.HasPrefix(s, "/sys/") || strings.HasPrefix(s, "anon_inode") { // the watchdog and the runtime
			continue
		}
		out = append(out, n+" "+s)
	}
	sort.Strings(out)
	return out
}

func (t *T) traceless() {
	r := t.R
	p := makePlayground(r, t.Dir+"/play")
	play := t.Dir + "/play"
	// more archives
	for i := 0; i < 3; i++ {
		b, kind := hostileArchive(r)
		if !capped(b) {
			continue
		}
		n := fmt.Sprintf("h%d.lzh", i)
		must(writeFile(play+"/"+n, b))
		p.bad = append(p.bad, n)
		p.keys[n] = []string{"f1", "a"}
		_ = kind
	}
	must(os.Chdir(play))
	debug.SetGCPercent(-1)
	defer debug.SetGCPercent(200)
	tmp := namesIn(t.Work)
	var handle *lha.Lha
	steps := 14
	if t.thorough() {
		steps = 60
	}
	for s := 0; s < steps; s++ {
		q, name := p.request(r, r.Intn(2) == 0)
		q.Dir = play
		q.Stdin = ""
		dry := false
		update := q.Kind == "bytes" || q.Kind == "file" || q.Kind == "add"
		if (q.Kind == "add" || q.Kind == "extract" || q.Kind == "file" || q.Kind == "bytes") && r.Intn(3) == 0 {
			q.Noexec, dry = true, true
		}
		if q.Kind == "add" {
			q.Noexec = dry
		}
		if q.Noexec && q.Kind == "extract" {
			dry = true
		}
		reading := dry || name == "headers" || name == "verify" || name == "print" || name == "decbytes" || name == "list"
		h := handle
		if h == nil || r.Intn(2) == 0 || q.Kind == "bytes" || q.Kind == "file" || q.Kind == "headers" || q.Kind == "decbytes" || q.Kind == "decompress" {
			h = newLha(q.Archive)
			handle = h
		}
		before := snapshot(t.Dir)
		fds := openFiles()
		res := doOp(&q, h)
		after := snapshot(t.Dir)
		now := openFiles()
		os.Chdir(play)
		outcome := "done"
		if res.Err != "" {
			outcome = "failed"
		}
		what := fmt.Sprintf("%s of %s (%s: %s) dry %v, member %q, files %q", name, q.Archive, outcome, res.Err, dry, q.Name, q.Files)
		t.Add("descriptor_counts", 1)
		if !reflect.DeepEqual(fds, now) {
			t.Failf("descriptor", "open before: %q, after: %q; %s", fds, now, what)
		}
		if x := namesIn(t.Work); !reflect.DeepEqual(x, tmp) {
			t.Failf("temporary", "the directory for temporary files holds %q; %s", x, what)
		}
		t.Add("pictures_compared", 1)
		switch {
		case reading:
			if d := diffSnap(before, after, false); d != "" {
				t.Failf("changed", "%s; %s", d, what)
			}
			if dry {
				t.Add("dry_runs", 1)
			} else {
				t.Add("readings", 1)
				if res.Err != "" {
					t.Add("readings_failed", 1)
				}
			}
		case update:
			a := filepath.Join("play", q.Archive)
			if res.Err == "" {
				// the archive and its backup
				for _, n := range []string{a, a + ".bak"} {
					if n == a || q.Backup {
						delete(before, n)
						delete(after, n)
					}
				}
				t.Add("updates_done", 1)
			} else {
				t.Add("updates_failed", 1)
			}
			if d := diffSnap(before, after, false); d != "" {
				t.Failf("left", "%s; %s", d, what)
			}
		default: // extractions: what was there and is no member's stays
			for n, e := range before {
				base := filepath.Base(n)
				if strings.HasSuffix(n, ".lzh") && after[n] != e {
					t.Failf("archive", "%q was %v, is %v; %s", n, e, after[n], what)
				}
				if _, ok := after[n]; !ok && !closedAbove(t.Dir, n) {
					t.Failf("gone", "%q is gone; %s", n, what)
				}
				_ = base
			}
			t.Add("extractions", 1)
		}
		t.Sig("%s/%s/%v/%s/%.1s", name, outcome, dry, strings.TrimRight(strings.TrimSuffix(q.Archive, ".lzh"), "0123"), res.Err)
		t.Sample(what)
		if s%7 == 6 {
			debug.FreeOSMemory()
			fixModes(play)
		}
	}
	// the command
	for k := 0; k < 2; k++ {
		all := append(append([]string{"none.lzh"}, p.good...), p.bad...)
		arch := all[r.Intn(len(all))]
		args := [][]string{{"-l"}, {"-lv"}, {"-t"}, {"-p"}, {"-n", "-e"}, {"-n", "-a", p.files[0]}, {"-v", "-l"}, {"-n", "-m", "-a", p.files[1]}, {"-n", "-c", p.files[2]}, {"-d"}, {}}[r.Intn(11)]
		args = append(args, "-archive", arch)
		before := snapshot(t.Dir)
		res := t.lharc(play, "", args...)
		t.Add("command_runs", 1)
		if d := diffSnap(before, snapshot(t.Dir), false); d != "" {
			t.Failf("changed", "%s; lharc %q (%v)", d, args, res)
		}
		t.Sig("lharc/%s/%d", strings.Join(args[:len(args)-2], " "), res.code)
	}
}

// closedAbove tells if a directory above n, made so by a member, keeps it from
// being seen.
func closedAbove(dir, n string) bool {
	for n = filepath.Dir(n); n != "."; n = filepath.Dir(n) {
		if st, err := os.Lstat(filepath.Join(dir, n)); err == nil && st.IsDir() {
			if st.Mode().Perm()&0500 != 0500 {
				return true
			}
		} else if err != nil && os.IsPermission(err) {
			continue // closed further up
		}
	}
	return false
}
