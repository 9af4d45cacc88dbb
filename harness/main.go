// lhaverif runs the real jeromelesaux/lha under generated workloads while
// monitors judge what it does.
//
//	lhaverif check ID          decide a property (VERIF_TIER, VERIF_SEED)
//	lhaverif replay FILE       run again the case a VIOLATION line named
//	lhaverif child ...         one chunk of a check, in its own process
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is a property and the workload that decides it.
type Prop struct {
	ID       string
	Level    string
	Rule     string
	Assume   []string
	Quick    int // chunks
	Thorough int
	Run      func(c *Ctx)
	Race     bool           // the child is built with the race detector
	Min      map[string]int // what the monitors must have observed on the quick tier
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Rec is a line of a child's log.
type Rec struct {
	Kind    string            `json:"k"` // start, end, done, death
	Case    int               `json:"c"`
	Name    string            `json:"n,omitempty"`
	Sigs    []string          `json:"s,omitempty"`
	Metrics map[string]int    `json:"m,omitempty"`
	Sample  any               `json:"x,omitempty"`
	Fails   []Failure         `json:"f,omitempty"`
	Info    map[string]string `json:"i,omitempty"`
	CPU     int64             `json:"t,omitempty"` // ms
}

// Failure is a violation seen by a monitor.
type Failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// Replay names a failing case.
type Replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Chunk    int    `json:"chunk"`
	Case     int    `json:"case"`
	Name     string `json:"name"`
	Key      string `json:"key"`
	Msg      string `json:"what"`
	How      string `json:"how"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: lhaverif check ID | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], -1, -1))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Setenv("VERIF_TIER", r.Tier)
		os.Setenv("VERIF_SEED", strconv.FormatInt(r.Seed, 10))
		os.Exit(check(r.Property, r.Chunk, r.Case))
	case "child":
		child(os.Args[2:])
	case "op":
		opMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("LHAVERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, key, text string }

// readKnown reads the known findings:  known: property=ID key=KEY text
func readKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(f) == 3 {
			ks = append(ks, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return ks
}

type result struct {
	chunk int
	recs  []Rec
	err   error
	death string
}

func check(id string, oneChunk, oneCase int) int {
	start := time.Now()
	p := propByID(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	bin := os.Getenv("LHAVERIF_BIN")
	if bin == "" {
		bin, _ = os.Executable()
		bin = filepath.Dir(bin)
	}
	chunks := p.Quick
	if tier == "thorough" {
		chunks = p.Thorough
	}

	scratch, err := os.MkdirTemp(scratchRoot(), "lhaverif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer func() {
		if os.Getenv("LHAVERIF_KEEP") == "" {
			removeTree(scratch)
		}
	}()
	os.Chmod(scratch, 0755)

	jobs := make(chan int)
	results := make(chan result)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := false
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ch := range jobs {
				results <- runChunk(p, bin, scratch, tier, seed, ch, oneCase)
			}
		}()
	}
	go func() {
		for ch := 0; ch < chunks; ch++ {
			if oneChunk >= 0 && ch != oneChunk {
				continue
			}
			mu.Lock()
			s := stop
			mu.Unlock()
			if s {
				break
			}
			jobs <- ch
		}
		close(jobs)
		wg.Wait()
		close(results)
	}()

	kn := readKnown()
	knownSeen := map[string]bool{}
	var viols []Replay
	sigs := map[string]bool{}
	metrics := map[string]int{}
	info := map[string]map[string]bool{}
	evals := 0
	var samples []any
	perKind := map[string]int{}
	cpuKind := map[string]int64{}
	broken := ""
	for r := range results {
		if r.err != nil {
			broken = r.err.Error()
			continue
		}
		last := Rec{}
		for _, rec := range r.recs {
			switch rec.Kind {
			case "start":
				last = rec
			case "end":
				evals++
				for _, s := range rec.Sigs {
					sigs[s] = true
				}
				for k, v := range rec.Metrics {
					metrics[k] += v
				}
				for k, v := range rec.Info {
					if info[k] == nil {
						info[k] = map[string]bool{}
					}
					info[k][v] = true
				}
				kind := rec.Name
				if i := strings.IndexAny(kind, " :"); i > 0 && os.Getenv("LHAVERIF_CPU") == "" {
					kind = kind[:i]
				}
				cpuKind[kind] += rec.CPU
				if rec.Sample != nil && perKind[kind] < 2 && len(samples) < 24 {
					perKind[kind]++
					samples = append(samples, map[string]any{"case": rec.Name, "observed": rec.Sample})
				}
				for _, f := range rec.Fails {
					viols = append(viols, Replay{id, tier, seed, r.chunk, rec.Case, rec.Name, f.Key, f.Msg, ""})
				}
			case "death":
				for _, f := range rec.Fails {
					viols = append(viols, Replay{id, tier, seed, r.chunk, rec.Case, rec.Name, f.Key, f.Msg, ""})
				}
			}
		}
		if r.death != "" {
			viols = append(viols, Replay{id, tier, seed, r.chunk, last.Case, last.Name, "death", r.death, ""})
		}
		fresh := 0
		for _, v := range viols {
			if findKnown(kn, v) == nil {
				fresh++
			}
		}
		if fresh >= 4 {
			mu.Lock()
			stop = true
			mu.Unlock()
		}
	}
	if broken != "" {
		fresh := 0
		for _, v := range viols {
			if findKnown(kn, v) == nil {
				fresh++
			}
		}
		if fresh == 0 { // else what was seen is reported
			fmt.Fprintln(os.Stderr, "check is broken:", broken)
			return 2
		}
	}

	exit := 0
	shown := map[string]int{}
	nviol := 0
	rdir := filepath.Join(verifDir(), "evidence", "replays")
	for _, v := range viols {
		if k := findKnown(kn, v); k != nil {
			if !knownSeen[k.key] {
				knownSeen[k.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
			}
			continue
		}
		nviol++
		exit = 1
		shown[v.Key]++
		if shown[v.Key] > 2 || len(shown) > 5 {
			continue
		}
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, nviol))
		v.How = "bash /verif/check.sh replay " + path
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		msg := v.Msg
		if len(msg) > 1500 {
			msg = msg[:1500] + " ..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  %s [%s]: %s\n", v.Name, v.Key, msg)
	}
	// a monitor which saw nothing has decided nothing
	if exit == 0 && oneCase < 0 && oneChunk < 0 {
		var names []string
		for k := range p.Min {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if metrics[k] < p.Min[k] {
				fmt.Fprintf(os.Stderr, "check is broken: the monitors observed %s=%d, at least %d expected\n", k, metrics[k], p.Min[k])
				exit = 2
			}
		}
	}

	if oneCase < 0 {
		cov := map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(sigs),
			"rule":                p.Rule,
			"samples":             samples,
			"chunks":              chunks,
		}
		obs := map[string]any{}
		for k, v := range metrics {
			obs[k] = v
		}
		for k, v := range info {
			var l []string
			for s := range v {
				l = append(l, s)
			}
			sort.Strings(l)
			if len(l) > 60 {
				obs[k+"_distinct"] = len(l)
				l = l[:60]
			}
			obs[k] = l
		}
		cov["observed"] = obs
		if len(samples) == 0 {
			cov["samples"] = []any{}
		}
		ev := map[string]any{
			"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
			"wall_s": time.Since(start).Seconds(), "violations": nviol, "assumptions": p.Assume,
		}
		if p.Assume == nil {
			ev["assumptions"] = []string{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if os.Getenv("LHAVERIF_CPU") != "" {
		for k, v := range cpuKind {
			fmt.Printf("  cpu %s %d ms\n", k, v)
		}
	}
	if exit == 0 {
		fmt.Printf("%s %s seed=%d: held on %d cases (%d distinct) in %.1fs\n", id, tier, seed, evals, len(sigs), time.Since(start).Seconds())
	}
	return exit
}

func findKnown(ks []known, v Replay) *known {
	for i := range ks {
		if ks[i].prop == v.Property && ks[i].key == v.Key {
			return &ks[i]
		}
	}
	return nil
}

const nobody = 65534

// scratchRoot is in memory when there is room: the checks make many small files.
func scratchRoot() string {
	var st syscall.Statfs_t
	if syscall.Statfs("/dev/shm", &st) == nil && st.Bavail*uint64(st.Bsize) > 1<<30 && st.Type == 0x01021994 {
		return "/dev/shm"
	}
	return ""
}

// childAttr makes a process run as an unprivileged user: whatever the code
// under test gets wrong, it can only touch its own scratch files.
func childAttr() *syscall.SysProcAttr {
	a := &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if os.Geteuid() == 0 {
		a.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, Groups: []uint32{}}
	}
	return a
}

func runChunk(p *Prop, bin, scratch, tier string, seed int64, chunk, only int) result {
	dir := filepath.Join(scratch, fmt.Sprintf("c%d", chunk))
	if err := os.Mkdir(dir, 0755); err != nil {
		return result{err: err}
	}
	defer func() {
		if os.Getenv("LHAVERIF_KEEP") == "" {
			removeTree(dir)
		}
	}()
	work := filepath.Join(dir, "w")
	os.Mkdir(work, 0755)
	if os.Geteuid() == 0 {
		os.Chown(work, nobody, nobody)
		os.Chown(dir, nobody, nobody)
	}
	exe := filepath.Join(bin, "lhaverif")
	if p.Race {
		exe = filepath.Join(bin, "lhaverif-race")
	}
	errf, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return result{err: err}
	}
	defer errf.Close()
	logName := filepath.Join(dir, "log")
	logf, err := os.Create(logName)
	if err != nil {
		return result{err: err}
	}
	defer logf.Close()
	run := func() (*exec.Cmd, error) {
		cmd := exec.Command(exe, "child", p.ID, tier, strconv.FormatInt(seed, 10), strconv.Itoa(chunk), strconv.Itoa(only), bin)
		cmd.Dir = work
		cmd.Stderr = errf
		cmd.ExtraFiles = []*os.File{logf}
		cmd.SysProcAttr = childAttr()
		env := []string{"HOME=" + work, "TMPDIR=" + work, "PATH=" + os.Getenv("PATH"), "LANG=C", "TZ=UTC", "GOTRACEBACK=all"}
		if v := os.Getenv("LHAVERIF_PROF"); v != "" {
			env = append(env, "LHAVERIF_PROF="+v)
		}
		if p.Race {
			env = append(env, "GORACE=halt_on_error=1 exitcode=66")
		}
		cmd.Env = env
		return cmd, cmd.Start()
	}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	var cmd *exec.Cmd
	for try := 0; ; try++ {
		cmd, err = run()
		if err == nil {
			break
		}
		if try > 20 {
			return result{err: err}
		}
		time.Sleep(100 * time.Millisecond)
	}
	werr := cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	res := result{chunk: chunk}
	f, err := os.Open(logName)
	if err != nil {
		return result{err: err}
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	done := false
	death := false
	for sc.Scan() {
		var rec Rec
		if json.Unmarshal(sc.Bytes(), &rec) != nil {
			continue
		}
		res.recs = append(res.recs, rec)
		done = done || rec.Kind == "done"
		death = death || rec.Kind == "death"
	}
	if done || death {
		if werr != nil && !death {
			res.death = "the process failed after its last case: " + werr.Error() + tail(errf.Name())
		}
		return res
	}
	if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 4 {
		res.err = fmt.Errorf("chunk %d: %s", chunk, tail(errf.Name()))
		return res
	}
	if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 66 && !strings.Contains(tail(errf.Name()), "jeromelesaux/lha") {
		res.err = fmt.Errorf("chunk %d: a race of the harness: %s", chunk, tail(errf.Name()))
		return res
	}
	if werr == nil {
		res.death = "the process ended with status 0 before its work was done" + tail(errf.Name())
	} else {
		res.death = "the process died: " + werr.Error() + tail(errf.Name())
		if ee, ok := werr.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				// killed from outside: not a verdict on the code
				res.err = fmt.Errorf("chunk %d was killed", chunk)
			}
		}
	}
	return res
}

func tail(path string) string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) == 0 {
		return ""
	}
	s := string(b)
	for _, mark := range []string{"WARNING: DATA RACE", "panic:", "fatal error:"} {
		if i := strings.Index(s, mark); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return "\n" + s
}

// removeTree removes a scratch tree whatever its modes.
func removeTree(dir string) {
	if !strings.Contains(dir, "lhaverif-") {
		return
	}
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(dir)
}

func hashString(s string) int64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return int64(h.Sum64())
}
