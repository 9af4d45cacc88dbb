package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

// Ctx is one chunk of a check.
type Ctx struct {
	Prop   *Prop
	Tier   string
	Seed   int64
	Chunk  int
	Chunks int
	Bin    string // directory of the binaries
	Work   string
	only   int
	n      int
	log    *os.File
	mu     sync.Mutex
	fails  int

	cur      atomic.Int64 // running case + 1
	curCPU   atomic.Int64
	curName  atomic.Value
	maxCPU   atomic.Int64 // seconds
	maxRSS   atomic.Int64 // bytes
	curFails atomic.Value
}

// T is one case.
type T struct {
	*Ctx
	R         *rand.Rand
	Name      string
	Dir       string // scratch of the case, the current directory
	sigs      []string
	metrics   map[string]int
	info      map[string]string
	sample    any
	fails     []Failure
	orig      []*ref.Member
	origBytes []byte
}

type failNow struct{}

// Failf records a violation and ends the case.
func (t *T) Failf(key, format string, a ...any) {
	t.Errorf(key, format, a...)
	panic(failNow{})
}

// Errorf records a violation.
func (t *T) Errorf(key, format string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.fails = append(t.fails, Failure{key, fmt.Sprintf(format, a...)})
}

// Sig records a distinct non-trivial observation.
func (t *T) Sig(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 40 {
		s = s[:20] + strconv.FormatUint(uint64(hashString(s)), 36)
	}
	t.sigs = append(t.sigs, s)
}

// Add counts an observation of the monitors.
func (t *T) Add(metric string, n int) {
	t.mu.Lock()
	t.metrics[metric] += n
	t.mu.Unlock()
}

// Note records a value seen, listed in the evidence.
func (t *T) Note(k, v string) { t.info[k] = v }

// Sample keeps an actual case for the evidence.
func (t *T) Sample(x any) { t.sample = x }

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

func (c *Ctx) write(r Rec) {
	b, _ := json.Marshal(r)
	c.mu.Lock()
	c.log.Write(append(b, '\n'))
	c.mu.Unlock()
}

// Case runs one case in its own scratch directory.
func (c *Ctx) Case(name string, f func(t *T)) {
	i := c.n
	c.n++
	if c.only >= 0 && i != c.only {
		return
	}
	if c.fails >= 3 {
		return
	}
	t := &T{Ctx: c, Name: name, metrics: map[string]int{}, info: map[string]string{}}
	t.R = rand.New(rand.NewSource(hashString(fmt.Sprintf("%s/%d/%d/%d", c.Prop.ID, c.Seed, c.Chunk, i))))
	t.Dir = filepath.Join(c.Work, fmt.Sprintf("k%d", i))
	if err := os.Mkdir(t.Dir, 0755); err != nil {
		harnessError("mkdir: %v", err)
	}
	if err := os.Chdir(t.Dir); err != nil {
		harnessError("chdir: %v", err)
	}
	if id := c.Prop.ID; id != "C12" && id != "C16" && id != "C17" && id != "C21" && id != "C22" {
		h := hashString(fmt.Sprintf("mode/%s/%d/%d/%d", id, c.Seed, c.Chunk, i))
		lha.Quiet, mode.verbose, mode.listing = h>>8&1 != 0, h>>9&3 == 0, h>>11&3 == 0
	}
	c.write(Rec{Kind: "start", Case: i, Name: name})
	c.curName.Store(name)
	c.curCPU.Store(cpuNow())
	c.cur.Store(int64(i) + 1)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); ok {
					return
				}
				stack := string(debug.Stack())
				if !strings.Contains(stack, "jeromelesaux/lha.") {
					harnessError("the harness fails in case %d %q: %v\n%s", i, name, r, stack)
				}
				t.Errorf("panic", "panic: %v\n%s", r, trimStack(stack))
			}
		}()
		f(t)
	}()
	c.cur.Store(0)
	cpu := (cpuNow() - c.curCPU.Load()) / 1e6
	resetGlobals()
	os.Chdir(c.Work)
	removeTree(t.Dir)
	if len(t.fails) > 0 {
		c.fails++
	}
	c.write(Rec{Kind: "end", Case: i, Name: name, Sigs: t.sigs, Metrics: t.metrics, Info: t.info, Sample: t.sample, Fails: t.fails, CPU: cpu})
}

func trimStack(s string) string {
	// keep the frames of the repository
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "jeromelesaux/lha") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	if len(out) == 0 {
		if len(s) > 2500 {
			s = s[:2500]
		}
		return s
	}
	return strings.Join(out, "\n")
}

func harnessError(format string, a ...any) {
	if realStderr != nil {
		os.Stderr = realStderr
	}
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(4)
}

func cpuNow() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Nano() + u.Stime.Nano()
}

func rssNow() int64 {
	// no os.File: it reads time.Local, which cases set
	fd, err := syscall.Open("/proc/self/statm", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return 0
	}
	var b [200]byte
	k, err := syscall.Read(fd, b[:])
	syscall.Close(fd)
	if err != nil || k <= 0 {
		return 0
	}
	f := strings.Fields(string(b[:k]))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// watchdog turns endless work, deadlock and memory blow-up into verdicts. It
// counts processor time, and only judges a process asleep when it kept being
// scheduled itself, so a loaded machine cannot raise an alarm.
func (c *Ctx) watchdog() {
	idle := 0
	lastCPU := cpuNow()
	lastCase := int64(0)
	tick := 0
	for {
		time.Sleep(100 * time.Millisecond)
		tick++
		cur := c.cur.Load()
		die := func(key, msg string) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			name, _ := c.curName.Load().(string)
			c.write(Rec{Kind: "death", Case: int(cur - 1), Name: name, Fails: []Failure{{key, msg + "\n" + trimStack(string(buf))}}})
			os.Exit(5)
		}
		if cur == 0 {
			idle = 0
			continue
		}
		if rss := rssNow(); rss > c.maxRSS.Load() {
			die("memory", fmt.Sprintf("the process takes %d MB", rss>>20))
		}
		if tick%10 != 0 {
			continue
		}
		cpu := cpuNow()
		if cpu-c.curCPU.Load() > c.maxCPU.Load()*1e9 {
			die("hang", fmt.Sprintf("the case has used %d s of processor time", (cpu-c.curCPU.Load())/1e9))
		}
		if cur == lastCase && cpu-lastCPU < 20e6 && !c.childRunning() {
			idle++
		} else {
			idle = 0
		}
		lastCase, lastCPU = cur, cpu
		if idle > 90 {
			die("blocked", "nothing has run for 90 s: the case is blocked")
		}
	}
}

var childProcs atomic.Int64

func (c *Ctx) childRunning() bool { return childProcs.Load() > 0 }

func child(a []string) {
	if len(a) != 6 {
		os.Exit(4)
	}
	p := propByID(a[0])
	c := &Ctx{Prop: p, Tier: a[1], Bin: a[5]}
	c.Seed, _ = strconv.ParseInt(a[2], 10, 64)
	c.Chunk, _ = strconv.Atoi(a[3])
	c.only, _ = strconv.Atoi(a[4])
	c.Chunks = p.Quick
	if c.thorough() {
		c.Chunks = p.Thorough
	}
	c.log = os.NewFile(3, "log")
	syscall.CloseOnExec(3)
	syscall.Umask(022)
	c.Work, _ = os.Getwd()
	origFiles = []*os.File{os.Stdin, os.Stdout, os.Stderr} // or their descriptors are closed
	// what the code prints is not looked at unless a case asks for it
	if null, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = null
		os.Stdin = null
		devNull = null
	}
	if f, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stderr, realStderr = f, os.Stderr
	}
	debug.SetGCPercent(200)
	c.maxCPU.Store(90)
	c.maxRSS.Store(2 << 30)
	resetGlobals()
	go c.watchdog()
	if f := os.Getenv("LHAVERIF_PROF"); f != "" {
		if w, err := os.Create(f + a[3]); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p.Run(c)
	c.write(Rec{Kind: "done", Case: c.n})
}

var devNull, realStderr *os.File
var origFiles []*os.File

// resetGlobals puts the exported settings of the package back.
func resetGlobals() {
	lha.GenericFormat = false
	lha.ConvertCase = false
	lha.VerifyMode = false
	lha.Quiet, mode.verbose, mode.listing = false, false, false
	lha.TextMode = false
	os.Stdin = devNull
	os.Stdout = devNull
	if time.Local != time.UTC {
		time.Local = time.UTC
	}
}
