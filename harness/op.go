package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jeromelesaux/lha"
)

// opReq is one operation of the library, to be done in a process of its own.
type opReq struct {
	Kind    string // bytes, file, add, extract, headers, list, decompress, decbytes, verify, print
	Dir     string // current directory
	Archive string
	Files   []string
	Name    string // member, or name of the bytes
	Body    []byte
	Method  int
	Level   int

	Sort, Recursive, Move, Backup, NewArchive, Update, Generic, Force, Ignore, Noexec, Verbose, VerboseListing bool
	ExtractDir                                                                                                 string
	Exclude                                                                                                    []string
	Stdin                                                                                                      string // answers
}

// opRes is what it gave.
type opRes struct {
	Err     string
	Data    []byte
	Headers []wantHeader
	Out     string // standard output
	Changed string `json:",omitempty"` // options that are not what was set any more
}

const marker = "/lhaverif-marker-"

func opHandle(q *opReq) *lha.Lha {
	l := newLha(q.Archive)
	opConfigure(l, q)
	return l
}

func opConfigure(l *lha.Lha, q *opReq) {
	l.HeaderLevel, l.CompressMethod = q.Level, q.Method
	l.SortContents, l.RecursiveArchiving, l.DeleteAfterAppend = q.Sort, q.Recursive, q.Move
	l.BackupOldArchive, l.NewArchive, l.UpdateIfNewer = q.Backup, q.NewArchive, q.Update
	l.Force, l.IgnoreDirectory, l.Noexec = q.Force, q.Ignore, q.Noexec
	l.Verbose, l.VerboseListing = q.Verbose || mode.verbose, q.VerboseListing || mode.listing
	l.ExtractDirectory, l.ExcludeFiles = q.ExtractDir, q.Exclude
	l.OutputToStdout = q.Kind == "print"
	l.CmdFilev, l.CmdFilec = append([]string(nil), q.Files...), len(q.Files)
}

// doOp does an operation with a handle (nil for a new one).
func doOp(q *opReq, l *lha.Lha) (res opRes) {
	if l == nil {
		l = opHandle(q)
	} else {
		opConfigure(l, q)
	}
	if lha.GenericFormat != q.Generic { // no write when operations run at the same time
		lha.GenericFormat = q.Generic
	}
	var set map[string]string
	if watchOptions {
		switch q.Kind {
		case "bytes", "file": // have arguments of their own
			l.HeaderLevel, l.CompressMethod = (q.Level+1)%3, encMethods[(q.Level+q.Method)%5]
			l.CmdFilev, l.CmdFilec = []string{"these", "two"}, 2
		case "headers":
			lha.VerifyMode = len(q.Name)%2 == 0
		}
		set = options(l)
	}
	defer func() {
		if !watchOptions {
			return
		}
		for k, v := range options(l) {
			if set[k] == v {
				continue
			}
			res.Changed += fmt.Sprintf("%s was %s, is %s; ", k, set[k], v)
		}
		lha.VerifyMode = false
	}()
	var err error
	switch q.Kind {
	case "bytes":
		if !watchOptions {
			l.CmdFilev, l.CmdFilec = nil, 0
		}
		err = l.CompressBytes(q.Name, q.Body, q.Method, q.Level)
	case "file":
		if !watchOptions {
			l.CmdFilev, l.CmdFilec = nil, 0
		}
		err = l.Compress(q.Name, q.Method, q.Level)
	case "add":
		err = lha.CommandAdd(q.Archive, l)
	case "extract", "print":
		err = lha.CommandExtract(q.Archive, l)
	case "verify":
		lha.VerifyMode = true
		err = lha.CommandExtract(q.Archive, l)
		lha.VerifyMode = false
	case "list":
		err = lha.CommandList(q.Archive, l)
	case "headers":
		var hs []*lha.LzHeader
		hs, err = l.Headers()
		for _, h := range hs {
			res.Headers = append(res.Headers, reported(h))
		}
	case "decompress":
		err = l.Decompress(hdrNamed(q.Name))
	case "decbytes":
		res.Data, err = l.DecompresBytes(hdrNamed(q.Name))
	default:
		panic("operation " + q.Kind)
	}
	if err != nil {
		res.Err = err.Error()
		if res.Err == "" {
			res.Err = "error"
		}
	}
	return res
}

// watchOptions: one operation at a time, see that it leaves the options alone.
var watchOptions bool

// options are the exported fields of a handle and variables of the package.
func options(l *lha.Lha) map[string]string {
	m := map[string]string{"Quiet": fmt.Sprint(lha.Quiet), "VerifyMode": fmt.Sprint(lha.VerifyMode), "GenericFormat": fmt.Sprint(lha.GenericFormat), "TextMode": fmt.Sprint(lha.TextMode), "ConvertCase": fmt.Sprint(lha.ConvertCase)}
	v := reflect.ValueOf(l).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.IsExported() {
			m[f.Name] = fmt.Sprintf("%q", fmt.Sprint(v.Field(i).Interface()))
		}
	}
	return m
}

// reported is what the library says of a member.
func reported(h *lha.LzHeader) wantHeader {
	return wantHeader{Name: cstr(h.Name), Real: cstr(h.Realname), Method: string(h.Method), User: cstr(h.User), Group: cstr(h.Group),
		Packed: h.PackedSize, Size: h.OriginalSize, CRC: h.Crc, HasCRC: h.HasCrc, Level: h.HeaderLevel, OS: h.ExtendType, Attr: h.Attribute,
		Time: h.UnixLastModifiedStamp, Mode: h.UnixMode, UID: h.UnixUID, GID: h.UnixGid, Len: h.HeaderSize}
}

// opMain: lhaverif op REQUEST RESULT. The operation runs on the main thread,
// between two calls that mark it in a trace.
func opMain(a []string) {
	runtime.LockOSThread()
	b, err := os.ReadFile(a[0])
	if err != nil {
		os.Exit(4)
	}
	var q opReq
	if json.Unmarshal(b, &q) != nil || os.Chdir(q.Dir) != nil {
		os.Exit(4)
	}
	syscall.Umask(022)
	time.Local = time.UTC
	// the result goes through memory: a fault that lasts must not hit it
	f, err := os.OpenFile(a[1], os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil || f.Truncate(resultMax) != nil {
		os.Exit(4)
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, resultMax, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil || f.Close() != nil {
		os.Exit(4)
	}
	os.Lstat(marker + "start")
	res := doOp(&q, nil)
	os.Lstat(marker + "end")
	out, err := json.Marshal(res)
	if err != nil || len(out) > resultMax-8 {
		os.Exit(4)
	}
	copy(mem[8:], out)
	binary.LittleEndian.PutUint64(mem, uint64(len(out)))
	os.Exit(0)
}

const resultMax = 16 << 20

// readResult is what a process left, false if it did not come that far.
func readResult(path string, res *opRes) bool {
	f, err := os.Open(path)
	if err != nil {
		return false
	}
	defer f.Close()
	var n [8]byte
	if _, err := io.ReadFull(f, n[:]); err != nil {
		return false
	}
	k := binary.LittleEndian.Uint64(n[:])
	if k == 0 || k > resultMax-8 {
		return false
	}
	b := make([]byte, k)
	if _, err := io.ReadFull(f, b); err != nil {
		return false
	}
	return json.Unmarshal(b, res) == nil
}

func init() {
	if len(os.Args) > 1 && os.Args[1] == "op" {
		runtime.LockOSThread() // the main goroutine stays on the main thread
	}
}

// sysCall is a system call of a trace.
type sysCall struct {
	name string
	n    int // which one of its name, from the start of the process
	line string
}

const tracedCalls = "openat,open,creat,read,pread64,write,pwrite64,writev,ftruncate,truncate,rename,renameat,renameat2,unlink,unlinkat,link,linkat,symlink,symlinkat,mkdir,mkdirat,rmdir,close,lseek,fsync,fdatasync,newfstatat,fstat,lstat,stat,statx,readlink,readlinkat,getdents64,fchmod,fchmodat,fchmodat2,chmod,utimensat,fchownat,lchown,fchown,chown,copy_file_range,sendfile,splice,fcntl,fallocate"

var mutating = map[string]bool{"write": true, "pwrite64": true, "writev": true, "ftruncate": true, "truncate": true, "rename": true, "renameat": true, "renameat2": true, "unlink": true, "unlinkat": true, "link": true, "linkat": true, "symlink": true, "symlinkat": true, "mkdir": true, "mkdirat": true, "rmdir": true, "creat": true, "copy_file_range": true, "sendfile": true, "splice": true, "fchmod": true, "fchmodat": true, "chmod": true, "utimensat": true, "close": true, "fsync": true, "fallocate": true}

// traceRun is a run of an operation under strace.
type traceRun struct {
	res      opRes
	done     bool   // the operation returned
	killed   bool   // ended by the injected signal
	injected string // the line of the call that was hit
	calls    []sysCall
	raw      string
}

// traced runs an operation in its own process, under strace, with an optional
// injection (an strace -e inject= expression).
func (t *T) traced(q *opReq, inject string, stdout string) *traceRun {
	meta := t.Dir + "/.op" // outside of the directory judged
	os.MkdirAll(meta, 0755)
	os.Remove(meta + "/res")
	os.Remove(meta + "/log")
	b, _ := json.Marshal(q)
	must(writeFile(meta+"/req", b))
	args := []string{"-qq", "-s", "80", "-o", meta + "/log", "-e", "trace=" + tracedCalls}
	for _, one := range strings.Split(inject, ";") {
		if one != "" {
			args = append(args, "-e", "inject="+one)
		}
	}
	args = append(args, filepath.Join(t.Bin, "lhaverif"), "op", meta+"/req", meta+"/res")
	run := &traceRun{}
	childProcs.Add(1)
	defer childProcs.Add(-1)
	for try := 0; ; try++ {
		cmd := exec.Command("strace", args...)
		cmd.Dir = t.Dir
		so, err := os.OpenFile(stdout, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		must(err)
		cmd.Stdout = so
		var se bytes.Buffer
		cmd.Stderr = &se
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.WaitDelay = 5 * time.Second
		err = cmd.Start()
		so.Close()
		if err != nil {
			if try < 30 {
				time.Sleep(100 * time.Millisecond)
				continue
			}
			harnessError("cannot run strace: %v", err)
		}
		timer := time.AfterFunc(300*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		werr := cmd.Wait()
		if !timer.Stop() {
			t.Failf("hang", "operation %s does not end under %q", q.Kind, inject)
		}
		ws, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
		run.killed = ws.Signaled() && ws.Signal() == syscall.SIGKILL
		if werr != nil && !run.killed {
			// 4 is the harness, anything else the code
			lg, _ := os.ReadFile(meta + "/log")
			if len(lg) == 0 && try < 30 { // not even the first call was made
				time.Sleep(100 * time.Millisecond)
				continue
			}
			if ws.ExitStatus() == 4 || len(lg) == 0 {
				harnessError("strace: %v\n%s%s", werr, lg, se.String())
			}
			run.res.Err = fmt.Sprintf("process: %v", werr)
			if ws.ExitStatus() == 2 {
				t.Failf("panic", "operation %s crashes under %q", q.Kind, inject)
			}
		}
		break
	}
	lg, err := os.ReadFile(meta + "/log")
	must(err)
	run.parse(string(lg), inject)
	if readResult(meta+"/res", &run.res) {
		run.done = true
	}
	return run
}

func (run *traceRun) parse(lg, inject string) {
	count := map[string]int{}
	in := false
	run.raw = lg
	for _, line := range strings.Split(lg, "\n") {
		i := strings.IndexByte(line, '(')
		if i <= 0 || strings.HasPrefix(line, "---") || strings.HasPrefix(line, "+++") {
			continue
		}
		name := line[:i]
		count[name]++
		if strings.Contains(line, marker+"start") {
			in = true
			continue
		}
		if strings.Contains(line, marker+"end") {
			in = false
			continue
		}
		if in {
			run.calls = append(run.calls, sysCall{name, count[name], line})
			if strings.Contains(line, "(INJECTED)") && strings.HasPrefix(inject, name+":") || strings.HasSuffix(line, "= ?") {
				run.injected = line
			}
		}
	}
}

func (c sysCall) fd() int {
	i := strings.IndexByte(c.line, '(')
	j := strings.IndexAny(c.line[i+1:], ",)")
	if j < 0 {
		return -1
	}
	n, err := strconv.Atoi(c.line[i+1 : i+1+j])
	if err != nil {
		return -1
	}
	return n
}

// freshOp does an operation in a new process, without a tracer.
func (t *T) freshOp(q *opReq) opRes {
	meta := t.Dir + "/.op"
	os.MkdirAll(meta, 0755)
	os.Remove(meta + "/res")
	b, _ := json.Marshal(q)
	must(writeFile(meta+"/req", b))
	r := t.run(t.Dir, q.Stdin, nil, filepath.Join(t.Bin, "lhaverif"), "op", meta+"/req", meta+"/res")
	var res opRes
	if !readResult(meta+"/res", &res) {
		if r.code == 4 {
			harnessError("op: %v", r)
		}
		t.Failf("fresh", "operation %s in a new process: %v", q.Kind, r)
	}
	res.Out = r.out
	return res
}
