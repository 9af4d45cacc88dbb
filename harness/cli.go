package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// cliResult is what a run of the command did.
type cliResult struct {
	code   int // exit status, -1 when a signal ended it
	signal string
	out    string
	err    string
}

func (r cliResult) String() string {
	e := r.err
	if len(e) > 300 {
		e = e[:300] + "..."
	}
	return fmt.Sprintf("exit status %d %s, stderr %q", r.code, r.signal, e)
}

// crashed tells whether the run ended in a panic, or was stopped by a limit.
func (r cliResult) crashed() string {
	if r.code == -1 {
		return "ended by " + r.signal
	}
	if strings.Contains(r.err, "panic:") || strings.Contains(r.err, "fatal error:") || strings.Contains(r.err, "goroutine 1 [") {
		e := r.err
		if i := strings.Index(e, "panic:"); i >= 0 {
			e = e[i:]
		}
		if len(e) > 800 {
			e = e[:800]
		}
		return "panic: " + e
	}
	return ""
}

// lharc runs the command in dir. Its processor time is limited.
func (t *T) lharc(dir, stdin string, args ...string) cliResult {
	return t.run(dir, stdin, nil, filepath.Join(t.Bin, "lharc"), args...)
}

func (t *T) run(dir, stdin string, env []string, exe string, args ...string) cliResult {
	childProcs.Add(1)
	defer childProcs.Add(-1)
	sh := append([]string{"-c", `ulimit -t 60; exec "$0" "$@"`, exe}, args...)
	var res cliResult
	for try := 0; ; try++ {
		cmd := exec.Command("/bin/sh", sh...)
		cmd.Dir = dir
		cmd.Stdin = strings.NewReader(stdin)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.Env = append(os.Environ(), env...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.WaitDelay = 5 * time.Second
		if err := cmd.Start(); err != nil {
			if try < 30 {
				time.Sleep(100 * time.Millisecond)
				continue
			}
			harnessError("cannot run %s: %v", exe, err)
		}
		timer := time.AfterFunc(400*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		err := cmd.Wait()
		timer.Stop()
		res = cliResult{out: so.String(), err: se.String()}
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
			if ws.Signaled() {
				res.code, res.signal = -1, ws.Signal().String()
			} else {
				res.code = ws.ExitStatus()
			}
		} else if err != nil {
			harnessError("%s: %v", exe, err)
		}
		t.Add("processes_run", 1)
		return res
	}
}
