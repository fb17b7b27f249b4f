// Package inject runs a program and makes chosen system calls of it fail, or
// transfer less than they were asked for: a small tracer of its own child.
package inject

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Fault says which calls fail. The matching calls are counted from one, over
// all threads.
type Fault struct {
	Op    string `json:"op"`   // open, read, write; create, append: opening files below Path, writing to them
	Path  string `json:"path"` // of this file
	Fd    int    `json:"fd"`   // write: to this descriptor
	When  int    `json:"when"`
	Keep  bool   `json:"keep,omitempty"`  // the later ones fail, too
	Errno int    `json:"errno,omitempty"` // 0: only Short
	Short int    `json:"short,omitempty"` // permille of what is asked for that the call number When transfers; an error comes with the next one
}

// Result is what happened.
type Result struct {
	Calls int    `json:"calls"` // matching ones
	Hit   int    `json:"hit"`   // of them changed
	Code  int    `json:"code"`  // exit code, -1: by a signal
	Err   string `json:"err,omitempty"`
}

// Job is given to the child, which traces the program.
type Job struct {
	Fault  Fault    `json:"fault"`
	Argv   []string `json:"argv"`
	Result string   `json:"result"` // file
}

// Main is the tracer: it runs the job in the file and ends the process.
func Main(name string) {
	var j Job
	b, err := os.ReadFile(name)
	if err == nil {
		err = json.Unmarshal(b, &j)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "inject:", err)
		os.Exit(99)
	}
	go func() { // whoever waits for the result may be gone
		for parent := os.Getppid(); os.Getppid() == parent; {
			time.Sleep(time.Second)
		}
		os.Exit(99)
	}()
	r := run(&j)
	b, _ = json.Marshal(r)
	if err := os.WriteFile(j.Result, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "inject:", err)
		os.Exit(99)
	}
	os.Exit(0)
}

const eventOptions = 0x1 | 0x8 | 0x100000 // TRACESYSGOOD, TRACECLONE, EXITKILL

type thread struct {
	entered bool
	result  int64 // what the call returns instead
	fake    bool
}

func run(j *Job) (r Result) {
	runtime.LockOSThread()
	fail := func(what string, err error) Result {
		r.Err = fmt.Sprintf("%s: %v", what, err)
		return r
	}
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") {
			env = append(env, e)
		}
	}
	p, err := os.StartProcess(j.Argv[0], j.Argv, &os.ProcAttr{Env: env, Files: []*os.File{os.Stdin, os.Stdout, os.Stderr}, Sys: &syscall.SysProcAttr{Ptrace: true}})
	if err != nil {
		return fail("start", err)
	}
	pid := p.Pid
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil {
		return fail("wait", err)
	}
	if !ws.Stopped() {
		return fail("wait", fmt.Errorf("the program is not stopped"))
	}
	if err := syscall.PtraceSetOptions(pid, eventOptions); err != nil {
		return fail("options", err)
	}
	threads := map[int]*thread{pid: {}}
	if err := syscall.PtraceSyscall(pid, 0); err != nil {
		return fail("start", err)
	}
	target := j.Fault.Path
	if real, err := filepath.EvalSymlinks(target); err == nil {
		target = real
	}
	failing := false // an error follows a short transfer
	for {
		id, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return fail("wait", err)
		}
		if ws.Exited() || ws.Signaled() {
			delete(threads, id)
			if id == pid {
				r.Code = ws.ExitStatus()
				if ws.Signaled() {
					r.Code = -1
				}
				return r
			}
			continue
		}
		t := threads[id]
		if t == nil {
			t = &thread{}
			threads[id] = t
			if ws.StopSignal() == syscall.SIGSTOP {
				syscall.PtraceSyscall(id, 0)
				continue
			}
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(id, &regs) != nil { // it has just been killed
				continue
			}
			if int64(regs.Rax) == -int64(syscall.ENOSYS) && !t.entered {
				t.entered = true
				if match(&j.Fault, id, target, &regs) {
					r.Calls++
					f := &j.Fault
					switch {
					case failing || f.Errno != 0 && f.Short == 0 && (r.Calls == f.When || f.Keep && r.Calls > f.When):
						failing = f.Keep
						r.Hit++
						regs.Orig_rax = ^uint64(0) // no call
						t.fake, t.result = true, -int64(f.Errno)
						if err := syscall.PtraceSetRegs(id, &regs); err != nil {
							return fail("registers", err)
						}
					case f.Short > 0 && (r.Calls == f.When || f.Keep && f.Errno == 0 && r.Calls > f.When):
						r.Hit++
						failing = f.Errno != 0
						if n := int(regs.Rdx) * f.Short / 1000; n > 0 {
							regs.Rdx = uint64(n)
						} else if regs.Rdx > 0 {
							regs.Rdx = 1
						}
						if err := syscall.PtraceSetRegs(id, &regs); err != nil {
							return fail("registers", err)
						}
					}
				}
			} else {
				t.entered = false
				if t.fake {
					t.fake = false
					regs.Rax = uint64(t.result)
					if err := syscall.PtraceSetRegs(id, &regs); err != nil {
						return fail("registers", err)
					}
				}
			}
			syscall.PtraceSyscall(id, 0)
		case sig == syscall.SIGTRAP && ws.TrapCause() > 0:
			syscall.PtraceSyscall(id, 0)
		default:
			syscall.PtraceSyscall(id, int(sig))
		}
	}
}

func match(f *Fault, id int, target string, regs *syscall.PtraceRegs) bool {
	switch regs.Orig_rax {
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_READV, syscall.SYS_PREADV:
		if f.Op != "read" {
			return false
		}
		name, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", id, regs.Rdi))
		return err == nil && name == target
	case syscall.SYS_OPENAT, syscall.SYS_OPEN:
		if f.Op != "open" && f.Op != "create" {
			return false
		}
		at := regs.Rsi
		if regs.Orig_rax == syscall.SYS_OPEN {
			at = regs.Rdi
		}
		name := text(id, uintptr(at))
		if !filepath.IsAbs(name) {
			if wd, err := os.Readlink(fmt.Sprintf("/proc/%d/cwd", id)); err == nil {
				name = filepath.Join(wd, name)
			}
		}
		if real, err := filepath.EvalSymlinks(name); err == nil {
			name = real
		}
		return name == target || f.Op == "create" && strings.HasPrefix(name, target+"/")
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV:
		if f.Op == "append" {
			name, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", id, regs.Rdi))
			return err == nil && strings.HasPrefix(name, target+"/")
		}
		return f.Op == "write" && int(regs.Rdi) == f.Fd
	}
	return false
}

// text reads a name in the program's memory.
func text(id int, at uintptr) string {
	var b []byte
	for len(b) < 4096 {
		w := make([]byte, 8)
		if n, err := syscall.PtracePeekData(id, at+uintptr(len(b)), w); err != nil || n < 8 {
			return ""
		}
		for _, c := range w {
			if c == 0 {
				return string(b)
			}
			b = append(b, c)
		}
	}
	return ""
}
