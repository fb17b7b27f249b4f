package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
	"pgregory.net/rapid"

	"verif/inject"
)

// OutCase is a request whose output can be written only in part.
type OutCase struct {
	World    World  `json:"world"`
	Redo     bool   `json:"redo,omitempty"`
	Recovery bool   `json:"recovery,omitempty"`
	Table    int    `json:"table"`
	Sel      int    `json:"sel,omitempty"`   // redo: 0 all, 1 the table's schema, 2 the table name, 3 both
	How      string `json:"how"`             // limit, full, readonly, gone, fault; lib-full, lib-readonly, lib-gone
	Whole    int    `json:"whole"`           // limit: statements that have room
	Part     int    `json:"part"`            // limit: permille of the next one, 1000: all but the line end
	When     int    `json:"when,omitempty"`  // fault: number of the write, in permille of the statements
	Errno    string `json:"errno,omitempty"` // fault: "" none
	Short    int    `json:"short,omitempty"` // fault: permille of it that is written
	Keep     bool   `json:"keep,omitempty"`  // fault: the later ones fail, too
}

// LimitChild becomes the given program with a limit for the files it writes.
func LimitChild(limit string) {
	n, err := strconv.ParseUint(limit, 10, 64)
	if err == nil {
		err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	if err == nil {
		var env []string
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "VERIF_") {
				env = append(env, e)
			}
		}
		err = syscall.Exec(os.Args[1], os.Args[1:], env)
	}
	fmt.Fprintln(os.Stderr, "check: limited child:", err)
	os.Exit(99)
}

// badStdout opens a file that cannot be written.
func badStdout(how string) *os.File {
	var f *os.File
	var err error
	switch how {
	case "full":
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "readonly":
		f, err = os.Open(os.DevNull)
	case "gone":
		var r *os.File
		r, f, err = os.Pipe()
		if err == nil {
			r.Close()
		}
	}
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	return f
}

// runInto runs the program with its standard output in a file; limit < 0: no limit.
func runInto(args []string, dir string, out *os.File, limit int, env ...string) cliRan {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, theWorker.CLI, args...)
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + Scratch(), "TMPDIR=" + Scratch(), "TZ=UTC", "USER=root"}
	if limit >= 0 {
		c = exec.CommandContext(ctx, self(), append([]string{theWorker.CLI}, args...)...)
		c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + Scratch(), "TMPDIR=" + Scratch(), "TZ=UTC", "USER=root"}, fmt.Sprintf("VERIF_LIMITCHILD=%d", limit))
	}
	c.Env = append(c.Env, env...)
	c.Dir = dir
	c.Stdout = out
	se, err := c.StderrPipe()
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	if err := c.Start(); err != nil {
		die(ExitHarness, "cannot run %s: %v", theWorker.CLI, err)
	}
	var r cliRan
	var b bytes.Buffer
	b.ReadFrom(se)
	r.stderr = b.Bytes()
	if err := c.Wait(); err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			die(ExitHarness, "cannot run %s: %v", theWorker.CLI, err)
		}
		r.code = ee.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
		if r.code == 99 {
			die(ExitHarness, "%s", r.stderr)
		}
	}
	return r
}

// runInjected runs the program with a fault in its system calls.
func runInjected(args []string, dir string, out *os.File, f inject.Fault, env ...string) (cliRan, inject.Result) {
	name, res := filepath.Join(Scratch(), "inject.json"), filepath.Join(Scratch(), "injected.json")
	os.Remove(res)
	b, err := json.Marshal(inject.Job{Fault: f, Argv: append([]string{theWorker.CLI}, args...), Result: res})
	if err == nil {
		err = os.WriteFile(name, b, 0o600)
	}
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, self())
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + Scratch(), "TMPDIR=" + Scratch(), "TZ=UTC", "USER=root", "VERIF_INJECTCHILD=" + name}
	c.Env = append(c.Env, env...)
	c.Dir = dir
	c.Stdout = out
	se, err := c.StderrPipe()
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	if err := c.Start(); err != nil {
		die(ExitHarness, "cannot run %s: %v", self(), err)
	}
	var r cliRan
	var e bytes.Buffer
	e.ReadFrom(se)
	r.stderr = e.Bytes()
	var x inject.Result
	if err := c.Wait(); err != nil {
		if ctx.Err() != nil {
			r.code = -1
			r.stderr = append(r.stderr, "\nharness: the program does not end"...)
			return r, x
		}
		die(ExitHarness, "tracer: %v: %s", err, r.stderr)
	}
	if b, err = os.ReadFile(res); err == nil {
		err = json.Unmarshal(b, &x)
	}
	if err != nil {
		die(ExitHarness, "tracer: %v: %s", err, r.stderr)
	}
	r.code = x.Code
	return r, x
}

var injectOnce sync.Once
var injectWorks bool

// canInject says whether system calls of a child can be made to fail here.
func canInject() bool {
	injectOnce.Do(func() {
		out, err := os.Create(filepath.Join(Scratch(), "probe.out"))
		if err != nil {
			die(ExitHarness, "%v", err)
		}
		defer out.Close()
		r, x := runInjected([]string{"version"}, Scratch(), out, inject.Fault{Op: "write", Fd: 1, When: 1, Keep: true, Errno: int(syscall.EIO)})
		st, err := out.Stat()
		injectWorks = err == nil && x.Err == "" && x.Hit > 0 && r.code >= 0 && st.Size() == 0
	})
	return injectWorks
}

func runOutput(c *OutCase, o *Obs) error {
	dir := mkdir(filepath.Join(Scratch(), "out"))
	logDir := mkdir(filepath.Join(Scratch(), "outlogs"))
	defer os.RemoveAll(dir)
	defer os.RemoveAll(logDir)
	setZone("UTC")
	f := c.World.write(dir, "")
	k := c.Table % len(c.World.Tabs)
	t := &c.World.Tabs[k]
	what := modeName(c.Recovery)
	request := func() func() error {
		p := ibdata.NewParse()
		err := p.ParseDictPage(f.Dict)
		return func() error {
			if err != nil {
				return err
			}
			return p.ParseDataPage(f.Data[k], t.Schema, t.Name, c.Recovery)
		}
	}
	args := []string{"recovery", "FromDataFile", "--SysDataFile", f.Dict, "--TableDataFile", f.Data[k], "--DBName=" + t.Schema, "--TableName=" + t.Name}
	if c.Recovery {
		args = append(args, "--OpType", "RecoveryData")
	}
	if c.Redo {
		what = "redo recovery"
		var schema, table string
		if c.Sel&1 != 0 {
			schema = t.Schema
		}
		if c.Sel&2 != 0 {
			table = t.Name
		}
		request = func() func() error {
			p := redo.NewParse(table, schema)
			err := p.ParseDictPage(f.Dict)
			return func() error {
				if err != nil {
					return err
				}
				return p.ParseRedoLogs(f.Logs[0])
			}
		}
		args = []string{"recovery", "FromRedoFile", "--SysDataFile", f.Dict, "--RedoFile", strings.Join(f.Logs[0], ",")}
		if schema != "" {
			args = append(args, "--DBName="+schema)
		}
		if table != "" {
			args = append(args, "--TableName="+table)
		}
	}
	args = append(args, "--LogPath", logDir, "--LogLevel", "FATAL")
	full := Exec(request())
	if err := full.ok(what); err != nil {
		return err
	}
	lines := bytes.SplitAfter(full.Out, []byte("\n"))
	if n := len(lines); n > 0 && len(lines[n-1]) == 0 {
		lines = lines[:n-1]
	}
	n := len(lines)
	o.Class("%s", c.How)
	o.Class("%s", what)
	if how, ok := strings.CutPrefix(c.How, "lib-"); ok {
		req := request()
		bad := badStdout(how)
		old := os.Stdout
		var err error
		var pan interface{}
		func() {
			defer func() { os.Stdout = old; pan = recover() }()
			os.Stdout = bad
			err = req()
		}()
		bad.Close()
		if pan != nil {
			return fmt.Errorf("%s with output that cannot be written (%s) panics: %v", what, how, pan)
		}
		if n > 0 && err == nil {
			return fmt.Errorf("%s of %d statements with output that cannot be written (%s) reports no error", what, n, how)
		}
		if n == 0 && err != nil {
			return fmt.Errorf("%s without statements fails: %v", what, err)
		}
		again := Exec(req)
		if !bytes.Equal(again.Out, full.Out) || again.Err != nil {
			return fmt.Errorf("%s repeated after its output could not be written: %s", what, sameRan(full, again))
		}
		if n > 0 {
			o.NonTrivial()
		}
		o.Note("%s of %d statements, %s: %v", what, n, c.How, err)
		return nil
	}
	var r cliRan
	var got []byte
	limit := 0
	if c.How == "fault" {
		if !canInject() {
			o.Class("system calls cannot be made to fail here")
			return nil
		}
		name := filepath.Join(dir, "out.sql")
		out, err := os.Create(name)
		if err != nil {
			die(ExitHarness, "%v", err)
		}
		fault := inject.Fault{Op: "write", Fd: 1, When: 1 + n*c.When/1000, Keep: c.Keep, Errno: int(errnos[c.Errno]), Short: c.Short}
		r, x := runInjected(args, dir, out, fault)
		out.Close()
		if x.Err != "" {
			die(ExitHarness, "tracer: %s", x.Err)
		}
		if got, err = os.ReadFile(name); err != nil {
			die(ExitHarness, "%v", err)
		}
		desc := fmt.Sprintf("%s of %d statements (%d bytes) through the program, write number %d fails: %q, short %d, keep %v", what, n, len(full.Out), fault.When, c.Errno, c.Short, c.Keep)
		if r.code == 0 {
			if !bytes.Equal(got, full.Out) {
				return fmt.Errorf("%s: exit code 0, but %s", desc, sameRan(full, Ran{Out: got}))
			}
			o.ClassIf(x.Hit > 0 && c.Errno != "" && c.Errno != "EINTR", "succeeds nevertheless")
		} else {
			if x.Hit == 0 {
				return fmt.Errorf("%s: nothing failed, but the exit code is %d: %.300q", desc, r.code, r.stderr)
			}
			if c.Errno == "" || c.Errno == "EINTR" && !c.Keep {
				return fmt.Errorf("%s: what is no error is taken for one: %.300q", desc, r.stderr)
			}
			if len(bytes.TrimSpace(r.stderr)) == 0 {
				return fmt.Errorf("%s: fails without a message", desc)
			}
			if !bytes.HasPrefix(full.Out, got) {
				return fmt.Errorf("%s: writes what is no beginning of the statements: %s", desc, sameRan(full, Ran{Out: got}))
			}
			o.Class("a single write fails")
		}
		if x.Hit > 0 {
			o.NonTrivial()
		}
		o.Note("%s: exit code %d", desc, r.code)
		return nil
	}
	if c.How == "limit" {
		w := c.Whole % (n + 1)
		for _, l := range lines[:w] {
			limit += len(l)
		}
		if w < n {
			limit += (len(lines[w]) - 1) * c.Part / 1000
		}
		name := filepath.Join(dir, "out.sql")
		out, err := os.Create(name)
		if err != nil {
			die(ExitHarness, "%v", err)
		}
		r = runInto(args, dir, out, limit)
		out.Close()
		if got, err = os.ReadFile(name); err != nil {
			die(ExitHarness, "%v", err)
		}
		o.ClassIf(limit == 0, "no room")
		o.ClassIf(limit >= len(full.Out), "room for all")
		o.ClassIf(limit < len(full.Out) && w == n-1, "room for all but the last")
	} else {
		out := badStdout(c.How)
		r = runInto(args, dir, out, -1)
		out.Close()
	}
	desc := fmt.Sprintf("%s of %d statements (%d bytes) through the program, standard output %s", what, n, len(full.Out), c.How)
	if c.How == "limit" {
		desc += fmt.Sprintf(" %d bytes", limit)
	}
	if len(full.Out) <= limit || n == 0 {
		if r.code != 0 {
			return fmt.Errorf("%s: exit code %d: %.300q", desc, r.code, r.stderr)
		}
		if !bytes.Equal(got, full.Out) && c.How == "limit" {
			return fmt.Errorf("%s: %s", desc, sameRan(full, Ran{Out: got}))
		}
	} else {
		if r.code == 0 {
			return fmt.Errorf("%s: exit code 0, though statements are lost", desc)
		}
		if c.How != "gone" && len(bytes.TrimSpace(r.stderr)) == 0 {
			return fmt.Errorf("%s: fails without a message", desc)
		}
		if !bytes.HasPrefix(full.Out, got) {
			return fmt.Errorf("%s: writes what is no beginning of the statements: %s", desc, sameRan(full, Ran{Out: got}))
		}
		o.NonTrivial()
	}
	o.Note("%s: exit code %d", desc, r.code)
	return nil
}

func init() {
	Register(&Prop[OutCase]{
		ID:       "C28",
		Rule:     "a request in one of the modes over drawn files, its output given too little room (a file size limit at a drawn byte of a drawn statement), on a full device, a descriptor that is not writable, a pipe nobody reads, or a drawn write that fails or writes only a part, through the program and through the library; non-trivial: statements are expected that cannot be written",
		Quick:    12000,
		Thorough: 100000,
		Gen: func(t *rapid.T) OutCase {
			c := OutCase{World: genWorld(t, 2, 1, 0, "w"), Redo: chance(t, 40, "redo"), Recovery: rapid.Bool().Draw(t, "recovery")}
			c.Table = ints(t, 0, len(c.World.Tabs)-1, "table")
			if c.Redo {
				c.Sel = pick(t, []int{0, 1, 2, 3}, "sel")
			}
			c.How = pick(t, []string{"limit", "limit", "limit", "limit", "full", "readonly", "gone", "fault", "fault", "fault", "lib-full", "lib-readonly", "lib-gone"}, "how")
			if c.How == "limit" {
				c.Whole = ints(t, 0, 12, "whole")
				c.Part = pick(t, []int{0, 0, 1, 500, 999, 1000}, "part")
			}
			if c.How == "fault" {
				c.When = ints(t, 0, 1000, "when")
				c.Errno = pick(t, []string{"ENOSPC", "EIO", "EDQUOT", "EINTR", ""}, "errno")
				c.Keep = c.Errno != "EINTR" && chance(t, 30, "keep")
				if c.Errno == "" || chance(t, 40, "short") {
					c.Short = pick(t, []int{100, 500, 999}, "permille")
				}
			}
			return c
		},
		Run: runOutput,
		Summary: func(c *OutCase) interface{} {
			return map[string]interface{}{"redo": c.Redo, "sel": c.Sel, "recovery": c.Recovery, "how": c.How, "whole": c.Whole, "part": c.Part}
		},
		Assumptions: []string{"at log level FATAL no log file is written, so the limit is the output's"},
	})
}
