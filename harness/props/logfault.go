package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/inject"
)

// LogFaultCase is a request through the program, whose log may not be writable.
type LogFaultCase struct {
	World    World  `json:"world"`
	Redo     bool   `json:"redo,omitempty"`
	Recovery bool   `json:"recovery,omitempty"`
	Table    int    `json:"table"`
	Level    string `json:"level"`
	Dir      string `json:"dir,omitempty"`   // "" an empty directory; missing, file, below (a file), long, none (no name), used (with files of an earlier run)
	Temp     bool   `json:"temp,omitempty"`  // there is no directory for temporary files
	Op       string `json:"op,omitempty"`    // create, append
	When     int    `json:"when,omitempty"`  // number of the call that fails
	Keep     bool   `json:"keep,omitempty"`  // the later ones fail, too
	Errno    string `json:"errno,omitempty"` // "": less is written
	Short    int    `json:"short,omitempty"`
}

func runLogFault(c *LogFaultCase, o *Obs) error {
	base := mkdir(filepath.Join(Scratch(), "logfault"))
	defer os.RemoveAll(base)
	dir, logDir, temp := mkdir(filepath.Join(base, "in")), mkdir(filepath.Join(base, "logs")), mkdir(filepath.Join(base, "temp"))
	if c.Op != "" && !canInject() {
		o.Class("system calls cannot be made to fail here")
		return nil
	}
	setZone("UTC")
	f := c.World.write(dir, "")
	k := c.Table % len(c.World.Tabs)
	t := &c.World.Tabs[k]
	var full Ran
	var args []string
	what := modeName(c.Recovery)
	if c.Redo {
		what = "redo recovery"
		full = runRedo(f.Dict, f.Logs[0], "", "")
		args = []string{"recovery", "FromRedoFile", "--SysDataFile", f.Dict, "--RedoFile", strings.Join(f.Logs[0], ",")}
	} else {
		full = runData(f.Dict, f.Data[k], t.Schema, t.Name, c.Recovery)
		args = []string{"recovery", "FromDataFile", "--SysDataFile", f.Dict, "--TableDataFile", f.Data[k], "--DBName=" + t.Schema, "--TableName=" + t.Name}
		if c.Recovery {
			args = append(args, "--OpType", "RecoveryData")
		}
	}
	if err := full.ok(what); err != nil {
		return err
	}
	name := logDir
	switch c.Dir {
	case "missing":
		name = filepath.Join(base, "missing")
	case "file":
		name = filepath.Join(base, "afile")
	case "below":
		name = filepath.Join(base, "afile", "logs")
	case "long":
		name = filepath.Join(base, strings.Repeat("l", 300))
	case "none":
		name = ""
	}
	if err := os.WriteFile(filepath.Join(base, "afile"), []byte("x"), 0o600); err != nil {
		die(ExitHarness, "%v", err)
	}
	if c.Temp {
		temp = filepath.Join(base, "notemp")
	}
	args = append(args, "--LogPath="+name, "--LogLevel="+c.Level)
	fault := inject.Fault{Op: c.Op, Path: base, When: c.When, Keep: c.Keep, Errno: int(errnos[c.Errno]), Short: c.Short}
	switch c.Op {
	case "":
		fault.Op, fault.Fd = "write", -1
	case "create", "append":
		fault.Path = logDir
	}
	out, err := os.Create(filepath.Join(Scratch(), "logfault.out"))
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	defer out.Close()
	var r cliRan
	var x inject.Result
	if c.Op != "" || canInject() {
		r, x = runInjected(args, dir, out, fault, "TMPDIR="+temp)
		if x.Err != "" {
			die(ExitHarness, "tracer: %s", x.Err)
		}
	} else {
		r = runInto(args, dir, out, -1, "TMPDIR="+temp)
	}
	got, err := os.ReadFile(out.Name())
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	desc := fmt.Sprintf("%s through the program, log level %q, log directory %q", what, c.Level, c.Dir)
	if c.Temp {
		desc += ", no directory for temporary files"
	}
	if c.Op != "" {
		desc += fmt.Sprintf(", call %d to %s a file there fails (%s, short %d, later ones %v)", c.When, c.Op, c.Errno, c.Short, c.Keep)
	}
	usable := c.Dir == "" && (c.Op == "" || x.Hit == 0 || c.Errno == "" || c.Errno == "EINTR" && !c.Keep)
	if r.code == 0 {
		if !bytes.Equal(got, full.Out) {
			return fmt.Errorf("%s: exit code 0, but %s", desc, sameRan(full, Ran{Out: got}))
		}
		o.ClassIf(!usable, "succeeds nevertheless")
	} else {
		if usable {
			return fmt.Errorf("%s: nothing is wrong with the log, but the exit code is %d: %.400q", desc, r.code, r.stderr)
		}
		if len(bytes.TrimSpace(r.stderr)) == 0 {
			return fmt.Errorf("%s: exit code %d without a message", desc, r.code)
		}
		if bytes.Contains(r.stderr, []byte("goroutine ")) && bytes.Contains(r.stderr, []byte("panic")) {
			return fmt.Errorf("%s: crashes: %.600q", desc, r.stderr)
		}
		if !bytes.HasPrefix(full.Out, got) {
			return fmt.Errorf("%s: exit code %d, and what is printed is no beginning of the statements: %s", desc, r.code, sameRan(full, Ran{Out: got}))
		}
		o.Class("fails visibly")
	}
	o.Class("%s", what)
	o.ClassIf(c.Dir != "", "directory: "+c.Dir)
	o.ClassIf(x.Hit > 0, c.Op+" fails")
	o.ClassIf(c.Temp, "no temporary files")
	if len(full.Out) > 0 {
		o.NonTrivial()
	}
	o.Note("%s: exit code %d", desc, r.code)
	return nil
}

func init() {
	Register(&Prop[LogFaultCase]{
		ID:       "C33",
		Rule:     "a request in one of the modes through the program at a drawn log level, the log directory usable, missing, a file, below a file, too long or empty, with or without one for temporary files, and the opening of log files or a drawn write to them failing; non-trivial: the request prints statements",
		Quick:    9000,
		Thorough: 80000,
		Gen: func(t *rapid.T) LogFaultCase {
			c := LogFaultCase{World: genWorld(t, 2, 1, 0, "w"), Redo: chance(t, 40, "redo"), Recovery: rapid.Bool().Draw(t, "recovery")}
			c.Table = ints(t, 0, len(c.World.Tabs)-1, "table")
			c.Level = genLevel(t, "level")
			c.Dir = pick(t, []string{"", "", "", "missing", "file", "below", "long", "none"}, "dir")
			c.Temp = c.Dir != "" && chance(t, 40, "temp")
			if c.Dir == "" && chance(t, 70, "fault") {
				c.Op = pick(t, []string{"create", "append"}, "op")
				c.When = ints(t, 1, 3, "when")
				c.Keep = rapid.Bool().Draw(t, "keep")
				c.Errno = pick(t, []string{"ENOSPC", "EIO", "EACCES", "EDQUOT", "EINTR"}, "errno")
				c.Keep = c.Keep && c.Errno != "EINTR"
				if c.Op == "append" && chance(t, 30, "short") {
					c.Short = pick(t, []int{10, 500, 999}, "permille")
					if rapid.Bool().Draw(t, "noErr") {
						c.Errno = ""
					}
				}
			}
			return c
		},
		Run: runLogFault,
		Summary: func(c *LogFaultCase) interface{} {
			return map[string]interface{}{"redo": c.Redo, "recovery": c.Recovery, "level": c.Level, "dir": c.Dir, "temp": c.Temp, "op": c.Op, "when": c.When, "keep": c.Keep, "errno": c.Errno, "short": c.Short}
		},
		Assumptions: []string{"a log that cannot be written may end the program, but visibly", "where system calls of a child cannot be made to fail, those cases are skipped and counted"},
	})
}
