package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"pgregory.net/rapid"

	"verif/inject"
)

// FaultCase is a request through the program, of which a read fails.
type FaultCase struct {
	World    World  `json:"world"`
	Redo     bool   `json:"redo,omitempty"`
	Recovery bool   `json:"recovery,omitempty"`
	Table    int    `json:"table"`
	Sel      int    `json:"sel,omitempty"` // redo: 0 all, 1 the table's schema, 2 the table name, 3 both
	Target   string `json:"target"`        // dict data log0 log1
	At       int    `json:"at"`            // permille of the file's reads
	Errno    string `json:"errno"`
	Keep     bool   `json:"keep,omitempty"`  // later reads fail, too
	Open     bool   `json:"open,omitempty"`  // opening fails
	Short    int    `json:"short,omitempty"` // permille of what is asked for that the read delivers, then the next fails (no errno: none does)
}

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "ESTALE": syscall.ESTALE, "ENXIO": syscall.ENXIO, "EINTR": syscall.EINTR,
	"EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "ENOSPC": syscall.ENOSPC, "EDQUOT": syscall.EDQUOT}

func runFault(c *FaultCase, o *Obs) error {
	if !canInject() {
		o.Class("system calls cannot be made to fail here")
		return nil
	}
	dir := mkdir(filepath.Join(Scratch(), "fault"))
	logDir := mkdir(filepath.Join(Scratch(), "faultlogs"))
	defer os.RemoveAll(dir)
	defer os.RemoveAll(logDir)
	setZone("UTC")
	f := c.World.write(dir, "")
	k := c.Table % len(c.World.Tabs)
	t := &c.World.Tabs[k]
	what := modeName(c.Recovery)
	target := f.Dict
	step := 16384
	var args []string
	var full Ran
	if c.Redo {
		what = "redo recovery"
		var schema, table string
		if c.Sel&1 != 0 {
			schema = t.Schema
		}
		if c.Sel&2 != 0 {
			table = t.Name
		}
		full = runRedo(f.Dict, f.Logs[0], schema, table)
		args = []string{"recovery", "FromRedoFile", "--SysDataFile", f.Dict, "--RedoFile", strings.Join(f.Logs[0], ",")}
		if schema != "" {
			args = append(args, "--DBName="+schema)
		}
		if table != "" {
			args = append(args, "--TableName="+table)
		}
		if i := strings.TrimPrefix(c.Target, "log"); i != c.Target {
			target, step = f.Logs[0][int(i[0]-'0')%len(f.Logs[0])], 512
		}
	} else {
		full = runData(f.Dict, f.Data[k], t.Schema, t.Name, c.Recovery)
		args = []string{"recovery", "FromDataFile", "--SysDataFile", f.Dict, "--TableDataFile", f.Data[k], "--DBName=" + t.Schema, "--TableName=" + t.Name}
		if c.Recovery {
			args = append(args, "--OpType", "RecoveryData")
		}
		if c.Target == "data" {
			target = f.Data[k]
		}
	}
	if err := full.ok(what); err != nil {
		return err
	}
	args = append(args, "--LogPath", logDir, "--LogLevel", "FATAL")
	st, err := os.Stat(target)
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	when := 1 + (int(st.Size())/step+1)*c.At/1000
	fault := inject.Fault{Op: "read", Path: target, When: when, Keep: c.Keep, Errno: int(errnos[c.Errno]), Short: c.Short}
	if c.Open {
		fault.Op, fault.When = "open", 1
	}
	out, err := os.Create(filepath.Join(Scratch(), "fault.out"))
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	defer out.Close()
	r, x := runInjected(args, dir, out, fault)
	if x.Err != "" {
		die(ExitHarness, "tracer: %s", x.Err)
	}
	so, err := os.ReadFile(out.Name())
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	se, code, hit := r.stderr, r.code, x.Hit > 0
	how := "fails with " + c.Errno
	if c.Short > 0 {
		how = fmt.Sprintf("delivers %d permille", c.Short)
		if c.Errno != "" {
			how += ", the next fails with " + c.Errno
		}
	}
	if c.Keep {
		how += ", later ones, too"
	}
	what = fmt.Sprintf("%s through the program, %s of %s (%d bytes): number %d %s", what, map[bool]string{false: "reading", true: "opening"}[c.Open], filepath.Base(target), st.Size(), fault.When, how)
	harmless := c.Errno == "" || c.Errno == "EINTR" && !c.Keep
	if code == 0 {
		if !bytes.Equal(so, full.Out) {
			return fmt.Errorf("%s: exit code 0, but %s", what, sameRan(full, Ran{Out: so}))
		}
		if hit && !harmless {
			o.Class("succeeds nevertheless")
		}
	} else {
		if !hit {
			return fmt.Errorf("%s: nothing failed, but the exit code is %d: %.300q", what, code, se)
		}
		if len(bytes.TrimSpace(se)) == 0 {
			return fmt.Errorf("%s: exit code %d without a message", what, code)
		}
		if bytes.Contains(se, []byte("goroutine ")) && bytes.Contains(se, []byte("panic")) {
			return fmt.Errorf("%s: crashes: %.600q", what, se)
		}
		left := map[string]int{}
		for _, l := range sortedLines(full.Out) {
			left[l]++
		}
		for _, l := range sortedLines(so) {
			if left[l] == 0 {
				return fmt.Errorf("%s: prints a statement that it does not print for the intact file: %.300q", what, l)
			}
			left[l]--
		}
		if harmless {
			return fmt.Errorf("%s: what is no error is taken for one: %.300q", what, se)
		}
	}
	o.Class("%s of %s", map[bool]string{false: "read", true: "open"}[c.Open], strings.TrimRight(c.Target, "01"))
	o.ClassIf(c.Errno != "", c.Errno)
	o.ClassIf(c.Short > 0, "short read")
	o.ClassIf(hit, "fault reached")
	o.ClassIf(hit && c.At == 0, "first read")
	o.ClassIf(hit && !c.Open && int(st.Size())/step <= when, "read of the end")
	if hit && len(full.Out) > 0 {
		o.NonTrivial()
	}
	o.Note("%s: exit code %d", what, code)
	return nil
}

func init() {
	Register(&Prop[FaultCase]{
		ID:       "C31",
		Rule:     "a request in one of the modes through the program under a tracer, which makes a drawn read (or the opening) of one of its files fail with EIO or another error, once or from then on, or deliver only a part (and the next fail, or nothing fail); non-trivial: the fault was reached and the request prints statements without it",
		Quick:    8000,
		Thorough: 80000,
		Gen: func(t *rapid.T) FaultCase {
			c := FaultCase{World: genWorld(t, 2, 1, 0, "w"), Redo: chance(t, 50, "redo"), Recovery: rapid.Bool().Draw(t, "recovery")}
			c.Table = ints(t, 0, len(c.World.Tabs)-1, "table")
			if c.Redo {
				c.Sel = pick(t, []int{0, 0, 1, 2, 3}, "sel")
				c.Target = pick(t, []string{"log0", "log0", "log1", "log2", "dict"}, "target")
			} else {
				c.Target = pick(t, []string{"data", "data", "dict"}, "target")
			}
			c.At = ints(t, 0, 1000, "at")
			if chance(t, 20, "edge") {
				c.At = pick(t, []int{0, 1000, 999}, "atEdge")
			}
			c.Errno = pick(t, []string{"EIO", "EIO", "EIO", "ESTALE", "ENXIO", "EINTR"}, "errno")
			c.Keep = c.Errno != "EINTR" && rapid.Bool().Draw(t, "keep")
			if chance(t, 40, "short") {
				c.Short = pick(t, []int{1, 250, 500, 750, 999}, "permille")
				if rapid.Bool().Draw(t, "noErr") {
					c.Errno = ""
					if c.Keep && c.Short < 100 {
						c.Short = 100
					}
				}
			}
			if chance(t, 10, "open") {
				c.Open, c.Keep, c.Short = true, false, 0
				c.Errno = pick(t, []string{"EACCES", "EMFILE", "EIO"}, "openErrno")
			}
			return c
		},
		Run: runFault,
		Summary: func(c *FaultCase) interface{} {
			return map[string]interface{}{"redo": c.Redo, "sel": c.Sel, "recovery": c.Recovery, "target": c.Target, "at": c.At, "errno": c.Errno, "short": c.Short, "keep": c.Keep, "open": c.Open}
		},
		Assumptions: []string{"a case whose fault is not reached is an ordinary request", "where system calls of a child cannot be made to fail, the cases are skipped and counted"},
	})
}
