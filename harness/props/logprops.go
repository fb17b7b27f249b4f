package props

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/zbdba/db-recovery/recovery/logs"
	"pgregory.net/rapid"
)

// LogOp sets a level or writes a message.
type LogOp struct {
	Level string   `json:"level,omitempty"`
	Init  bool     `json:"init,omitempty"`
	Sev   string   `json:"sev,omitempty"` // trace debug info warn error fatal
	F     bool     `json:"f,omitempty"`   // the formatting variant
	Args  []string `json:"args,omitempty"`
	Times int      `json:"times,omitempty"` // written so many times more, one after the other
	Par   int      `json:"par,omitempty"`   // written by so many goroutines more at the same time
}

// count tells how often the message is written.
func (op *LogOp) count() int { return (1 + op.Times) * (1 + op.Par) }

// LogCase is a run of a process that logs.
type LogCase struct {
	Ops  []LogOp `json:"ops"`
	Deep bool    `json:"deep,omitempty"` // a log directory with an unusual name
	Path string  `json:"path,omitempty"` // set for the child
}

var sevRank = map[string]int{"fatal": 0, "error": 1, "warn": 2, "info": 3, "debug": 4, "trace": 5}

// LogChild runs the operations; it is the whole of a child process.
func LogChild(file string) {
	flag.CommandLine.Parse(nil)
	b, err := os.ReadFile(file)
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	var c LogCase
	if err := json.Unmarshal(b, &c); err != nil {
		die(ExitHarness, "%v", err)
	}
	plain := map[string]func(...interface{}){"trace": logs.Trace, "debug": logs.Debug, "info": logs.Info, "warn": logs.Warn, "error": logs.Error, "fatal": logs.Fatal}
	format := map[string]func(string, ...interface{}){"debug": logs.Debugf, "info": logs.Infof, "warn": logs.Warnf, "error": logs.Errorf, "fatal": logs.Fatalf}
	for i, op := range c.Ops {
		if op.Init {
			if err := logs.InitLogs(c.Path, op.Level); err != nil {
				die(ExitHarness, "InitLogs: %v", err)
			}
			continue
		}
		var wg sync.WaitGroup
		write := func() {
			defer wg.Done()
			for k := 0; k <= op.Times; k++ {
				if op.F {
					f, a := logFormat(i, op)
					format[op.Sev](f, a...)
				} else {
					plain[op.Sev](logArgs(i, op)...)
				}
			}
		}
		wg.Add(1 + op.Par)
		for k := 0; k < op.Par; k++ {
			go write()
		}
		write()
		wg.Wait()
	}
	logs.FlushLogs()
	os.Exit(0)
}

func mark(i int) string { return fmt.Sprintf("mark<%d>", i) }

func logVal(s string) interface{} {
	switch {
	case s == "nil":
		return nil
	case strings.HasPrefix(s, "i:"):
		n := 0
		fmt.Sscan(s[2:], &n)
		return n
	case strings.HasPrefix(s, "e:"):
		return errors.New(s[2:])
	case strings.HasPrefix(s, "f:"):
		f := 0.0
		fmt.Sscan(s[2:], &f)
		return f
	case strings.HasPrefix(s, "b:"):
		return []byte(s[2:])
	case strings.HasPrefix(s, "u:"):
		return uint64(len(s)) << 40
	case strings.HasPrefix(s, "long:"):
		n := 0
		fmt.Sscan(s[5:], &n)
		return strings.Repeat("0123456789abcdef", n/16+1)[:n]
	}
	return s
}

func logArgs(i int, op LogOp) []interface{} {
	a := []interface{}{mark(i)}
	for _, s := range op.Args {
		a = append(a, logVal(s))
	}
	return a
}

func logFormat(i int, op LogOp) (string, []interface{}) {
	f := mark(i) + " 100%%"
	var a []interface{}
	for _, s := range op.Args {
		v := logVal(s)
		switch v.(type) {
		case int, uint64:
			f += " n=%d"
		case []byte:
			f += " %x"
		case string:
			f += " '%s'"
		default:
			f += " %v"
		}
		a = append(a, v)
	}
	return f, a
}

func logText(i int, op LogOp) string {
	if op.F {
		f, a := logFormat(i, op)
		s := fmt.Sprintf(f, a...)
		if !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		return s
	}
	return fmt.Sprintln(logArgs(i, op)...)
}

var reLogHead = regexp.MustCompile(`^([IWEF])[0-9]{4} [0-9:.]+ +[0-9]+ [^\]\n]*\] $`)

func runLog(c *LogCase, o *Obs) error {
	base := mkdir(filepath.Join(Scratch(), "logcase"))
	defer os.RemoveAll(base)
	name := "logs"
	if c.Deep {
		name = "my logs/level=2,x/é"
	}
	dir := mkdir(filepath.Join(base, name))
	home, tmp, cwd := mkdir(filepath.Join(base, "home")), mkdir(filepath.Join(base, "tmp")), mkdir(filepath.Join(base, "cwd"))
	c.Path = dir
	b, _ := json.Marshal(c)
	c.Path = ""
	spec := writeFile("logspec.json", b)
	exe, err := os.Executable()
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	unique := fmt.Sprintf("vlog%d_%d", os.Getpid(), theWorker.caseNo)
	cmd := exec.Command(exe)
	cmd.Args = []string{unique}
	cmd.Dir = cwd
	cmd.Env = []string{"VERIF_LOGCHILD=" + spec, "HOME=" + home, "TMPDIR=" + tmp, "PATH=/usr/bin:/bin", "USER=tester"}
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		die(ExitHarness, "%v", err)
	}
	timer := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	code := cmd.ProcessState.ExitCode()
	if code == ExitHarness {
		die(ExitHarness, "log child: %s", se.String())
	}
	// what has to be written
	level := -1
	fatal := false
	type msg struct {
		i    int
		op   LogOp
		want bool
	}
	var msgs []msg
	for i, op := range c.Ops {
		if op.Init {
			l, ok := sevRank[strings.ToLower(op.Level)]
			if !ok {
				l = 3
				o.Class("unknown level name")
			}
			level = l
			o.Class("level %d", l)
			continue
		}
		if fatal {
			msgs = append(msgs, msg{i, op, false})
			continue
		}
		want := sevRank[op.Sev] <= level
		msgs = append(msgs, msg{i, op, want})
		fatal = fatal || want && op.Sev == "fatal"
		o.Class("message %s %v", op.Sev, map[bool]string{true: "written", false: "held back"}[want])
	}
	if fatal != (code != 0) {
		return fmt.Errorf("exit code %d; a fatal message: %v; %.300s", code, fatal, se.String())
	}
	if so.Len() > 0 {
		return fmt.Errorf("standard output holds %.200q", so.String())
	}
	// what was written, per severity file
	text := map[string]string{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return fmt.Errorf("the log directory: %v", err)
	}
	for _, e := range ents {
		if e.Type()&os.ModeSymlink != 0 {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return err
		}
		for _, s := range []string{"INFO", "WARNING", "ERROR", "FATAL"} {
			if strings.Contains(e.Name(), ".log."+s+".") {
				text[s] += string(b)
			}
		}
	}
	written := 0
	for _, m := range msgs {
		body := logText(m.i, m.op)
		letter := map[string]string{"trace": "I", "debug": "I", "info": "I", "warn": "W", "error": "E", "fatal": "F"}[m.op.Sev]
		what := fmt.Sprintf("message %d (%s, formatted: %v)", m.i+1, m.op.Sev, m.op.F)
		all := text["INFO"]
		n := strings.Count(all, mark(m.i))
		if !m.want {
			for s, x := range text {
				if strings.Contains(x, mark(m.i)) {
					return fmt.Errorf("%s is written to the %s log though it is beyond the level", what, s)
				}
			}
			continue
		}
		written++
		times := m.op.count()
		o.ClassIf(m.op.Times > 0, "a message several times")
		o.ClassIf(m.op.Par > 0, "a message from several goroutines")
		if n != times {
			return fmt.Errorf("%s is written %d times to the log instead of %d times; level rank %d; stderr %.200q", what, n, times, level, se.String())
		}
		for at := 0; ; at++ {
			k := strings.Index(all[at:], mark(m.i))
			if k < 0 {
				break
			}
			at += k
			if !strings.HasPrefix(all[at:], body) {
				return fmt.Errorf("%s reads %.200q instead of %.200q", what, all[at:], body)
			}
			line := all[strings.LastIndex(all[:at], "\n")+1 : at]
			h := reLogHead.FindStringSubmatch(line)
			if h == nil || h[1] != letter {
				return fmt.Errorf("%s is written under %q instead of severity %s", what, line, letter)
			}
		}
		// the files of the higher severities
		for s, min := range map[string]string{"WARNING": "WEF", "ERROR": "EF", "FATAL": "F"} {
			want := 0
			if strings.Contains(min, letter) {
				want = times
			}
			if k := strings.Count(text[s], mark(m.i)); k != want {
				return fmt.Errorf("%s is %d times in the %s log instead of %d times", what, k, s, want)
			}
		}
	}
	for _, d := range []string{home, tmp, cwd} {
		if x, _ := os.ReadDir(d); len(x) > 0 {
			return fmt.Errorf("log files outside the configured path: %s in %s", x[0].Name(), filepath.Base(d))
		}
	}
	if x, _ := filepath.Glob("/tmp/" + unique + "*"); len(x) > 0 {
		for _, n := range x {
			os.Remove(n)
		}
		return fmt.Errorf("log files outside the configured path: %s", x[0])
	}
	outer := filepath.Dir(dir)
	if x, _ := os.ReadDir(outer); c.Deep && len(x) != 1 {
		return fmt.Errorf("%d entries beside the configured path", len(x))
	}
	if x, _ := os.ReadDir(base); len(x) != 4 {
		return fmt.Errorf("%d entries beside the log directory", len(x))
	}
	if written > 0 && written < len(msgs) {
		o.NonTrivial()
	}
	o.ClassIf(fatal, "ends with a fatal message")
	o.Note("%d of %d messages written", written, len(msgs))
	return nil
}

func genLevel(t *rapid.T, label string) string {
	s := pick(t, []string{"trace", "debug", "info", "warn", "error", "fatal", "x"}, label)
	if s == "x" {
		return pick(t, []string{"", "warning", "err", "0", "5", "-1", " debug", "debug ", "all", "none", "inf", "traces"}, label+"Odd")
	}
	b := []byte(s)
	switch ints(t, 0, 3, label+"Case") {
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.ToUpper(s[:1]) + s[1:]
	case 3:
		for i := range b {
			if rapid.Bool().Draw(t, label+"Up") {
				b[i] -= 32
			}
		}
		s = string(b)
	}
	return s
}

func genLogMsg(t *rapid.T, sev string) LogOp {
	op := LogOp{Sev: sev, F: sev != "trace" && rapid.Bool().Draw(t, "f")}
	for k := ints(t, 0, 4, "args"); k > 0; k-- {
		op.Args = append(op.Args, pick(t, []string{"text", "two words", "", "i:0", "i:-17", "e:broken", "f:1.5", "nil", "b:bytes", "u:x", "100%", "%s %d", "é", "line\nline", "long:300", "long:4096", "long:70000"}, "arg"))
	}
	if sev != "fatal" {
		if chance(t, 15, "repeat") {
			op.Times = ints(t, 1, 3, "times")
		}
		if chance(t, 10, "parallel") {
			op.Par = ints(t, 1, 5, "par")
		}
	}
	return op
}

func init() {
	Register(&Prop[LogCase]{
		ID:       "C24",
		Rule:     "a process that sets a level (any name, any letter case, possibly several times) and writes messages of all severities in both forms with various arguments; its log files are read back; non-trivial: some messages have to appear and some must not",
		Quick:    4500,
		Thorough: 20000,
		Sweep: func(th bool) []LogCase {
			var out []LogCase
			for _, l := range []string{"trace", "debug", "info", "warn", "error", "fatal", "TRACE", "Debug", "iNFO", "WARN", "Error", "FATAL", "", "unknown"} {
				c := LogCase{Ops: []LogOp{{Init: true, Level: l}}}
				for k := 0; k < 2; k++ {
					for _, s := range []string{"trace", "debug", "info", "warn", "error"} {
						c.Ops = append(c.Ops, LogOp{Sev: s, Args: []string{"a", "i:1"}})
						if s != "trace" {
							c.Ops = append(c.Ops, LogOp{Sev: s, F: true, Args: []string{"b", "i:2"}})
						}
					}
				}
				out = append(out, c)
				for _, f := range []bool{false, true} {
					d := LogCase{Ops: append(append([]LogOp(nil), c.Ops...), LogOp{Sev: "fatal", F: f, Args: []string{"end"}})}
					out = append(out, d)
				}
			}
			return out
		},
		Gen: func(t *rapid.T) LogCase {
			c := LogCase{Deep: chance(t, 20, "deep")}
			c.Ops = append(c.Ops, LogOp{Init: true, Level: genLevel(t, "level")})
			for n := ints(t, 1, 14, "ops"); n > 0; n-- {
				if chance(t, 10, "again") {
					c.Ops = append(c.Ops, LogOp{Init: true, Level: genLevel(t, "level")})
					continue
				}
				c.Ops = append(c.Ops, genLogMsg(t, pick(t, []string{"trace", "debug", "info", "warn", "error"}, "sev")))
			}
			if chance(t, 15, "fatal") {
				c.Ops = append(c.Ops, genLogMsg(t, "fatal"))
			}
			return c
		},
		Run:         runLog,
		Assumptions: []string{"the configured log directory exists and is writable"},
	})
}
