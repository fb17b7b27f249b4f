package props

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
	"pgregory.net/rapid"
)

// LeakOp is a request, and what is the matter with its files.
type LeakOp struct {
	Redo  bool `json:"redo,omitempty"`
	Mode  bool `json:"mode,omitempty"`
	Table int  `json:"table"`
	// which file: 0 the system tablespace, 1 the data file or the first log, 2 the last log
	Which int    `json:"which"`
	How   string `json:"how,omitempty"` // gone dir empty cut junk closed
	At    int    `json:"at,omitempty"`
	Name  string `json:"name,omitempty"`
	Bare  bool   `json:"bare,omitempty"` // without a system tablespace
}

// LeakCase is a sequence of requests.
type LeakCase struct {
	World World    `json:"world"`
	Ops   []LeakOp `json:"ops"`
	Keep  bool     `json:"keep,omitempty"`
	Level string   `json:"level,omitempty"`
}

// openBelow is the files below a directory this process has open, but for those
// of old (what an earlier case left open).
func openBelow(dir string, old map[string]bool) (fds map[string]bool, names []string) {
	fds = map[string]bool{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	for _, e := range es {
		if n, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (n == dir || strings.HasPrefix(n, dir+"/")) {
			fds[e.Name()] = true
			if !old[e.Name()] {
				names = append(names, strings.TrimPrefix(n, dir))
			}
		}
	}
	return
}

// running is the goroutines in the code under test.
func running() (stacks []string) {
	b := make([]byte, 1<<16)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	for i, s := range strings.Split(string(b), "\n\n") {
		if i > 0 && strings.Contains(s, "zbdba/db-recovery/recovery/") {
			stacks = append(stacks, s)
		}
	}
	return
}

func runLeak(c *LeakCase, o *Obs) error {
	setZone("UTC")
	dir := mkdir(filepath.Join(Scratch(), "leak"))
	defer os.RemoveAll(dir)
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	f := c.World.write(dir, "")
	p := ibdata.NewParse()
	started := len(running())
	step := func(i int, op LeakOp) error {
		k := op.Table % len(c.World.Tabs)
		t := &c.World.Tabs[k]
		dict, data := f.Dict, f.Data[k]
		logs := append([]string(nil), f.Logs[op.Table%len(f.Logs)]...)
		spoil := func(name *string) {
			b, err := os.ReadFile(*name)
			if err != nil {
				die(ExitHarness, "%v", err)
			}
			to := filepath.Join(dir, "spoilt")
			os.RemoveAll(to)
			switch op.How {
			case "":
				return
			case "dir":
				mkdir(to)
			case "empty":
				b = nil
			case "cut":
				b = b[:op.At%(len(b)+1)]
			case "early": // within the headers
				b = b[:min(len(b), op.At%2100)]
			case "junk":
				for j := op.At % (len(b) + 1); j < len(b); j++ {
					b[j] = byte(j*j>>3 ^ op.At)
				}
			}
			*name = to
			if op.How != "gone" && op.How != "dir" {
				if err := os.WriteFile(to, b, 0o600); err != nil {
					die(ExitHarness, "%v", err)
				}
			}
		}
		switch {
		case op.Which == 0:
			spoil(&dict)
		case !op.Redo:
			spoil(&data)
		case op.Which == 1:
			spoil(&logs[0])
		default:
			spoil(&logs[len(logs)-1])
		}
		table := t.Name + op.Name
		old, _ := openBelow(dir, nil)
		var r Ran
		switch {
		case op.Bare && op.Redo:
			r = Exec(func() error { return redo.NewParse("", "").ParseRedoLogs(logs) })
		case op.Bare:
			r = Exec(func() error { return ibdata.NewParse().ParseDataPage(data, t.Schema, table, op.Mode) })
		case op.Redo:
			r = runRedo(dict, logs, "", "")
		case c.Keep:
			r = Exec(func() error {
				if err := p.ParseDictPage(dict); err != nil {
					return err
				}
				return p.ParseDataPage(data, t.Schema, table, op.Mode)
			})
		default:
			r = runData(dict, data, t.Schema, table, op.Mode)
		}
		what := fmt.Sprintf("request %d (%s, file %d %s)", i+1, map[bool]string{true: "redo recovery", false: modeName(op.Mode)}[op.Redo], op.Which, op.How)
		if _, n := openBelow(dir, old); len(n) > 0 {
			return fmt.Errorf("%s has ended (error: %v), but %q is still open", what, r.Err, n)
		}
		var left []string
		for end := time.Now().Add(5 * time.Second); ; time.Sleep(time.Millisecond) {
			if left = running(); len(left) <= started || time.Now().After(end) {
				break
			}
		}
		if len(left) > started {
			return fmt.Errorf("%s has ended (error: %v), but goroutines are still running:\n%.1500s", what, r.Err, strings.Join(left, "\n\n"))
		}
		if r.Err != nil {
			o.Class("failed: %s", op.How)
			o.NonTrivial()
		} else if len(r.Out) > 0 {
			o.Class("printed statements")
			o.NonTrivial()
		}
		return nil
	}
	err := withLevel(c.Level, func() error {
		for i, op := range c.Ops {
			if err := step(i, op); err != nil {
				return err
			}
		}
		return nil
	})
	o.Note("%d requests", len(c.Ops))
	return err
}

func genLeak(t *rapid.T) LeakCase {
	c := LeakCase{World: genWorld(t, 2, 2, 20, "w"), Keep: rapid.Bool().Draw(t, "keep"), Level: pick(t, []string{"", "", "error", "debug"}, "level")}
	for n := ints(t, 1, 5, "ops"); n > 0; n-- {
		op := LeakOp{Redo: rapid.Bool().Draw(t, "redo"), Mode: rapid.Bool().Draw(t, "mode"), Table: ints(t, 0, 3, "table"), Which: ints(t, 0, 2, "which")}
		op.How = pick(t, []string{"", "gone", "dir", "empty", "cut", "early", "junk"}, "how")
		op.At = ints(t, 0, 1<<20, "at")
		if chance(t, 10, "other") {
			op.Name = "x"
		}
		op.Bare = chance(t, 10, "bare")
		c.Ops = append(c.Ops, op)
	}
	return c
}

func init() {
	Register(&Prop[LeakCase]{
		ID:       "C32",
		Rule:     "up to five requests of any kind by the library, of each of which one file may be missing, a directory, empty, cut (within its headers, too) or overwritten from a drawn place, or that comes without a system tablespace; after every one the open files of the process and the goroutines with code of the repository are compared with those before; non-trivial: a request failed or printed statements",
		Quick:    24000,
		Thorough: 60000,
		Gen:      genLeak,
		Run:      runLeak,
		Summary: func(c *LeakCase) interface{} {
			return map[string]interface{}{"tables": len(c.World.Tabs), "requests": c.Ops, "keep": c.Keep}
		},
		Assumptions: []string{"goroutines get up to 5 s to end", "the log library's own goroutines, started with the program, do not count"},
	})
}
