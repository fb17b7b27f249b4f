package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/conc"
)

// ConcReq is one of the requests that run at the same time.
type ConcReq struct {
	W        int  `json:"w"`
	Table    int  `json:"table"`
	Redo     bool `json:"redo,omitempty"`
	Recovery bool `json:"recovery,omitempty"`
	Sel      int  `json:"sel,omitempty"` // redo: 0 all, 1 the table's schema, 2 the table name, 3 both
}

// ConcCase is a set of requests on drawn files.
type ConcCase struct {
	Worlds []World   `json:"worlds"`
	Reqs   []ConcReq `json:"reqs"`
	Rounds int       `json:"rounds"`
	TZ     string    `json:"tz,omitempty"`
	Level  string    `json:"level,omitempty"`
}

// concChild is the program that runs the requests.
func concChild() (name string, race bool) {
	n := filepath.Join(filepath.Dir(theWorker.CLI), "conc")
	if _, err := os.Stat(n); err == nil {
		return n, true
	}
	return self(), false
}

// self is this program.
func self() string {
	n, err := os.Executable()
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	return n
}

func runConc(c *ConcCase, o *Obs) error {
	dir := mkdir(filepath.Join(Scratch(), "conc"))
	logDir := mkdir(filepath.Join(Scratch(), "conclogs"))
	defer os.RemoveAll(dir)
	defer os.RemoveAll(logDir)
	setZone(c.TZ)
	var files []Files
	for i := range c.Worlds {
		files = append(files, c.Worlds[i].write(dir, fmt.Sprintf("w%d_", i)))
	}
	job := conc.Job{Rounds: max(1, c.Rounds), Zone: c.TZ, Level: c.Level, LogDir: logDir}
	if job.Zone == "" {
		job.Zone = "UTC"
	}
	left := map[string]int{}
	n := 0
	for _, q := range c.Reqs {
		w := &c.Worlds[q.W]
		t := &w.Tabs[q.Table%len(w.Tabs)]
		r := conc.Req{Dict: files[q.W].Dict, Data: files[q.W].Data[q.Table%len(w.Tabs)], Schema: t.Schema, Table: t.Name, Recovery: q.Recovery}
		if q.Redo {
			r.Logs = files[q.W].Logs[0]
			if q.Sel&1 == 0 {
				r.Schema = ""
			}
			if q.Sel&2 == 0 {
				r.Table = ""
			}
		}
		alone := Exec(r.Run)
		if err := alone.ok("a request on its own"); err != nil {
			return err
		}
		k := 0
		for _, l := range bytes.Split(alone.Out, []byte("\n")) {
			if len(l) > 0 {
				left[string(l)] += job.Rounds
				k++
			}
		}
		if k > 0 {
			n++
		}
		job.Reqs = append(job.Reqs, r)
	}
	b, err := json.Marshal(job)
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	name := filepath.Join(dir, "job.json")
	if err := os.WriteFile(name, b, 0o644); err != nil {
		die(ExitHarness, "%v", err)
	}
	child, race := concChild()
retry:
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, child, name)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + Scratch(), "TMPDIR=" + Scratch(), "USER=root", "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "VERIF_CONCCHILD=" + name}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	code := 0
	if err := cmd.Run(); err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			die(ExitHarness, "cannot run %s: %v", child, err)
		}
		if race && strings.Contains(se.String(), "FATAL: ThreadSanitizer") { // the detector does not work here
			child, race = self(), false
			cancel()
			goto retry
		}
		if code = ee.ExitCode(); code == 99 {
			die(ExitHarness, "%s", se.Bytes())
		}
		if code == 0 {
			code = -1
		}
	}
	desc := fmt.Sprintf("%d requests at the same time, %d rounds", len(job.Reqs), job.Rounds)
	if bytes.Contains(se.Bytes(), []byte("WARNING: DATA RACE")) {
		return fmt.Errorf("%s: data race: %.1500s", desc, se.Bytes())
	}
	if code != 0 {
		return fmt.Errorf("%s: exit code %d: %.1000s", desc, code, se.Bytes())
	}
	for _, l := range bytes.Split(so.Bytes(), []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		if left[string(l)] == 0 {
			return fmt.Errorf("%s: a statement that none of them prints on its own, or too often: %.400q", desc, l)
		}
		left[string(l)]--
	}
	for l, k := range left {
		if k > 0 {
			return fmt.Errorf("%s: %d times missing: %.400q", desc, k, l)
		}
	}
	o.ClassIf(race, "with the race detector")
	o.ClassIf(len(c.Worlds) > 1, "several system tablespaces")
	for _, q := range c.Reqs {
		switch {
		case q.Redo:
			o.Class("redo recovery")
		default:
			o.Class("%s", modeName(q.Recovery))
		}
	}
	if n > 1 {
		o.NonTrivial()
	}
	o.Note("%s, %d of them print statements", desc, n)
	return nil
}

func init() {
	Register(&Prop[ConcCase]{
		ID:       "C30",
		Rule:     "two to six requests of all modes on the files of one or two system tablespaces, each on a parser of its own, run by goroutines of one process at the same time, several rounds, under the race detector; non-trivial: at least two of them print statements",
		Quick:    4000,
		Thorough: 12000,
		Gen: func(t *rapid.T) ConcCase {
			var c ConcCase
			for i := ints(t, 1, 2, "worlds"); i > 0; i-- {
				c.Worlds = append(c.Worlds, genWorld(t, 2, 1, 0, fmt.Sprintf("w%d", i)))
			}
			for i := ints(t, 2, 6, "reqs"); i > 0; i-- {
				q := ConcReq{W: ints(t, 0, len(c.Worlds)-1, "w"), Table: ints(t, 0, 1, "table"), Redo: chance(t, 40, "redo"), Recovery: rapid.Bool().Draw(t, "recovery")}
				if q.Redo {
					q.Sel = ints(t, 0, 3, "sel")
				}
				c.Reqs = append(c.Reqs, q)
			}
			c.Rounds = ints(t, 1, 3, "rounds")
			c.TZ = pick(t, []string{"UTC", "America/New_York", "Asia/Kolkata"}, "tz")
			c.Level = pick(t, []string{"", "", "", "error", "debug"}, "level")
			return c
		},
		Run: runConc,
		Summary: func(c *ConcCase) interface{} {
			return map[string]interface{}{"requests": c.Reqs, "rounds": c.Rounds, "worlds": len(c.Worlds)}
		},
		Assumptions: []string{"logs are set up before the requests start"},
	})
}
