package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/idb"
)

// ScaleCase is a request of which one dimension grows.
type ScaleCase struct {
	World    World  `json:"world"` // two tables, one log
	Grow     string `json:"grow"`  // tables plain pages noise records bytes files
	Redo     bool   `json:"redo,omitempty"`
	Recovery bool   `json:"recovery,omitempty"`
	Sel      int    `json:"sel,omitempty"` // redo: 0 all, 1 the table's schema, 2 the table name, 3 both
	N        int    `json:"n"`             // size of the smaller request
	Seed     uint64 `json:"seed"`
}

const scaleTimes = 16

// measure runs the program and returns what it prints and its processor time.
func measure(args []string) (out []byte, cpu time.Duration, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	x := exec.CommandContext(ctx, theWorker.CLI, args...)
	x.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + Scratch(), "TMPDIR=" + Scratch(), "TZ=UTC", "USER=root"}
	x.Dir = Scratch()
	var so, se bytes.Buffer
	x.Stdout, x.Stderr = &so, &se
	e := x.Run()
	if ctx.Err() != nil {
		return nil, 0, fmt.Errorf("not finished within 90 seconds")
	}
	if e != nil {
		var ee *exec.ExitError
		if !errors.As(e, &ee) {
			die(ExitHarness, "cannot run %s: %v", theWorker.CLI, e)
		}
		return nil, 0, fmt.Errorf("%v: %.300q", e, se.Bytes())
	}
	return so.Bytes(), x.ProcessState.UserTime() + x.ProcessState.SystemTime(), nil
}

// write makes the files of the request with the growing part repeated; unit
// is the number of times the statements are repeated.
func (c *ScaleCase) write(dir string, n int) (args []string, unit int) {
	w := c.World
	w.Pages = append([][]Page(nil), w.Pages...)
	unit = 1
	switch c.Grow {
	case "tables":
		d := DictCase{Tabs: w.Tabs, Bulk: n, BulkSd: c.Seed}
		w.Tabs = d.all()
		for len(w.Pages) < len(w.Tabs) {
			w.Pages = append(w.Pages, nil)
		}
	case "plain":
		w.Tabs = append([]idb.Table(nil), w.Tabs...)
		last := w.Tabs[0]
		for _, t := range w.Tabs {
			last.ID, last.ClustID, last.Space = max(last.ID, t.ID), max(last.ClustID, t.ClustID), max(last.Space, t.Space)
			for _, s := range t.Sec {
				last.ClustID = max(last.ClustID, s.ID)
			}
		}
		for i := 1; i <= n; i++ {
			w.Tabs = append(w.Tabs, idb.Table{ID: last.ID + uint64(i), ClustID: last.ClustID + uint64(i), Space: last.Space + uint32(i), Schema: "plain", Name: fmt.Sprint("p", i), Key: "none", Cols: []idb.Col{{Name: "c", Kind: "int", Size: 4}}})
		}
		for len(w.Pages) < len(w.Tabs) {
			w.Pages = append(w.Pages, nil)
		}
	case "pages":
		unit = (n + len(w.Pages[0]) - 1) / len(w.Pages[0])
		var ps []Page
		for i := 0; i < unit; i++ {
			ps = append(ps, w.Pages[0]...)
		}
		w.Pages[0] = ps
	case "noise":
		r := idb.Rng(c.Seed)
		kinds := []string{"zero", "blob", "sec", "node", "other"}
		ps := append([]Page(nil), w.Pages[0]...)
		for i := 0; i < n; i++ {
			ps = append(ps, Page{Kind: kinds[r.Intn(len(kinds))], Seed: r.Next(), N: r.Intn(100)})
		}
		w.Pages[0] = ps
	}
	dict := writeAt(dir, "ibdata1", idb.File(idb.BuildDict(w.Tabs, w.Layout)))
	t := &w.Tabs[0]
	if !c.Redo {
		d := DataCase{Tabs: w.Tabs[:1], Pages: w.Pages[0]}
		data := writeAt(dir, "t.ibd", idb.File(dataPages(&d)))
		args = []string{"recovery", "FromDataFile", "--SysDataFile", dict, "--TableDataFile", data, "--DBName=" + t.Schema, "--TableName=" + t.Name}
		if c.Recovery {
			args = append(args, "--OpType=RecoveryData")
		}
	} else {
		b, _ := stream(c.World.Tabs, w.Logs[0])
		cut := w.Cut[0]
		switch c.Grow {
		case "records":
			unit = (n + len(w.Logs[0]) - 1) / len(w.Logs[0])
			b = bytes.Repeat(b, unit)
		case "bytes": // records of other kinds
			r := idb.Rng(c.Seed)
			var fill []byte
			for i := 0; i < n; i++ {
				l := idb.LogRec{T: idb.MlogString, Space: uint32(r.Intn(1 << 10)), Page: uint32(r.Intn(1 << 20)), Seed: r.Next(), N: r.Intn(60)}
				fill = append(fill, l.Bytes(nil)...)
			}
			b = append(fill, b...)
		case "files":
			cut.Files = nil
			for i := 0; i < n; i++ {
				cut.Files = append(cut.Files, 1)
			}
		}
		var names []string
		for j, x := range logFiles(b, cut) {
			names = append(names, writeAt(dir, fmt.Sprintf("l%d", j), x))
		}
		args = []string{"recovery", "FromRedoFile", "--SysDataFile", dict, "--RedoFile", strings.Join(names, ",")}
		if c.Sel&1 != 0 {
			args = append(args, "--DBName="+t.Schema)
		}
		if c.Sel&2 != 0 {
			args = append(args, "--TableName="+t.Name)
		}
	}
	return append(args, "--LogPath="+mkdir(filepath.Join(dir, "logs")), "--LogLevel=FATAL"), unit
}

func runScale(c *ScaleCase, o *Obs) error {
	dir := mkdir(filepath.Join(Scratch(), "scale"))
	defer os.RemoveAll(dir)
	what := modeName(c.Recovery)
	if c.Redo {
		what = "redo recovery"
	}
	var outs [3][]string
	var cpus [3]time.Duration
	var args [3][]string
	var size [3]int64
	units := 1
	for i, n := range []int{1, c.N, c.N * scaleTimes} {
		d := mkdir(filepath.Join(dir, fmt.Sprint(i)))
		var a []string
		var unit int
		theWorker.unwatched(func() { a, unit = c.write(d, n) })
		size[i] = diskUse(d)
		out, cpu, err := measure(a)
		if err != nil {
			return fmt.Errorf("%s, %d %s: %v", what, n, c.Grow, err)
		}
		ls, err := splitLines(out)
		if err != nil {
			return fmt.Errorf("%s, %d %s: %v", what, n, c.Grow, err)
		}
		for _, l := range ls {
			outs[i] = append(outs[i], string(l))
		}
		cpus[i], args[i] = cpu, a
		if i == 0 {
			units = unit
			continue
		}
		var want []string
		for k := 0; k < unit/units; k++ {
			want = append(want, outs[0]...)
		}
		got := append([]string(nil), outs[i]...)
		if !c.Redo {
			sort.Strings(want)
			sort.Strings(got)
		}
		if len(got) != len(want) {
			return fmt.Errorf("%s, %d %s: %d statements instead of %d", what, n, c.Grow, len(got), len(want))
		}
		for k := range got {
			if got[k] != want[k] {
				return fmt.Errorf("%s, %d %s: statement %d is %.200q instead of %.200q", what, n, c.Grow, k+1, got[k], want[k])
			}
		}
	}
	// Proportional growth takes 16 times as long, quadratic 256 times. Only
	// the least of several measurements counts, as other work disturbs them.
	const times, slack, tries = 5 * scaleTimes / 2, 250 * time.Millisecond, 4
	limit := func() time.Duration { return times*max(cpus[1]-cpus[0], 0) + cpus[0] + slack }
	for k := 1; k < tries && cpus[2] > limit(); k++ {
		for i := 2; i >= 1; i-- {
			_, cpu, err := measure(args[i])
			if err != nil {
				return fmt.Errorf("%s, repeated: %v", what, err)
			}
			if i == 1 { // the longest is the fair one to compare with
				cpus[i] = max(cpus[i], cpu)
			} else {
				cpus[i] = min(cpus[i], cpu)
			}
		}
	}
	desc := fmt.Sprintf("%s: %v for %d bytes, %v for %d (%d %s), %v for %d (%d)", what, cpus[0], size[0], cpus[1], size[1], c.N, c.Grow, cpus[2], size[2], c.N*scaleTimes)
	if cpus[2] > limit() {
		return fmt.Errorf("%s: more than proportional to the size", desc)
	}
	o.Class("%s: %s grow", what, c.Grow)
	o.ClassIf(len(outs[2]) > len(outs[0]), "statements grow")
	if cpus[2]-cpus[0] > 10*time.Millisecond {
		o.NonTrivial()
	}
	o.Note("%s", desc)
	return nil
}

// diskUse is the size of the files in a directory.
func diskUse(dir string) (n int64) {
	es, err := os.ReadDir(dir)
	if err != nil {
		die(ExitHarness, "%v", err)
	}
	for _, e := range es {
		if st, err := e.Info(); err == nil && st.Mode().IsRegular() {
			n += st.Size()
		}
	}
	return n
}

var scaleSizes = map[string]int{"tables": 120, "plain": 1000, "pages": 240, "noise": 160, "records": 1500, "bytes": 8000, "files": 6}

func init() {
	Register(&Prop[ScaleCase]{
		ID:       "C34",
		Rule:     "a request in one of the modes through the program, in three sizes: its tables (of all kinds, or of one column), data pages, other pages, log records of updates, other log records or log files are multiplied, the last two sizes 16 times apart; non-trivial: the largest takes at least 10 ms more than the smallest",
		Quick:    240,
		Thorough: 3000,
		Gen: func(t *rapid.T) ScaleCase {
			c := ScaleCase{World: genWorld(t, 2, 1, 0, "w"), Seed: seed(t, "seed")}
			c.Redo = chance(t, 60, "redo")
			if c.Redo {
				c.Grow = pick(t, []string{"records", "bytes", "files", "tables", "plain"}, "growRedo")
				c.Sel = ints(t, 0, 3, "sel")
			} else {
				c.Grow = pick(t, []string{"pages", "noise", "tables", "plain"}, "growData")
				c.Recovery = rapid.Bool().Draw(t, "recovery")
			}
			if c.Grow == "records" && len(c.World.Logs[0]) == 0 {
				c.Grow = "bytes"
			}
			if c.Grow == "pages" && len(c.World.Pages[0]) == 0 {
				c.Grow = "noise"
			}
			c.N = scaleSizes[c.Grow]
			if chance(t, 40, "larger") {
				c.N = c.N * ints(t, 11, 30, "factor") / 10
				switch c.Grow {
				case "files": // no more than MySQL allows
					c.N = 6
				case "tables": // what the harness needs memory for
					c.N = scaleSizes[c.Grow] + 20
				case "pages", "noise":
					c.N = min(c.N, 350)
				}
			}
			return c
		},
		Run: runScale,
		Summary: func(c *ScaleCase) interface{} {
			return map[string]interface{}{"redo": c.Redo, "recovery": c.Recovery, "grow": c.Grow, "n": c.N}
		},
		Assumptions: []string{"processor time of the program as the system accounts it; the limit is two and a half times what proportional growth takes plus 0.25 s, after four measurements"},
	})
}
