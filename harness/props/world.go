package props

import (
	"bytes"
	"crypto/sha256"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/logs"
	"github.com/zbdba/db-recovery/recovery/redo"
	"pgregory.net/rapid"

	"verif/idb"
	"verif/sqlp"
)

// World is a system tablespace with the data files of its tables and redo logs.
type World struct {
	Tabs   []idb.Table    `json:"tabs"`
	Layout idb.DictLayout `json:"layout"`
	Pages  [][]Page       `json:"pages"`
	Damage [][]Damage     `json:"damage,omitempty"` // per table
	Logs   [][]idb.LogRec `json:"logs"`
	Cut    []LogCut       `json:"cut"`
	LogEnd []int          `json:"logend,omitempty"` // >0: random bytes follow the log's stream
}

// Files are the names of a written world.
type Files struct {
	Dict string
	Data []string
	Logs [][]string
}

func (w *World) damaged(i int) bool { return i < len(w.Damage) && len(w.Damage[i]) > 0 }

func writeAt(dir, name string, data []byte) string {
	p := filepath.Join(dir, name)
	if strings.Contains(name, "/") {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			die(ExitHarness, "%v", err)
		}
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		die(ExitHarness, "%v", err)
	}
	return p
}

// write puts the world's files into a directory. With a prefix that ends in
// "/", data files and logs lie in directories of their own and have the same
// names.
func (w *World) write(dir, prefix string) (f Files) {
	dataName, logName := "%st%d.ibd", "%slog%d_%d"
	if strings.HasSuffix(prefix, "/") {
		dataName, logName = "%sd%d/t.ibd", "%sl%d/ib_logfile%d"
	}
	f.Dict = writeAt(dir, prefix+"ibdata1", idb.File(idb.BuildDict(w.Tabs, w.Layout)))
	for i := range w.Tabs {
		d := DataCase{Tabs: w.Tabs, Target: i, Pages: w.Pages[i]}
		pages := dataPages(&d)
		if w.damaged(i) {
			for k := range w.Damage[i] {
				n := firstPage + w.Damage[i][k].Page%max(1, len(d.Pages))
				if n < len(pages) {
					if pages[n] == nil {
						pages[n] = make([]byte, idb.PageSize)
					}
					w.Damage[i][k].apply(pages[n])
				}
			}
		}
		f.Data = append(f.Data, writeAt(dir, fmt.Sprintf(dataName, prefix, i), idb.File(pages)))
	}
	for k, recs := range w.Logs {
		b, _ := stream(w.Tabs, recs)
		if k < len(w.LogEnd) && w.LogEnd[k] > 0 {
			x := make([]byte, w.LogEnd[k])
			r := idb.Rng(w.Cut[k].Seed)
			r.Bytes(x)
			b = append(b, x...)
		}
		var names []string
		for j, x := range logFiles(b, w.Cut[k]) {
			names = append(names, writeAt(dir, fmt.Sprintf(logName, prefix, k, j), x))
		}
		f.Logs = append(f.Logs, names)
	}
	return f
}

// genWorld draws a world; damage is the percentage of damaged files.
func genWorld(t *rapid.T, maxTabs, maxLogs, damage int, label string) World {
	var w World
	w.Tabs = genRedoTabs(t, TabOpt{Kinds: allKinds, MinCols: 2, MaxCols: 4, NullPct: 30, Redundant: 2, Sec: true, Fts: 4}, ints(t, 1, maxTabs, label+"Tables"))
	for i := range w.Tabs {
		w.Pages = append(w.Pages, genPages(t, &w.Tabs[i], PageOpt{MaxLeaf: 2, MaxRows: 4, States: []string{"live", "free", "live", "free", "dead"}, NullPct: 30, Noise: 1}))
		var ds []Damage
		if chance(t, damage, label+"Damaged") {
			for k := ints(t, 1, 2, label+"Damages"); k > 0; k-- {
				ds = append(ds, genDamage(t, len(w.Pages[i]), fmt.Sprintf("%sd%d.%d", label, i, k)))
			}
		}
		w.Damage = append(w.Damage, ds)
	}
	for k := ints(t, 1, maxLogs, label+"Logs"); k > 0; k-- {
		w.Logs = append(w.Logs, genRecs(t, w.Tabs, UndoOpt{Others: 10, NullPct: 20, Ext: 10}, 4, 1))
		w.Cut = append(w.Cut, genCut(t))
		end := 0
		if chance(t, damage, label+"LogEnd") {
			end = ints(t, 1, 900, label+"LogEndN")
		}
		w.LogEnd = append(w.LogEnd, end)
	}
	w.Layout = genLayout(t, chance(t, 30, label+"Rich"))
	return w
}

// ---- C15 ----

// HistOp is a step on one parser.
type HistOp struct {
	Kind  string `json:"op"` // load, data, rload, redo, swap
	W     int    `json:"w"`  // world; load: -1 is a file that holds no dictionary, -2 a missing one
	Table int    `json:"table,omitempty"`
	Mode  bool   `json:"mode,omitempty"`
	Name  string `json:"name,omitempty"` // other table name to ask for
	Gone  bool   `json:"gone,omitempty"` // the data file is missing
	What  string `json:"what,omitempty"` // swap: the files that take each other's place
}

// HistCase is a sequence of steps on one data file parser and one redo parser.
type HistCase struct {
	Worlds []World  `json:"worlds"`
	Ops    []HistOp `json:"ops"`
	Level  string   `json:"level"`
	Schema string   `json:"schema,omitempty"` // selection of the redo parser
	Table  string   `json:"table,omitempty"`
	TZ     string   `json:"tz,omitempty"`
	Dirs   bool     `json:"dirs,omitempty"` // files of the same names in several directories
}

// swapFiles exchanges two files; afterwards the variables name them again.
func swapFiles(a, b *string) {
	if *a == *b {
		return
	}
	tmp := *a + ".tmp"
	for _, x := range [][2]string{{*a, tmp}, {*b, *a}, {tmp, *b}} {
		if err := os.Rename(x[0], x[1]); err != nil {
			die(ExitHarness, "%v", err)
		}
	}
	*a, *b = *b, *a
}

var devNull *os.File

// quietLogs sends log output to a discarded standard error.
func quietLogs() {
	if devNull == nil {
		var err error
		if devNull, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
			die(ExitHarness, "%v", err)
		}
	}
	flag.Set("logtostderr", "true")
}

// withLevel runs f at a log level.
func withLevel(level string, f func() error) error {
	if level == "" {
		return f()
	}
	quietLogs()
	if err := logs.InitLogs(Scratch(), level); err != nil {
		die(ExitHarness, "%v", err)
	}
	old := os.Stderr
	os.Stderr = devNull
	defer func() {
		os.Stderr = old
		flag.Set("v", "0")
	}()
	return f()
}

func sameRan(a, b Ran) string {
	switch {
	case a.Panic != b.Panic && (a.Panic == "" || b.Panic == ""):
		return fmt.Sprintf("panic %q against %q", a.Panic, b.Panic)
	case (a.Err == nil) != (b.Err == nil):
		return fmt.Sprintf("error %v against %v", a.Err, b.Err)
	case !bytes.Equal(a.Out, b.Out):
		la, lb := bytes.Split(a.Out, []byte("\n")), bytes.Split(b.Out, []byte("\n"))
		for i := 0; i < len(la) && i < len(lb); i++ {
			if !bytes.Equal(la[i], lb[i]) {
				return fmt.Sprintf("%d lines against %d; line %d is\n  %.300q\nagainst\n  %.300q", len(la)-1, len(lb)-1, i+1, la[i], lb[i])
			}
		}
		return fmt.Sprintf("%d lines against %d", len(la)-1, len(lb)-1)
	}
	return ""
}

// onlyStatements accepts lines that begin as statements do; what follows may
// be made up from damaged input.
func onlyStatements(out []byte) error {
	ls, err := splitLines(out)
	if err != nil {
		return err
	}
	for _, l := range ls {
		w := bytes.ToLower(bytes.TrimLeft(l, " "))
		if !bytes.HasPrefix(w, []byte("update `")) && !bytes.HasPrefix(w, []byte("replace into `")) {
			return fmt.Errorf("standard output holds %.300q", l)
		}
	}
	return nil
}

func runHistory(c *HistCase, o *Obs) error {
	setZone(c.TZ)
	dir := Scratch()
	var fs []Files
	for i := range c.Worlds {
		prefix := fmt.Sprintf("w%d_", i)
		if c.Dirs {
			prefix = fmt.Sprintf("w%d/", i)
		}
		fs = append(fs, c.Worlds[i].write(dir, prefix))
	}
	nodict := writeAt(dir, "nodict", make([]byte, 9*idb.PageSize))
	dictOf := func(w int) string {
		switch {
		case w == -1:
			return nodict
		case w < 0:
			return filepath.Join(dir, "missing")
		}
		return fs[w%len(fs)].Dict
	}
	p := ibdata.NewParse()
	q := redo.NewParse(c.Table, c.Schema)
	cur, rcur := -3, -3 // the loaded worlds; -3: none
	lines, repeated := 0, 0
	seen := map[string]Ran{}
	return withLevel(c.Level, func() error {
		for i, op := range c.Ops {
			w := op.W
			if w >= 0 {
				w %= len(c.Worlds)
			}
			var what string
			var used, fresh Ran
			pure := true
			switch op.Kind {
			case "load":
				what = fmt.Sprintf("load %d", w)
				used = Exec(func() error { return p.ParseDictPage(dictOf(w)) })
				fresh = Exec(func() error { return ibdata.NewParse().ParseDictPage(dictOf(w)) })
				cur = w
			case "rload":
				what = fmt.Sprintf("redo load %d", w)
				used = Exec(func() error { return q.ParseDictPage(dictOf(w)) })
				fresh = Exec(func() error { return redo.NewParse(c.Table, c.Schema).ParseDictPage(dictOf(w)) })
				rcur = w
			case "data":
				if cur < 0 || w < 0 {
					continue
				}
				k := op.Table % len(c.Worlds[w].Tabs)
				t := &c.Worlds[w].Tabs[k]
				schema, table, file := t.Schema, t.Name, fs[w].Data[k]
				if op.Name != "" {
					table = op.Name
				}
				if op.Gone {
					file = filepath.Join(dir, "missing")
				}
				what = fmt.Sprintf("dictionary %d, data file %d of %d as %s.%s, %s, missing: %v", cur, k, w, schema, table, modeName(op.Mode), op.Gone)
				used = Exec(func() error { return p.ParseDataPage(file, schema, table, op.Mode) })
				fresh = runData(dictOf(cur), file, schema, table, op.Mode)
				if c.Worlds[w].damaged(k) {
					o.Class("damaged data file")
				}
			case "redo":
				if rcur < 0 || w < 0 {
					continue
				}
				k := op.Table % len(c.Worlds[w].Logs)
				names := fs[w].Logs[k]
				what = fmt.Sprintf("dictionary %d, redo log %d of %d", rcur, k, w)
				used = Exec(func() error { return q.ParseRedoLogs(names) })
				fresh = runRedo(dictOf(rcur), names, c.Schema, c.Table)
				pure = w == rcur && c.Worlds[w].LogEnd[k] == 0
			case "swap":
				// another file is put where one of them was
				if w < 0 {
					continue
				}
				f, g := &fs[w], &fs[(w+1)%len(fs)]
				switch op.What {
				case "data":
					k := op.Table % len(f.Data)
					swapFiles(&f.Data[k], &f.Data[(k+1)%len(f.Data)])
				case "other data":
					swapFiles(&f.Data[op.Table%len(f.Data)], &g.Data[op.Table%len(g.Data)])
				case "dict":
					swapFiles(&f.Dict, &g.Dict)
				case "log":
					a, b := f.Logs[op.Table%len(f.Logs)], f.Logs[(op.Table+1)%len(f.Logs)]
					for j := 0; j < len(a) && j < len(b); j++ {
						swapFiles(&a[j], &b[j])
					}
				}
				o.Class("files take the place of others")
				continue
			default:
				continue
			}
			if used.Panic != "" && pure {
				return fmt.Errorf("step %d (%s): panic: %s", i+1, what, used.Panic)
			}
			if d := sameRan(used, fresh); d != "" {
				return fmt.Errorf("step %d (%s) differs from the same request alone: %s", i+1, what, d)
			}
			if r, ok := seen[what]; ok {
				repeated++
				if d := sameRan(used, r); d != "" {
					return fmt.Errorf("step %d (%s) differs from the same request before: %s", i+1, what, d)
				}
			}
			seen[what] = used
			// a parser on its own may share what the process remembers: the
			// files themselves say what has to be printed
			if err := stepModel(c, &op, cur, rcur, w, used); err != nil {
				return fmt.Errorf("step %d (%s): %v", i+1, what, err)
			}
			n := bytes.Count(used.Out, []byte("\n"))
			lines += n
			if pure {
				ls, err := splitLines(used.Out)
				if err != nil {
					return fmt.Errorf("step %d (%s): %v", i+1, what, err)
				}
				for _, l := range ls {
					if _, err := sqlp.Parse(l); err != nil {
						return fmt.Errorf("step %d (%s), log level %q: standard output holds %.300q: %v", i+1, what, c.Level, l, err)
					}
				}
			}
			if !pure {
				if err := onlyStatements(used.Out); err != nil {
					return fmt.Errorf("step %d (%s), log level %q: %v", i+1, what, c.Level, err)
				}
			}
			o.Class("%s", op.Kind)
			o.ClassIf(used.Err != nil, "failing step")
		}
		o.Class("log level %s", strings.ToLower(c.Level))
		o.ClassIf(repeated > 0, "a request is repeated")
		if lines > 0 && len(c.Ops) > 2 {
			o.NonTrivial()
		}
		o.Note("%d steps, %d statements, %d requests repeated", len(c.Ops), lines, repeated)
		return nil
	})
}

// stepModel compares what a step on intact files printed with the content of
// the files.
func stepModel(c *HistCase, op *HistOp, cur, rcur, w int, r Ran) error {
	switch op.Kind {
	case "data":
		k := op.Table % len(c.Worlds[w].Tabs)
		x := &c.Worlds[w]
		if cur != w || op.Name != "" || op.Gone || x.damaged(k) {
			return nil
		}
		if err := r.ok("request"); err != nil {
			return err
		}
		d := DataCase{Tabs: x.Tabs, Target: k, Pages: x.Pages[k]}
		got, err := readReplace(&x.Tabs[k], r.Out)
		if err != nil {
			return err
		}
		want, opt := expected(&d, op.Mode)
		return compareRows(want, opt, got)
	case "redo":
		x := &c.Worlds[w]
		k := op.Table % len(x.Logs)
		if rcur != w || x.LogEnd[k] > 0 {
			return nil
		}
		if err := r.ok("redo recovery"); err != nil {
			return err
		}
		got, err := readUpdates(x.Tabs, r.Out)
		if err != nil {
			return err
		}
		return compareSeq(updates(x.Tabs, x.Logs[k], c.Schema, c.Table), got)
	}
	return nil
}

var logLevels = []string{"", "", "debug", "trace", "info", "warn", "error", "fatal", "DEBUG", "Trace", "x"}

func genHistory(t *rapid.T) HistCase {
	c := HistCase{Level: pick(t, logLevels, "level"), TZ: pick(t, zones, "tz"), Dirs: chance(t, 40, "dirs")}
	for i := ints(t, 1, 2, "worlds"); i > 0; i-- {
		c.Worlds = append(c.Worlds, genWorld(t, 3, 2, 15, fmt.Sprintf("w%d", i)))
	}
	if len(c.Worlds) == 2 && chance(t, 50, "sameNames") { // the same names mean other tables
		a, b := &c.Worlds[0], &c.Worlds[1]
		used := map[string]bool{}
		for i := range b.Tabs {
			if i < len(a.Tabs) {
				b.Tabs[i].Schema, b.Tabs[i].Name = a.Tabs[i].Schema, a.Tabs[i].Name
			}
			k := b.Tabs[i].Schema + "/" + b.Tabs[i].Name
			if used[k] {
				b.Tabs[i].Name += "_x"
				k += "_x"
			}
			used[k] = true
		}
	}
	if chance(t, 30, "select") {
		tb := c.Worlds[0].Tabs[0]
		c.Schema = tb.Schema
		if rapid.Bool().Draw(t, "selectTable") {
			c.Table = tb.Name
		}
	}
	c.Ops = append(c.Ops, HistOp{Kind: "load", W: ints(t, 0, 1, "w")}, HistOp{Kind: "rload", W: ints(t, 0, 1, "w")})
	for n := ints(t, 1, 10, "ops"); n > 0; n-- {
		k := pick(t, []string{"data", "data", "data", "redo", "redo", "load", "rload", "bad", "swap"}, "op")
		op := HistOp{Kind: k, W: ints(t, 0, 1, "w"), Table: ints(t, 0, 2, "table"), Mode: rapid.Bool().Draw(t, "mode")}
		switch k {
		case "data":
			if chance(t, 10, "otherName") {
				op.Name = pick(t, tableNames, "name")
			}
			op.Gone = chance(t, 5, "gone")
		case "swap":
			op.What = pick(t, []string{"data", "other data", "dict", "log"}, "what")
		case "bad": // a failed load, and one that works
			op.Kind = pick(t, []string{"load", "rload"}, "badOp")
			w := op.W
			op.W = ints(t, -2, -1, "badW")
			c.Ops = append(c.Ops, op)
			op.W = w
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// ---- C26 ----

// TouchCase is a directory of input files and requests on them.
type TouchCase struct {
	World World    `json:"world"`
	Ops   []HistOp `json:"ops"`
	Perm  int      `json:"perm,omitempty"` // mode bits of the files
	Keep  bool     `json:"keep,omitempty"` // one parser for all requests
	CLI   bool     `json:"cli,omitempty"`
	Level string   `json:"level,omitempty"`
	Link  bool     `json:"link,omitempty"` // the data file is reached through a symbolic link
}

// snapshot describes everything below a directory.
func snapshot(dir string) []string {
	var out []string
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		s := fmt.Sprintf("%s mode %v size %d mtime %d", strings.TrimPrefix(p, dir), fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			s += " -> " + l
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" %x", sha256.Sum256(b))
		}
		out = append(out, s)
		return nil
	})
	if err != nil {
		die(ExitHarness, "snapshot: %v", err)
	}
	sort.Strings(out)
	return out
}

// filePerms are the mode bits with which this process can read a file.
func filePerms() []int {
	p := []int{0o644, 0o600, 0o666, 0o444, 0o755, 0o400}
	if os.Geteuid() == 0 {
		p = append(p, 0, 0o200)
	}
	return p
}

func runTouch(c *TouchCase, o *Obs) error {
	setZone("")
	dir := filepath.Join(Scratch(), "inputs")
	logDir := filepath.Join(Scratch(), "logs")
	os.RemoveAll(dir)
	os.RemoveAll(logDir)
	for _, d := range []string{dir, logDir} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			die(ExitHarness, "%v", err)
		}
	}
	f := c.World.write(dir, "")
	if c.Link {
		for i, n := range f.Data {
			real := n + ".real"
			if err := os.Rename(n, real); err != nil {
				die(ExitHarness, "%v", err)
			}
			if err := os.Symlink(real, n); err != nil {
				die(ExitHarness, "%v", err)
			}
			f.Data[i] = n
		}
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			os.Chmod(p, os.FileMode(c.Perm))
			os.Chtimes(p, oldTime, oldTime)
		}
		return nil
	})
	os.Chtimes(dir, oldTime, oldTime)
	before := snapshot(dir)
	n, failed := 0, 0
	p := ibdata.NewParse()
	step := func(i int, op HistOp) error {
		k := op.Table % len(c.World.Tabs)
		t := &c.World.Tabs[k]
		schema, table, dict, data := t.Schema, t.Name, f.Dict, f.Data[k]
		names := f.Logs[op.Table%len(f.Logs)]
		if op.Name != "" {
			table = op.Name
		}
		switch op.W {
		case -1:
			dict = data
		case -2:
			dict = filepath.Join(dir, "nofile")
		case -3:
			dict = dir
		}
		if op.Gone {
			data = filepath.Join(dir, "gone.ibd")
			names = append(append([]string(nil), names...), filepath.Join(dir, "nolog"))
		}
		var r Ran
		var args []string
		if op.Kind == "data" {
			args = []string{"recovery", "FromDataFile", "--SysDataFile", dict, "--TableDataFile", data, "--DBName", schema, "--TableName", table}
			if op.Mode {
				args = append(args, "--OpType", "RecoveryData")
			}
		} else {
			args = []string{"recovery", "FromRedoFile", "--SysDataFile", dict, "--RedoFile", strings.Join(names, ",")}
			if op.Mode {
				args = append(args, "--DBName", schema, "--TableName", table)
			} else {
				schema, table = "", ""
			}
		}
		what := fmt.Sprintf("%s %v %q", op.Kind, op.Mode, args)
		switch {
		case c.CLI && theWorker.CLI != "":
			out := runCLI(append(args, "--LogPath", logDir, "--LogLevel", c.Level), dir, nil)
			if out.code != 0 {
				failed++
			}
			n += bytes.Count(out.stdout, []byte("\n"))
		case op.Kind == "data" && c.Keep:
			r = Exec(func() error {
				if err := p.ParseDictPage(dict); err != nil {
					return err
				}
				return p.ParseDataPage(data, schema, table, op.Mode)
			})
		case op.Kind == "data":
			r = runData(dict, data, schema, table, op.Mode)
		default:
			r = runRedo(dict, names, schema, table)
		}
		if r.Err != nil || r.Panic != "" {
			failed++
		}
		n += bytes.Count(r.Out, []byte("\n"))
		after := snapshot(dir)
		if d := diffLines(before, after); d != "" {
			return fmt.Errorf("step %d (%s) changed the inputs: %s", i+1, what, d)
		}
		o.Class("%s", op.Kind)
		return nil
	}
	err := withLevel(c.Level, func() error {
		for i, op := range c.Ops {
			if err := step(i, op); err != nil {
				return err
			}
		}
		return nil
	})
	os.RemoveAll(dir)
	os.RemoveAll(logDir)
	o.ClassIf(c.CLI, "through the program")
	o.ClassIf(failed > 0, "failing requests")
	for i := range c.World.Tabs {
		o.ClassIf(c.World.damaged(i), "damaged files")
	}
	if n > 0 || failed > 0 {
		o.NonTrivial()
	}
	o.Note("%d requests, %d statements, %d failing", len(c.Ops), n, failed)
	return err
}

func genTouch(t *rapid.T) TouchCase {
	c := TouchCase{World: genWorld(t, 2, 1, 30, "w"), Perm: pick(t, filePerms(), "perm"), Keep: rapid.Bool().Draw(t, "keep"),
		CLI: chance(t, 12, "cli"), Level: pick(t, []string{"", "debug", "info", "error"}, "level"), Link: chance(t, 10, "link")}
	for n := ints(t, 1, 4, "ops"); n > 0; n-- {
		op := HistOp{Kind: pick(t, []string{"data", "redo"}, "op"), Table: ints(t, 0, 1, "table"), Mode: rapid.Bool().Draw(t, "mode"), Gone: chance(t, 15, "gone")}
		if chance(t, 20, "badDict") {
			op.W = ints(t, -3, -1, "badW")
		}
		if chance(t, 10, "otherName") {
			op.Name = "nosuchtable"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func init() {
	Register(&Prop[HistCase]{
		ID:       "C15",
		Rule:     "a sequence of dictionary loads, data file requests in both modes and redo runs on one parser each, over one or two system tablespaces (which may use the same names for other tables), with intact, damaged and missing files, at any log level, every step compared with the same request alone on a fresh parser and with its earlier repetitions; non-trivial: more than two steps and at least one statement printed",
		Quick:    12000,
		Thorough: 60000,
		Gen:      genHistory,
		Run:      runHistory,
		Summary: func(c *HistCase) interface{} {
			var ts []string
			for i := range c.Worlds {
				for j := range c.Worlds[i].Tabs {
					ts = append(ts, fmt.Sprintf("%d: %s", i, showTable(&c.Worlds[i].Tabs[j])))
				}
			}
			return map[string]interface{}{"tables": ts, "steps": c.Ops, "level": c.Level}
		},
	})
	Register(&Prop[TouchCase]{
		ID:       "C26",
		Rule:     "a directory of generated inputs and up to four requests on it through the library or the program, intact, damaged, missing and misnamed files included; names, sizes, contents, modification times and modes in the directory are compared around every request; non-trivial: a request printed statements or failed",
		Quick:    7500,
		Thorough: 40000,
		Gen:      genTouch,
		Run:      runTouch,
		Summary: func(c *TouchCase) interface{} {
			return map[string]interface{}{"tables": len(c.World.Tabs), "steps": c.Ops, "cli": c.CLI, "perm": fmt.Sprintf("%o", c.Perm)}
		},
	})
}

// WriteWorld puts the files of a hand-made world into a directory, for the
// demonstrations of planted changes (cmd/mkdemo).
func WriteWorld(w *World, dir string) Files { return w.write(dir, "") }

// WriteWorldAs does it with a prefix of the file names.
func WriteWorldAs(w *World, dir, prefix string) Files { return w.write(dir, prefix) }
