package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/idb"
)

// BadCase is a request that cannot be served, made from one that can.
type BadCase struct {
	Data     DataCase     `json:"data"`
	Recs     []idb.LogRec `json:"recs,omitempty"`
	Redo     bool         `json:"redo,omitempty"`
	Recovery bool         `json:"recovery,omitempty"`
	Fault    string       `json:"fault"`
	N        int          `json:"n,omitempty"`
	Seed     uint64       `json:"seed,omitempty"`
	Files    int          `json:"files,omitempty"`   // redo log files
	Partial  bool         `json:"partial,omitempty"` // they end within blocks
	Good     int          `json:"good,omitempty"`    // intact files behind the faulty one
	Schema   string       `json:"schema,omitempty"`
	Table    string       `json:"table,omitempty"`
	CLI      bool         `json:"cli,omitempty"`   // through the program
	Level    string       `json:"level,omitempty"` // its log level
}

var dictFaults = []string{"dict-missing", "dict-dir", "dict-notdir", "dict-empty", "dict-short", "dict-zero", "dict-garbage", "dict-data", "dict-cut", "dict-root", "dict-header"}
var dataFaults = []string{"name", "name", "name", "name", "data-missing", "data-dir", "data-notdir"}
var logFaults = []string{"log-missing", "log-dir", "log-notdir", "log-short"}

func dictRoots(dict []byte) []int {
	var out []int
	h := dict[7*idb.PageSize+38:]
	for _, o := range []int{32, 40, 44, 48} {
		out = append(out, int(h[o])<<24|int(h[o+1])<<16|int(h[o+2])<<8|int(h[o+3]))
	}
	return out
}

// badFile puts a faulty file into place and returns its name.
func badFile(kind, name string, intact []byte, n int, sd uint64) string {
	p := filepath.Join(Scratch(), name)
	os.RemoveAll(p)
	r := idb.Rng(sd)
	var b []byte
	switch kind {
	case "missing":
		return p
	case "dir":
		if err := os.MkdirAll(p, 0o755); err != nil {
			die(ExitHarness, "%v", err)
		}
		return p
	case "notdir":
		writeFile(name, intact)
		return filepath.Join(p, "x")
	case "empty":
	case "short":
		b = intact[:n%min(len(intact), idb.PageSize)]
	case "zero":
		b = make([]byte, (1+n%20)*idb.PageSize)
	case "garbage":
		b = make([]byte, (1+n%20)*idb.PageSize+n%3)
		r.Bytes(b)
	}
	return writeFile(name, b)
}

func runBad(c *BadCase, o *Obs) error {
	dict := idb.File(idb.BuildDict(c.Data.Tabs, c.Data.Layout))
	data := idb.File(dataPages(&c.Data))
	t := c.Data.tab()
	schema, table := t.Schema, t.Name
	dictF, dataF := "", ""
	var logF []string
	switch c.Fault {
	case "dict-missing", "dict-dir", "dict-notdir", "dict-empty", "dict-short", "dict-zero", "dict-garbage":
		dictF = badFile(c.Fault[5:], "ibdata1", dict, c.N, c.Seed)
	case "dict-data":
		dictF = writeFile("ibdata1", data)
	case "dict-cut": // the end is missing, and with it at least one page the dictionary header names
		top := 0
		for _, r := range dictRoots(dict) {
			top = max(top, r)
		}
		keep := c.N % (top + 1)
		dictF = writeFile("ibdata1", dict[:keep*idb.PageSize+int(c.Seed%idb.PageSize)])
	case "dict-root", "dict-header":
		at := 7
		if c.Fault == "dict-root" {
			at = dictRoots(dict)[c.N%4]
		}
		p := dict[at*idb.PageSize : (at+1)*idb.PageSize]
		for i := range p {
			p[i] = 0
		}
		dictF = writeFile("ibdata1", dict)
	default:
		dictF = writeFile("ibdata1", dict)
	}
	if c.Fault == "name" {
		schema, table = c.Schema, c.Table
	}
	if !c.Redo {
		switch c.Fault {
		case "data-missing", "data-dir", "data-notdir":
			dataF = badFile(c.Fault[5:], "t.ibd", data, c.N, c.Seed)
		default:
			dataF = writeFile("t.ibd", data)
		}
	} else {
		b, _ := stream(c.Data.Tabs, c.Recs)
		cut := LogCut{Files: make([]int, max(1, c.Files)), Partial: c.Partial}
		for i := range cut.Files {
			cut.Files[i] = 1
		}
		files := logFiles(b, cut)
		logF = writeLogs(files)
		bad := max(0, len(files)-1-c.Good)
		switch c.Fault {
		case "log-missing", "log-dir", "log-notdir":
			logF[bad] = badFile(c.Fault[4:], fmt.Sprintf("ib_logfile%d", bad), files[bad], c.N, c.Seed)
		case "log-short":
			logF[bad] = writeFile(fmt.Sprintf("ib_logfile%d", bad), files[bad][:c.N%2048])
		}
		schema, table = "", ""
	}
	defer func() {
		for _, n := range append([]string{"ibdata1", "t.ibd"}, "ib_logfile0", "ib_logfile1", "ib_logfile2") {
			os.RemoveAll(filepath.Join(Scratch(), n))
		}
	}()
	o.Class("%s", c.Fault)
	o.ClassIf(c.Redo, "redo recovery")
	o.ClassIf(!c.Redo && c.Recovery, "recovery mode")
	o.ClassIf(!c.Redo && !c.Recovery, "print mode")
	live, free := 0, 0
	for _, p := range c.Data.Pages {
		for _, r := range p.Rows {
			switch r.State {
			case "live":
				live++
			case "free":
				free++
			}
		}
	}
	if (c.Redo && len(updates(c.Data.Tabs, c.Recs, "", "")) > 0) || (!c.Redo && (c.Recovery && free > 0 || !c.Recovery && live > 0)) {
		o.NonTrivial()
		o.Class("the intact request would print something")
	}
	if c.CLI {
		return runBadCLI(c, o, dictF, dataF, logF, schema, table)
	}
	var r Ran
	if c.Redo {
		r = runRedo(dictF, logF, schema, table)
	} else {
		r = runData(dictF, dataF, schema, table, c.Recovery)
	}
	o.Note("error: %v", r.Err)
	what := c.Fault
	if c.Fault == "name" {
		what = fmt.Sprintf("request for %q.%q", schema, table)
	}
	if r.Panic != "" {
		return fmt.Errorf("%s: panic: %s", what, r.Panic)
	}
	if len(bytes.TrimSpace(r.Out)) > 0 {
		return fmt.Errorf("%s: printed %.300q", what, r.Out)
	}
	if r.Err == nil {
		return fmt.Errorf("%s: no error is returned", what)
	}
	return nil
}

// runBadCLI makes the request through the program.
func runBadCLI(c *BadCase, o *Obs, dict, data string, logs []string, schema, table string) error {
	dir, logDir := mkdir(filepath.Join(Scratch(), "badcli")), mkdir(filepath.Join(Scratch(), "badlogs"))
	defer os.RemoveAll(dir)
	defer os.RemoveAll(logDir)
	args := []string{"recovery", "FromDataFile", "--TableDataFile=" + data, "--DBName=" + schema, "--TableName=" + table}
	if c.Redo {
		args = []string{"recovery", "FromRedoFile", "--RedoFile=" + strings.Join(logs, ",")}
	} else if c.Recovery {
		args = append(args, "--OpType=RecoveryData")
	}
	args = append(args, "--SysDataFile="+dict, "--LogPath="+logDir, "--LogLevel="+c.Level)
	r := runCLI(args, dir, nil)
	shown := strings.ReplaceAll(strings.Join(args, " "), Scratch(), "")
	o.Class("through the program")
	o.Class("log level %s", c.Level)
	o.Note("%s: exit code %d: %.200s", shown, r.code, r.stderr)
	if len(bytes.TrimSpace(r.stdout)) > 0 {
		return fmt.Errorf("%s: %s\nprints %.300q on standard output", c.Fault, shown, r.stdout)
	}
	if bytes.Contains(r.stderr, []byte("goroutine ")) {
		return fmt.Errorf("%s: %s\ncrashes: %.600q", c.Fault, shown, r.stderr)
	}
	if r.code == 0 {
		return fmt.Errorf("%s: %s\nends with exit code 0; standard error: %.300q", c.Fault, shown, r.stderr)
	}
	if len(bytes.TrimSpace(r.stderr)) == 0 {
		return fmt.Errorf("%s: %s\nends with exit code %d and no message", c.Fault, shown, r.code)
	}
	return nil
}

// nearMiss draws a name pair no table has.
func nearMiss(t *rapid.T, tabs []idb.Table, target int) (schema, table string) {
	tb := tabs[target]
	s, n := tb.Schema, tb.Name
	o := tabs[ints(t, 0, len(tabs)-1, "otherTab")]
	swap := func(x string) string {
		b := []byte(x)
		for i := range b {
			switch {
			case b[i] >= 'a' && b[i] <= 'z':
				b[i] -= 32
			case b[i] >= 'A' && b[i] <= 'Z':
				b[i] += 32
			}
		}
		return string(b)
	}
	try := [][2]string{{s, swap(n)}, {swap(s), n}, {n, s}, {s, n + "x"}, {s, "x" + n}, {s + "x", n}, {"x" + s, n}, {s, n[:len(n)-1]}, {s[:len(s)-1], n},
		{"", n}, {s, ""}, {"", ""}, {"", s + "/" + n}, {s, s + "/" + n}, {o.Schema, n}, {s, o.Name}, {s + "/" + n, ""}, {s + "/", n}, {s, n + " "}, {s, n + "\x00"},
		{"`" + s + "`", "`" + n + "`"}, {s, "%"}, {"%", n}, {s, "*"}, {s, "SYS_TABLES"}, {"", "SYS_TABLES"}, {s, n + "#P#p0"}, {s, "."}, {s + ".", n}, {s, n[1:]}, {s + " ", n}, {" " + s, n}, {s, " " + n}, {s, "\t" + n}, {s, n + "\n"}, {s + ".", n}, {s + "." + n, ""}, {s, "'" + n + "'"}, {"\"" + s + "\"", n}}
	known := map[[2]string]bool{{"", "SYS_FOREIGN"}: true, {"", "SYS_FOREIGN_COLS"}: true}
	for _, x := range tabs {
		known[[2]string{x.Schema, x.Name}] = true
	}
	for {
		p := pick(t, try, "nearMiss")
		if !known[p] {
			return p[0], p[1]
		}
	}
}

func init() {
	Register(&Prop[BadCase]{
		ID:       "C13",
		Rule:     "a request made of a dictionary, a data file or redo logs and one defect: a file that is missing, a directory, below a file, empty, short, zero or garbage, a dictionary cut before or without one of the pages its header names, or a table name pair that is not registered; non-trivial: the same request without the defect would print at least one statement; a quarter of the requests is made through the program at a drawn log level: a message on standard error, a failing exit status and nothing on standard output",
		Quick:    18000,
		Thorough: 60000,
		Gen: func(t *rapid.T) BadCase {
			c := BadCase{Redo: chance(t, 30, "redo"), Recovery: rapid.Bool().Draw(t, "recovery"), N: ints(t, 0, 100000, "n"), Seed: seed(t, "seed")}
			if c.Redo {
				c.Data.Tabs = genRedoTabs(t, TabOpt{Kinds: plainKinds, MinCols: 2, MaxCols: 4, NullPct: 30}, ints(t, 1, 3, "tabs"))
				c.Recs = genRecs(t, c.Data.Tabs, UndoOpt{}, 3, 0)
				c.Files = ints(t, 1, 3, "files")
				c.Partial = chance(t, 70, "partial")
				if chance(t, 40, "goodBehind") {
					c.Good = ints(t, 1, 2, "good")
				}
				c.Fault = pick(t, append(append([]string{}, dictFaults...), logFaults...), "fault")
				c.Data.Layout = genLayout(t, chance(t, 50, "rich"))
			} else {
				c.Data.Tabs, c.Data.Target = genTabs(t, TabOpt{Kinds: plainKinds, MinCols: 1, MaxCols: 4, NullPct: 30, Redundant: 2}, 3)
				c.Fault = pick(t, append(append([]string{}, dictFaults...), dataFaults...), "fault")
				c.Data.Layout = genLayout(t, chance(t, 50, "rich"))
				c.Data.Pages = genPages(t, c.Data.tab(), PageOpt{MaxLeaf: 2, MaxRows: 3, States: []string{"live", "free"}, NullPct: 20})
				if c.Fault == "name" {
					c.Schema, c.Table = nearMiss(t, c.Data.Tabs, c.Data.Target)
				}
			}
			c.Data.Layout.Dblwr, c.Data.Layout.DblLow = 0, 0
			if chance(t, 25, "cli") && !strings.Contains(c.Schema+c.Table, "\x00") {
				c.CLI = true
				c.Level = pick(t, []string{"debug", "info", "error", "fatal", "fatal", "none"}, "level")
			}
			return c
		},
		Run: runBad,
		Summary: func(c *BadCase) interface{} {
			return map[string]interface{}{"fault": c.Fault, "redo": c.Redo, "request": fmt.Sprintf("%q.%q", c.Schema, c.Table), "tables": len(c.Data.Tabs), "table": showTable(c.Data.tab())}
		},
		Assumptions: []string{"a system tablespace that lacks a page its dictionary header names (and has no copy of it) holds no usable dictionary",
			"schema and table names are compared exactly, as InnoDB's dictionary stores them"},
	})
}
