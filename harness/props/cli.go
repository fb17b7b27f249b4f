package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/sqlp"
)

var oldTime = time.Unix(1500000000, 123456789)

type cliRan struct {
	stdout, stderr []byte
	code           int
}

// runCLI runs the program in a directory.
func runCLI(args []string, dir string, env []string) cliRan {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, theWorker.CLI, args...)
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + Scratch(), "TMPDIR=" + Scratch(), "TZ=UTC", "USER=root"}, env...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	r := cliRan{stdout: so.Bytes(), stderr: se.Bytes()}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			die(ExitHarness, "cannot run %s: %v", theWorker.CLI, err)
		}
		r.code = ee.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	}
	return r
}

func mkdir(p string) string {
	if err := os.MkdirAll(p, 0o755); err != nil {
		die(ExitHarness, "%v", err)
	}
	return p
}

// ---- C25 ----

// CLIArg is an option as it is written on the command line.
type CLIArg struct {
	Name string `json:"name"`
	Val  string `json:"val"` // may name a file: @dict, @data, @log0,@log1
	Eq   bool   `json:"eq,omitempty"`
	At   int    `json:"at"` // 0 before "recovery", 1 before the sub command, 2 behind it
}

// CLICase is a command line over a world's files.
type CLICase struct {
	World World    `json:"world"`
	Redo  bool     `json:"redo,omitempty"`
	Table int      `json:"table"`
	Args  []CLIArg `json:"args"`
	Fault string   `json:"fault,omitempty"` // makes the request invalid
	Sub   string   `json:"sub,omitempty"`   // another sub command
	TZ    string   `json:"tz,omitempty"`
	Dir   string   `json:"dir,omitempty"`   // name of the files' directory
	Paths string   `json:"paths,omitempty"` // how file names are given: absolute, rel, dot, up, link
	Front string   `json:"front,omitempty"` // begins the names of the files
}

// path writes the name of a file in the working directory in another way.
func (c *CLICase) path(p, dir string) string {
	base := filepath.Base(p)
	switch c.Paths {
	case "rel":
		return base
	case "dot":
		return "./" + base
	case "up":
		return "../" + filepath.Base(dir) + "/./" + base
	case "link":
		l := filepath.Join(dir, "link-"+base)
		if err := os.Symlink(base, l); err != nil && !os.IsExist(err) {
			die(ExitHarness, "%v", err)
		}
		return l
	}
	return p
}

func (c *CLICase) val(name string) (string, bool) {
	for _, a := range c.Args {
		if a.Name == name {
			return a.Val, true
		}
	}
	return "", false
}

// decoy replaces patterns by what they match.
var decoy = strings.NewReplacer("[ab]", "a", "*", "xy", "?", "z")

func runCommandLine(c *CLICase, o *Obs) error {
	dirName := c.Dir
	if dirName == "" {
		dirName = "cli"
	}
	dir := mkdir(filepath.Join(Scratch(), dirName))
	logDir := mkdir(filepath.Join(Scratch(), "clilogs"))
	defer os.RemoveAll(dir)
	defer os.RemoveAll(logDir)
	zone := c.TZ
	if zone == "" {
		zone = "UTC"
	}
	setZone(zone)
	f := c.World.write(dir, c.Front)
	k := c.Table % len(c.World.Tabs)
	names := f.Logs[0]
	// files one might mean if names were patterns
	for _, n := range append([]string{f.Dict, f.Data[k]}, names...) {
		if d := decoy.Replace(strings.TrimPrefix(n, Scratch())); Scratch()+d != n {
			defer os.RemoveAll(Scratch() + "/" + strings.Split(d, "/")[1])
			if err := os.MkdirAll(filepath.Dir(Scratch()+d), 0o700); err != nil {
				die(ExitHarness, "%v", err)
			}
			if err := os.WriteFile(Scratch()+d, nil, 0o600); err != nil {
				die(ExitHarness, "%v", err)
			}
		}
	}
	var given []string
	for _, n := range names {
		given = append(given, c.path(n, dir))
	}
	expand := func(s string) string {
		s = strings.ReplaceAll(s, "@dict", c.path(f.Dict, dir))
		s = strings.ReplaceAll(s, "@data", c.path(f.Data[k], dir))
		s = strings.ReplaceAll(s, "@logdir", logDir)
		s = strings.ReplaceAll(s, "@logs", strings.Join(given, ","))
		s = strings.ReplaceAll(s, "@missing", filepath.Join(dir, "missing"))
		s = strings.ReplaceAll(s, "@dir", dir)
		return s
	}
	var parts [3][]string
	for _, a := range c.Args {
		v := expand(a.Val)
		if a.Eq {
			parts[a.At] = append(parts[a.At], "--"+a.Name+"="+v)
		} else {
			parts[a.At] = append(parts[a.At], "--"+a.Name, v)
		}
	}
	sub := "FromDataFile"
	if c.Redo {
		sub = "FromRedoFile"
	}
	if c.Sub != "" {
		sub = c.Sub
	}
	args := append([]string{}, parts[0]...)
	args = append(args, "recovery")
	args = append(args, parts[1]...)
	args = append(args, sub)
	args = append(args, parts[2]...)
	r := runCLI(args, dir, []string{"TZ=" + zone})
	shown := strings.ReplaceAll(strings.Join(args, " "), Scratch(), "")
	if c.Fault != "" {
		o.Class("invalid: %s", c.Fault)
		o.NonTrivial()
		for _, l := range bytes.Split(r.stdout, []byte("\n")) {
			u := strings.ToUpper(strings.TrimSpace(string(l)))
			if _, err := sqlp.Parse(l); err == nil || strings.HasPrefix(u, "REPLACE ") || strings.HasPrefix(u, "UPDATE ") || strings.HasPrefix(u, "INSERT ") {
				return fmt.Errorf("invalid request (%s): %s\nprints %.300q", c.Fault, shown, l)
			}
		}
		if bytes.Contains(r.stderr, []byte("goroutine ")) && !bytes.Contains(r.stderr, []byte("main.main()")) {
			return fmt.Errorf("invalid request (%s): %s\ncrashes: %.600q", c.Fault, shown, r.stderr)
		}
		if c.Fault != "unknown sub command" {
			if r.code == 0 {
				return fmt.Errorf("invalid request (%s): %s\nends with exit code 0", c.Fault, shown)
			}
			if len(bytes.TrimSpace(r.stderr)) == 0 {
				return fmt.Errorf("invalid request (%s): %s\nends without a message", c.Fault, shown)
			}
		}
		o.Note("%s: exit code %d, no statement", shown, r.code)
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("%s\nexit code %d: %.500q", shown, r.code, r.stderr)
	}
	t := &c.World.Tabs[k]
	op, _ := c.val("OpType")
	n := 0
	if c.Redo {
		schema, _ := c.val("DBName")
		table, _ := c.val("TableName")
		got, err := readUpdates(c.World.Tabs, r.stdout)
		if err != nil {
			return fmt.Errorf("%s\nstandard output: %v", shown, err)
		}
		want := updates(c.World.Tabs, c.World.Logs[0], schema, table)
		if err := compareSeq(want, got); err != nil {
			return fmt.Errorf("%s\n%v", shown, err)
		}
		n = len(want)
		l := runRedo(f.Dict, names, schema, table)
		if !bytes.Equal(l.Out, r.stdout) {
			return fmt.Errorf("%s\nprints something else than the library: %s", shown, sameRan(Ran{Out: r.stdout}, Ran{Out: l.Out}))
		}
		o.ClassIf(len(names) > 1, "several log files")
		o.ClassIf(schema != "" || table != "", "selection")
	} else {
		recovery := op == "RecoveryData"
		got, err := readReplace(t, r.stdout)
		if err != nil {
			return fmt.Errorf("%s\nstandard output: %v", shown, err)
		}
		d := DataCase{Tabs: c.World.Tabs, Target: k, Pages: c.World.Pages[k]}
		want, opt := expected(&d, recovery)
		if err := compareRows(want, opt, got); err != nil {
			return fmt.Errorf("%s\n%s: %v", shown, modeName(recovery), err)
		}
		n = len(want)
		l := runData(f.Dict, f.Data[k], t.Schema, t.Name, recovery)
		if !bytes.Equal(l.Out, r.stdout) {
			return fmt.Errorf("%s\nprints something else than the library: %s", shown, sameRan(Ran{Out: r.stdout}, Ran{Out: l.Out}))
		}
		o.Class("%s", modeName(recovery))
	}
	o.Class("%s", sub)
	for _, a := range c.Args {
		o.ClassIf(a.At == 0, "options before the command")
		o.ClassIf(a.At == 1, "options between command and sub command")
		o.ClassIf(a.Eq, "option=value")
	}
	if lv, ok := c.val("LogLevel"); ok {
		o.Class("log level %s", strings.ToLower(lv))
	} else {
		o.Class("no log level")
	}
	o.Class("operation type %q", op)
	o.ClassIf(c.Paths != "", "file names given as "+c.Paths)
	o.ClassIf(c.Front != "", "odd file names")
	if n > 0 {
		o.NonTrivial()
	}
	o.Note("%s: %d statements", shown, n)
	return nil
}

var opTypes = []string{"RecoveryData", "RecoveryData", "PrintData", "RecoveryStruct", "", "recoverydata", "RECOVERYDATA", "RecoveryData ", " RecoveryData", "Recovery", "RecoveryDataX", "true", "1"}

func genCLI(t *rapid.T) CLICase {
	c := CLICase{World: genWorld(t, 3, 1, 0, "w"), Redo: chance(t, 40, "redo"), TZ: pick(t, []string{"UTC", "UTC", "Asia/Shanghai", "America/New_York"}, "tz")}
	c.Table = ints(t, 0, len(c.World.Tabs)-1, "table")
	c.Dir = pick(t, []string{"", "", "", "my files", "a=b", "é'\"x", "--OpType", "[ab]", "*b", "$HOME", "%41", "~"}, "dir")
	c.Paths = pick(t, []string{"", "", "rel", "dot", "up", "link"}, "paths")
	for i := range c.World.Damage {
		c.World.Damage[i] = nil
	}
	if chance(t, 30, "oddFile") {
		c.Front = pick(t, []string{"[ab]", "*", "?", "~", "$HOME", "%41", " ", "-", "--", "#", "é", "`", "\""}, "front")
	}
	if chance(t, 20, "oddTable") { // names that look like something else on a command line
		tb := &c.World.Tabs[c.Table]
		tb.Name = pick(t, []string{"a=b", "-t", "--DBName", "a b", "recovery", "FromDataFile", "a,b", "=", "\"q\"", tb.Schema + ".t", tb.Schema + "/t", "a.b", "`t`", "*", "T?"}, "oddName")
	}
	tb := c.World.Tabs[c.Table]
	c.Args = []CLIArg{{Name: "SysDataFile", Val: "@dict"}}
	if c.Redo {
		c.Args = append(c.Args, CLIArg{Name: "RedoFile", Val: "@logs"})
		if chance(t, 50, "hasDB") {
			c.Args = append(c.Args, CLIArg{Name: "DBName", Val: tb.Schema})
			if chance(t, 10, "otherDB") {
				c.Args[len(c.Args)-1].Val = "nodb"
			}
		}
		if chance(t, 50, "hasTable") {
			c.Args = append(c.Args, CLIArg{Name: "TableName", Val: tb.Name})
		}
	} else {
		c.Args = append(c.Args, CLIArg{Name: "TableDataFile", Val: "@data"}, CLIArg{Name: "DBName", Val: tb.Schema}, CLIArg{Name: "TableName", Val: tb.Name})
	}
	if chance(t, 70, "hasOp") {
		c.Args = append(c.Args, CLIArg{Name: "OpType", Val: pick(t, opTypes, "opType")})
	}
	if chance(t, 80, "hasLevel") {
		c.Args = append(c.Args, CLIArg{Name: "LogLevel", Val: pick(t, []string{"debug", "DEBUG", "trace", "Info", "warn", "error", "fatal", "x", ""}, "level")})
	}
	c.Args = append(c.Args, CLIArg{Name: "LogPath", Val: "@logdir"})
	for i := range c.Args {
		a := &c.Args[i]
		a.Eq = rapid.Bool().Draw(t, "eq")
		a.At = 2
		if chance(t, 30, "early") {
			a.At = ints(t, 0, 1, "at")
		}
		switch a.Val { // cobra takes such a value for the command when it comes first
		case "recovery", "FromDataFile", "FromRedoFile", "version", "help":
			if a.At != 2 {
				a.Eq = true
			}
		}
		if (strings.HasPrefix(a.Val, "-") || strings.HasPrefix(c.Front, "-")) && a.At != 2 {
			a.Eq = true
		}
	}
	c.Args = rapid.Permutation(c.Args).Draw(t, "order")
	if chance(t, 25, "invalid") {
		genInvalid(t, &c)
	}
	return c
}

// genInvalid makes the command line invalid.
func genInvalid(t *rapid.T, c *CLICase) {
	c.Fault = pick(t, []string{"option left out", "file missing", "unknown option", "unknown table", "no dictionary", "unknown sub command", "value missing", "log missing"}, "fault")
	set := func(name, v string) {
		for i := range c.Args {
			if c.Args[i].Name == name {
				c.Args[i].Val = v
			}
		}
	}
	drop := func(name string) {
		var out []CLIArg
		for _, a := range c.Args {
			if a.Name != name {
				out = append(out, a)
			}
		}
		c.Args = out
	}
	req := []string{"SysDataFile", "TableDataFile", "DBName", "TableName"}
	if c.Redo {
		req = []string{"SysDataFile", "RedoFile"}
	}
	switch c.Fault {
	case "option left out":
		drop(pick(t, req, "drop"))
	case "file missing":
		set(pick(t, req[:2], "missing"), "@missing")
	case "unknown option":
		c.Args = append(c.Args, CLIArg{Name: pick(t, []string{"sysdatafile", "Verbose", "Op", "DbName", "OpTypes"}, "unknown"), Val: "RecoveryData", Eq: true, At: 2})
	case "unknown table":
		if c.Redo {
			c.Fault = "file missing"
			set("SysDataFile", "@missing")
			return
		}
		set("TableName", "no_such_table")
	case "no dictionary":
		if c.Redo {
			set("SysDataFile", "@logs")
		} else {
			set("SysDataFile", pick(t, []string{"@data", "@dir"}, "dictAs"))
		}
	case "unknown sub command":
		c.Sub = pick(t, []string{"FromNowhere", "fromdatafile", "FromRedo", ""}, "sub")
		if c.Sub == "" {
			c.Sub = "version"
		}
	case "value missing": // the last option has no value
		drop("LogLevel")
		drop("OpType")
		c.Args = append(c.Args, CLIArg{Name: "OpType=RecoveryData", Val: "--LogLevel", At: 2})
	case "log missing":
		if !c.Redo {
			c.Fault = "file missing"
			set("TableDataFile", "@missing")
			return
		}
		set("RedoFile", pick(t, []string{"@logs,@missing", "@missing,@logs", "@logs,", ",@logs", "@missing"}, "logList"))
	}
}

func init() {
	Register(&Prop[CLICase]{
		ID:       "C25",
		Rule:     "a command line with the options of a data file or redo request in drawn order, as --option value or --option=value, global options before, between and behind the commands, any operation type and log level, one or several log files; a quarter made invalid in one way; non-trivial: statements are expected, or the request is invalid",
		Quick:    4500,
		Thorough: 20000,
		Gen:      genCLI,
		Run:      runCommandLine,
		Summary: func(c *CLICase) interface{} {
			return map[string]interface{}{"args": c.Args, "redo": c.Redo, "fault": c.Fault, "tables": len(c.World.Tabs)}
		},
		Assumptions: []string{"a value that is the name of a command is not given as a word of its own before the commands (the cobra library takes it for the command)", "a help text on standard output is no SQL statement"},
	})
}
