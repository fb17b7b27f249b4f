package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/idb"
)

// NameCase is tables with names of any characters, and a request for one.
type NameCase struct {
	Tabs   []idb.Table    `json:"tabs"`
	Target int            `json:"target"`
	Layout idb.DictLayout `json:"layout"`
	Pages  []Page         `json:"pages"`
	Recs   []idb.LogRec   `json:"recs"`
	Sel    int            `json:"sel,omitempty"` // redo selection: 0 none, 1 schema and table, 2 schema, 3 table
	CLI    bool           `json:"cli,omitempty"`
}

func runNames(c *NameCase, o *Obs) error {
	setZone("")
	dict := writeFile("ibdata1", idb.File(idb.BuildDict(c.Tabs, c.Layout)))
	d := DataCase{Tabs: c.Tabs, Target: c.Target, Pages: c.Pages}
	t := d.tab()
	data := writeFile("t.ibd", idb.File(dataPages(&d)))
	logDir := mkdir(filepath.Join(Scratch(), "namelogs"))
	defer os.RemoveAll(logDir)
	through := func(sub string, args ...string) Ran {
		args = append([]string{"recovery", sub, "--SysDataFile=" + dict, "--LogPath=" + logDir, "--LogLevel=error"}, args...)
		r := runCLI(args, logDir, nil)
		if r.code != 0 {
			return Ran{Out: r.stdout, Err: fmt.Errorf("exit code %d: %.200q", r.code, r.stderr)}
		}
		return Ran{Out: r.stdout}
	}
	name := fmt.Sprintf("%q.%q", t.Schema, t.Name)
	n := 0
	for _, m := range []bool{false, true} {
		var r Ran
		if c.CLI {
			op := "PrintData"
			if m {
				op = "RecoveryData"
			}
			r = through("FromDataFile", "--TableDataFile="+data, "--DBName="+t.Schema, "--TableName="+t.Name, "--OpType="+op)
		} else {
			r = runData(dict, data, t.Schema, t.Name, m)
		}
		if err := r.ok(modeName(m)); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		got, err := readReplace(t, r.Out)
		if err == nil {
			want, opt := expected(&d, m)
			err = compareRows(want, opt, got)
			n += len(want)
		}
		if err != nil {
			return fmt.Errorf("%s: %s: %v", name, modeName(m), err)
		}
	}
	b, _ := stream(c.Tabs, c.Recs)
	logs := writeLogs(logFiles(b, LogCut{}))
	schema, table := "", ""
	if c.Sel == 1 || c.Sel == 2 {
		schema = t.Schema
	}
	if c.Sel == 1 || c.Sel == 3 {
		table = t.Name
	}
	var r Ran
	if c.CLI {
		r = through("FromRedoFile", "--RedoFile="+strings.Join(logs, ","), "--DBName="+schema, "--TableName="+table)
	} else {
		r = runRedo(dict, logs, schema, table)
	}
	if err := r.ok("redo recovery"); err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	got, err := readUpdates(c.Tabs, r.Out)
	want := updates(c.Tabs, c.Recs, schema, table)
	if err == nil {
		err = compareSeq(want, got)
	}
	if err != nil {
		return fmt.Errorf("%s: redo recovery (selection %q.%q): %v", name, schema, table, err)
	}
	o.ClassIf(c.CLI, "through the program")
	o.ClassIf(c.Sel > 0, "updates selected by name")
	plain := true
	for _, s := range []string{t.Schema, t.Name} {
		o.ClassIf(idb.FileName(s) != s, "encoded characters in the name")
		o.ClassIf(len([]rune(s)) >= 60, "names of 60 to 64 characters")
		o.ClassIf(strings.ContainsAny(s, "`'\"\\"), "quote characters in the name")
		plain = plain && idb.FileName(s) == s
	}
	for _, x := range t.Cols {
		o.ClassIf(strings.ContainsAny(x.Name, "`'\"\\"), "quote characters in a column name")
		plain = plain && idb.FileName(x.Name) == x.Name
	}
	if n+len(want) > 0 && !plain {
		o.NonTrivial()
	}
	o.Note("%s: %d rows and %d updates as expected", name, n, len(want))
	return nil
}

const nameOdd = "@`'\"\\ .,;-#$%/?*()=<>{}[]|&^~!+:@`."

// nameRunes are characters outside of ASCII that the file system encoding
// writes as @ and four hexadecimal digits (others have shorter codes).
var nameRunes = []rune{0x4e00, 0x9fa5, 0x3042, 0xac00, 0x20ac, 0x0e01, 0x2603, 0xfffd, 0x600, 0xd7ff, 0xe000, 0x3000, 0x1100}

// anyName draws a name; it does not end in a blank, which MySQL refuses.
func anyName(t *rapid.T, label string) string {
	n := ints(t, 1, 6, label+"Len")
	if chance(t, 12, label+"Long") {
		n = ints(t, 55, 64, label+"LongLen")
	}
	kind := ints(t, 0, 3, label+"Kind")
	var b []rune
	for len(b) < n {
		k := kind
		if k == 3 {
			k = ints(t, 0, 2, label+"Mix")
		}
		switch k {
		case 0:
			b = append(b, rune(pick(t, []byte("abcdefxyzABCDEF0123456789_"), label+"Plain")))
		case 1:
			b = append(b, rune(pick(t, []byte(nameOdd), label+"Odd")))
		default:
			b = append(b, pick(t, nameRunes, label+"Rune"))
		}
	}
	if b[n-1] == ' ' {
		b[n-1] = '_'
	}
	s := string(b)
	if strings.HasPrefix(s, "#sql") || strings.Contains(lower(s), "#p#") || strings.Contains(lower(s), "#sp#") {
		s = "x"
	}
	return s
}

// rename gives the columns drawn names.
func rename(t *idb.Table, name func(i int) string) {
	used := map[string]bool{"fts_doc_id": true}
	for i := range t.Cols {
		if t.Cols[i].Hidden {
			continue
		}
		s := name(i)
		for k := 0; s == "" || used[lower(s)]; k++ {
			r := []rune(s)
			s = fmt.Sprintf("%d%s", k, string(r[:min(len(r), 60)]))
		}
		used[lower(s)] = true
		t.Cols[i].Name = s
	}
}

// nameSweep has every printable ASCII character in every name, alone and in
// different places.
func nameSweep(bool) []NameCase {
	var out []NameCase
	one := func(schema, name string, cols ...string) {
		tabs := []idb.Table{{Schema: schema, Name: name, Key: "primary", KeyCols: []int{1},
			Cols: []idb.Col{{Name: cols[0], Kind: "varchar", Size: 10, CS: 8, Null: true}, {Name: cols[1], Kind: "int", Size: 4}, {Name: cols[2], Kind: "varbinary", Size: 10, Null: true}}}}
		setIDs(tabs, uint64(100+len(out)))
		vals := []idb.Val{{B: []byte("v")}, {N: 5}, {Nul: true}}
		c := NameCase{Tabs: tabs, Sel: len(out) % 4}
		c.Pages = []Page{{Kind: "leaf", Rows: []Row{{State: "live", Vals: vals}, {State: "free", Vals: vals}}}}
		u := &idb.Undo{Type: 12, UndoNo: 3, Trx: 9, Roll: 1 << 48, Key: []idb.Val{{N: 5}}, Upd: []idb.UpdField{{Col: 0, Val: vals[0]}, {Col: 2, Val: idb.Val{B: []byte("old")}}}}
		c.Recs = []idb.LogRec{{T: idb.MlogUndoInsert, Page: 300, Undo: u}}
		out = append(out, c)
	}
	for ch := rune(33); ch < 127; ch++ {
		s := string(ch)
		one(s, "t", "a1", "b1", "c1")
		one("d", s, "a1", "b1", "c1")
		one("d"+s, s+s, "a1", "b1", "c1")
		one(s+"d", "t"+s+"0041", "a1", "b1", "c1")
		one("d", "t", s, "b1", "c1")
		one("d", "t", "a"+s, s, "c"+s+s+"c")
	}
	for _, r := range nameRunes {
		s := string(r)
		one(s, s, s, s+"b", s+s)
		one("a"+s, s+"a", "a1", "b1", "c1")
	}
	for _, s := range []string{"@0041", "@", "@@", "@0", "@00", "@004", "@g", "@0g", "@0041@", "a@b", "@@@0040", "@ffff"} {
		one("d", s, "a1", "b1", "c1")
		one(s, s, s, s+"b", s+"c")
	}
	long := strings.Repeat("x", 64)
	one(long, long, long, long[1:], "c")
	long = strings.Repeat("@`", 32)
	one(long, long, long, long[1:], "c")
	long = strings.Repeat(string(nameRunes[0]), 64)
	one(long, long, long, long[3:], "c")
	return out
}

func init() {
	Register(&Prop[NameCase]{
		ID:       "C27",
		Rule:     "tables whose schema, table and column names are drawn from letters, digits, ASCII punctuation (quotes, backticks, @, dots and slashes included) and characters that the file system encoding writes with four hexadecimal digits, up to 64 characters; printed in print and recovery mode and by redo recovery selected by name, in part through the program; non-trivial: statements were compared and some name has a character that is no letter, digit or underscore",
		Quick:    24000,
		Thorough: 200000,
		Sweep:    nameSweep,
		Gen: func(t *rapid.T) NameCase {
			var c NameCase
			c.Tabs = genRedoTabs(t, TabOpt{Kinds: plainKinds, MinCols: 2, MaxCols: 4, NullPct: 30, Redundant: 2, Sec: true}, ints(t, 1, 3, "tables"))
			used := map[string]bool{}
			for i := range c.Tabs {
				tb := &c.Tabs[i]
				for k := 0; ; k++ {
					if i > 0 && chance(t, 40, "sameSchema") {
						tb.Schema = c.Tabs[0].Schema
					} else {
						tb.Schema = anyName(t, "schema")
					}
					tb.Name = anyName(t, "table")
					if i > 0 && chance(t, 20, "encodedTwin") { // what another table's name looks like in the file system
						tb.Name = idb.FileName(c.Tabs[0].Name)
						tb.Schema = pick(t, []string{c.Tabs[0].Schema, idb.FileName(c.Tabs[0].Schema)}, "twinSchema")
					}
					if len([]rune(tb.Name)) > 64 || len([]rune(tb.Schema)) > 64 {
						continue
					}
					if !used[tb.Schema+"\x00"+tb.Name] {
						break
					}
				}
				used[tb.Schema+"\x00"+tb.Name] = true
				rename(tb, func(int) string { return anyName(t, "column") })
			}
			c.Target = ints(t, 0, len(c.Tabs)-1, "target")
			c.Layout = genLayout(t, chance(t, 20, "rich"))
			c.Pages = genPages(t, &c.Tabs[c.Target], PageOpt{MaxLeaf: 1, MaxRows: 2, States: []string{"live", "free"}, NullPct: 20})
			c.Recs = genRecs(t, c.Tabs, UndoOpt{NullPct: 20}, 3, 0)
			c.Sel = ints(t, 0, 3, "selection")
			c.CLI = chance(t, 5, "cli")
			return c
		},
		Run: runNames,
		Summary: func(c *NameCase) interface{} {
			return map[string]interface{}{"table": showTable(&c.Tabs[c.Target]), "tables": len(c.Tabs), "selection": c.Sel, "cli": c.CLI, "updates": len(c.Recs)}
		},
		Assumptions: []string{"characters with shorter codes in MySQL's file system encoding (Latin, Greek, Cyrillic and other letters beyond ASCII) are not in schema and table names; control characters are in no name"},
	})
}
