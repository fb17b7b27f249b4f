package props

import (
	"fmt"
	"strings"

	"github.com/zbdba/db-recovery/recovery/redo"
	"pgregory.net/rapid"

	"verif/idb"
	"verif/sqlp"
)

// LogCut says how a record stream is cut into blocks and files.
type LogCut struct {
	Files   []int  `json:"files,omitempty"`   // shares of the stream per file (weights); empty: one file
	Partial bool   `json:"partial,omitempty"` // earlier files also end with a partially filled block
	Tail    int    `json:"tail,omitempty"`    // zero blocks after the last one
	Seed    uint64 `json:"seed,omitempty"`
	FirstNo uint32 `json:"firstno,omitempty"`
}

// RedoCase is a dictionary and a redo log.
type RedoCase struct {
	Tabs   []idb.Table    `json:"tabs"`
	Layout idb.DictLayout `json:"layout"`
	Recs   []idb.LogRec   `json:"recs"`
	Cut    LogCut         `json:"cut"`
	Schema string         `json:"schema,omitempty"`
	Table  string         `json:"table,omitempty"`
	TZ     string         `json:"tz,omitempty"`
}

// stream is the record stream and where each record ends.
func stream(tabs []idb.Table, recs []idb.LogRec) (b []byte, ends []int) {
	for i := range recs {
		b = append(b, recs[i].Bytes(tabs)...)
		ends = append(ends, len(b))
	}
	return
}

// logFiles cuts the stream into files.
func logFiles(b []byte, cut LogCut) [][]byte {
	w := cut.Files
	if len(w) == 0 {
		w = []int{1}
	}
	total := 0
	for _, x := range w {
		total += x
	}
	var out [][]byte
	no := cut.FirstNo
	if no == 0 {
		no = 17
	}
	for i, x := range w {
		n := len(b)
		if i < len(w)-1 {
			n = 0
			if total > 0 {
				n = len(b) * x / total
			}
			if !cut.Partial {
				n = n / 496 * 496
			}
		}
		total -= x
		part := b[:n]
		b = b[n:]
		var ps [][]byte
		for len(part) > 0 {
			k := min(496, len(part))
			ps = append(ps, part[:k])
			part = part[k:]
		}
		tail := 0
		if i == len(w)-1 {
			tail = cut.Tail
		}
		out = append(out, idb.LogFile(ps, no, cut.Seed+uint64(i), tail))
		no += uint32(len(ps))
	}
	return out
}

// writeLogs puts the log files into the scratch directory.
func writeLogs(files [][]byte) []string {
	var names []string
	for i, f := range files {
		names = append(names, writeFile(fmt.Sprintf("ib_logfile%d", i), f))
	}
	return names
}

// runRedo performs a redo recovery with a fresh parser.
func runRedo(dict string, logs []string, schema, table string) Ran {
	return Exec(func() error {
		p := redo.NewParse(table, schema)
		if err := p.ParseDictPage(dict); err != nil {
			return fmt.Errorf("dictionary: %v", err)
		}
		return p.ParseRedoLogs(logs)
	})
}

// isUpdate says that the record has to produce a statement.
func isUpdate(r *idb.LogRec) bool {
	return r.T == idb.MlogUndoInsert && r.Undo.Type == 12 && r.Undo.Table >= 0
}

// setsNothing says that an update concerns columns only that users do not see,
// or of which the log does not hold the value.
func setsNothing(t *idb.Table, u *idb.Undo) bool {
	for _, f := range u.Upd {
		if !t.Cols[f.Col].Hidden && f.Ext == 0 {
			return false
		}
	}
	return true
}

// selected says that a table is among the requested ones.
func selected(t *idb.Table, schema, table string) bool {
	return (schema == "" || schema == t.Schema) && (table == "" || table == t.Name)
}

// canonUndo is the meaning of the UPDATE an undo record stands for.
func canonUndo(t *idb.Table, u *idb.Undo) string {
	var p []string
	for _, f := range u.Upd {
		if t.Cols[f.Col].Hidden || f.Ext > 0 {
			continue
		}
		p = append(p, "set "+t.Cols[f.Col].Name+"="+canonVal(t.Cols[f.Col], f.Val))
	}
	for i, k := range t.KeyCols {
		p = append(p, "key "+t.Cols[k].Name+"="+canonVal(t.Cols[k], u.Key[i]))
	}
	return t.Schema + "." + t.Name + " " + strings.Join(sorted(p), sep)
}

func sorted(p []string) []string {
	q := append([]string(nil), p...)
	for i := 1; i < len(q); i++ {
		for j := i; j > 0 && q[j] < q[j-1]; j-- {
			q[j], q[j-1] = q[j-1], q[j]
		}
	}
	return q
}

// canonUpdate is the meaning of a printed UPDATE.
func canonUpdate(tabs []idb.Table, line []byte) (string, error) {
	st, err := sqlp.Parse(line)
	if err != nil {
		return "", err
	}
	if st.Kind != "update" {
		return "", fmt.Errorf("a %s statement", st.Kind)
	}
	var t *idb.Table
	for i := range tabs {
		if tabs[i].Schema == st.Schema && tabs[i].Name == st.Table {
			t = &tabs[i]
		}
	}
	if t == nil {
		return "", fmt.Errorf("statement for unknown table %s.%s", st.Schema, st.Table)
	}
	var p []string
	part := func(kind string, as []sqlp.Assign) error {
		seen := map[string]bool{}
		for _, a := range as {
			if seen[a.Col] {
				return fmt.Errorf("column %q twice", a.Col)
			}
			seen[a.Col] = true
			ci := -1
			for i, c := range t.Cols {
				if c.Name == a.Col && !c.Hidden {
					ci = i
				}
			}
			if ci < 0 {
				return fmt.Errorf("unknown column %q", a.Col)
			}
			s, err := canonLit(t.Cols[ci], a.Val)
			if err != nil {
				return fmt.Errorf("column %q: %v", a.Col, err)
			}
			p = append(p, kind+" "+a.Col+"="+s)
		}
		return nil
	}
	if err := part("set", st.Set); err != nil {
		return "", err
	}
	if err := part("key", st.Where); err != nil {
		return "", err
	}
	return t.Schema + "." + t.Name + " " + strings.Join(sorted(p), sep), nil
}

func readUpdates(tabs []idb.Table, out []byte) ([]string, error) {
	lines, err := splitLines(out)
	if err != nil {
		return nil, err
	}
	var us []string
	for i, l := range lines {
		u, err := canonUpdate(tabs, l)
		if err != nil {
			return nil, fmt.Errorf("line %d: %v\n  %.400q", i+1, err, l)
		}
		us = append(us, u)
	}
	return us, nil
}

// updates are the statements the records stand for, in order.
func updates(tabs []idb.Table, recs []idb.LogRec, schema, table string) []string {
	var out []string
	for i := range recs {
		if isUpdate(&recs[i]) {
			t := &tabs[recs[i].Undo.Table]
			if selected(t, schema, table) && !setsNothing(t, recs[i].Undo) {
				out = append(out, canonUndo(t, recs[i].Undo))
			}
		}
	}
	return out
}

// compareSeq compares sequences.
func compareSeq(want, got []string) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("%d statements expected, %d printed; the first missing one: %s", len(want), len(got), readable(want[i]))
		case i >= len(want):
			return fmt.Errorf("%d statements expected, %d printed; the first one too many: %s", len(want), len(got), readable(got[i]))
		case want[i] != got[i]:
			return fmt.Errorf("statement %d is\n  %s\ninstead of\n  %s", i+1, readable(got[i]), readable(want[i]))
		}
	}
	return nil
}

// checkRedo compares the printed statements with the case's undo records.
func checkRedo(c *RedoCase) error {
	setZone(c.TZ)
	dict := writeFile("ibdata1", idb.File(idb.BuildDict(c.Tabs, c.Layout)))
	b, _ := stream(c.Tabs, c.Recs)
	r := runRedo(dict, writeLogs(logFiles(b, c.Cut)), c.Schema, c.Table)
	if err := r.ok("redo recovery"); err != nil {
		return err
	}
	got, err := readUpdates(c.Tabs, r.Out)
	if err != nil {
		return fmt.Errorf("redo recovery: %v", err)
	}
	if err := compareSeq(updates(c.Tabs, c.Recs, c.Schema, c.Table), got); err != nil {
		return fmt.Errorf("redo recovery: %v", err)
	}
	return nil
}

// ---- generation ----

func genCut(t *rapid.T) LogCut {
	c := LogCut{Seed: seed(t, "cutSeed"), Tail: ints(t, 0, 2, "tail")}
	if chance(t, 30, "manyFiles") {
		n := ints(t, 2, 4, "files")
		if chance(t, 10, "dozens") {
			n = pick(t, []int{8, 9, 10, 16, 17, 33, 100}, "filesN")
		}
		for i := n; i > 0; i-- {
			c.Files = append(c.Files, ints(t, 0, 5, "share"))
		}
		c.Partial = rapid.Bool().Draw(t, "partial")
	}
	c.FirstNo = uint32(ints(t, 1, 0x3ffffff0, "firstNo"))
	return c
}

func genU32(t *rapid.T, label string) uint32 {
	if chance(t, 50, label+"Edge") {
		return pick(t, []uint32{0, 1, 5, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x7fffffff, 0xf0000000, 0xff000000, 0xff123456, 0xfffe0000, 0xffff1234, 0xfffffc00, 0xfffffffe, 0xffffffff}, label+"EdgeV")
	}
	return rapid.Uint32().Draw(t, label) >> uint(ints(t, 0, 31, label+"Sh"))
}

func genU64(t *rapid.T, label string) uint64 {
	if chance(t, 50, label+"Edge") {
		return pick(t, []uint64{0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 1<<32 - 1<<24 - 1, 1 << 32, 1<<32 + 1, 1<<33 - 1<<25, 1 << 40, 1<<48 - 1<<24}, label+"EdgeV")
	}
	v := rapid.Uint64().Draw(t, label) >> uint(ints(t, 0, 63, label+"Sh"))
	return v &^ 0x80000000 // keeps the low word clear of the values 5.7 writes in a shorter form
}

// UndoOpt directs the undo record generator.
type UndoOpt struct {
	Others  int // percentage of undo records that are no updates of known tables
	NullPct int
	Sec     bool
	Ext     int // percentage of values of long columns that are stored externally
}

// updatable are the columns an in-place update vector can name.
func updatable(tb *idb.Table) []int {
	key := map[int]bool{}
	for _, k := range tb.KeyCols {
		key[k] = true
	}
	var out []int
	for i := range tb.Cols {
		if !key[i] {
			out = append(out, i)
		}
	}
	return out
}

// canBeExternal says that values can be so long that they are stored on pages
// of their own.
func canBeExternal(c idb.Col) bool {
	switch c.Kind {
	case "text", "blob":
		return c.Size > 1
	case "varchar", "varbinary":
		return c.Size > 255
	}
	return false
}

func genUndo(t *rapid.T, tabs []idb.Table, o UndoOpt, label string) *idb.Undo {
	u := &idb.Undo{Type: 12, UndoNo: genU64(t, label+"No"), Info: byte(pick(t, []int{0, 0, 0x20, 0x10}, label+"Info")), Trx: genU64(t, label+"Trx") & (1<<48 - 1),
		Roll: genU64(t, label+"Roll") & (1<<56 - 1), Null57: rapid.Bool().Draw(t, label+"N57"), Cmpl: ints(t, 0, 3, label+"Cmpl"), Extern: chance(t, 10, label+"Ext")}
	if chance(t, o.Others, label+"Other") {
		u.Type = pick(t, []int{11, 14, 13, 12}, label+"Type")
		if u.Type == 12 || chance(t, 30, label+"Unknown") {
			u.Table = -1
			u.TableID = 0x5000000000 + uint64(ints(t, 0, 1000, label+"TID"))
			if chance(t, 50, label+"Low") {
				u.TableID = uint64(ints(t, 0, 18, label+"TID2"))
				if u.TableID == 11 || u.TableID == 12 {
					u.TableID = 3
				}
			}
			u.Raw = rawBytes(t, ints(t, 0, 40, label+"RawN"), label+"Raw")
			return u
		}
	}
	// a table whose undo record can be generated
	var ok []int
	for i := range tabs {
		if tabs[i].Key != "none" && len(updatable(&tabs[i])) > 0 {
			ok = append(ok, i)
		} else if u.Type == 11 || u.Type == 14 {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		panic("no table with a key and further columns")
	}
	u.Table = pick(t, ok, label+"Table")
	tb := &tabs[u.Table]
	u.RowID = genU64(t, label+"RowID") & (1<<48 - 1)
	budget := 3000
	if chance(t, 4, label+"LongRec") {
		budget = 15800
	}
	for i, k := range tb.KeyCols {
		u.Key = append(u.Key, genVal(t, tb.Cols[k], 767, fmt.Sprintf("%sk%d", label, i)))
		budget -= tb.Cols[k].Len()
	}
	if u.Type == 11 || u.Type == 14 {
		return u
	}
	cols := updatable(tb)
	var perm []int
	if len(cols) > 40 { // a wide table
		at := ints(t, 0, len(cols)-1, label+"UpdAt")
		n := ints(t, 1, len(cols)-at, label+"UpdN")
		perm = append(perm, cols[at:at+n]...)
		shuffle(perm, seed(t, label+"UpdMix"))
	} else {
		n := ints(t, 1, min(len(cols), 6), label+"UpdN")
		perm = rapid.Permutation(cols).Draw(t, label+"UpdCols")[:n]
	}
	cheap := idb.Rng(0)
	if rapid.Bool().Draw(t, label+"UpdSorted") {
		perm = sortedInts(perm)
	}
	for i, k := range perm {
		l := fmt.Sprintf("%su%d", label, i)
		f := idb.UpdField{Col: k}
		if isWide(tb.Cols[k]) {
			if cheap == 0 {
				cheap = idb.Rng(seed(t, label+"WideVals"))
			}
			if f.Val = cheapVal(tb.Cols[k], &cheap); tb.Cols[k].Null && cheap.Intn(100) < o.NullPct {
				f.Val = idb.Val{Nul: true}
			}
			u.Upd = append(u.Upd, f)
			continue
		}
		if tb.Cols[k].Null && chance(t, o.NullPct, l+"Null") {
			f.Val = idb.Val{Nul: true}
		} else if canBeExternal(tb.Cols[k]) && chance(t, o.Ext, l+"External") {
			f.Ext = ints(t, 1, 2, l+"ExtForm")
			n := 20
			if tb.Redundant || chance(t, 30, l+"Prefix") { // the formats before DYNAMIC keep a prefix
				n += 768
			}
			f.Orig = uint32(n)
			if f.Ext == 2 {
				n = 20 + ints(t, 1, 767, l+"ExtN")
			}
			r := idb.Rng(seed(t, l+"ExtBytes"))
			f.Val.B = make([]byte, n)
			r.Bytes(f.Val.B)
			u.Extern = rapid.Bool().Draw(t, l+"ExtFlag")
			budget -= n
		} else {
			f.Val = genVal(t, tb.Cols[k], max(budget, 20), l)
			budget -= len(f.Val.B)
		}
		u.Upd = append(u.Upd, f)
	}
	if chance(t, 30, label+"HasOrd") {
		for i, k := range tb.KeyCols {
			u.Ord = append(u.Ord, idb.UpdField{Col: k, Val: u.Key[i]})
		}
	}
	return u
}

func sortedInts(p []int) []int {
	q := append([]int(nil), p...)
	for i := 1; i < len(q); i++ {
		for j := i; j > 0 && q[j] < q[j-1]; j-- {
			q[j], q[j-1] = q[j-1], q[j]
		}
	}
	return q
}

// genRedoTabs draws tables of which at least one has a key and other columns.
func genRedoTabs(t *rapid.T, o TabOpt, n int) []idb.Table {
	used := map[string]bool{}
	var tabs []idb.Table
	for i := 0; i < n; i++ {
		oo := o
		oo.MinCols = max(o.MinCols, 2)
		oo.MaxCols = max(o.MaxCols, 3)
		if i == 0 || oo.Keys == nil {
			oo.Keys = []string{"primary", "primary", "unique"}
		}
		oo.MaxKey = min(max(o.MaxKey, 2), oo.MinCols-1+1)
		tb := genTable(t, oo, fmt.Sprintf("tab%d", i))
		if len(updatable(&tb)) == 0 {
			used := map[string]bool{}
			for _, c := range tb.Cols {
				used[lower(c.Name)] = true
			}
			c := genCol(t, o.Kinds, fmt.Sprintf("tab%dextra", i))
			c.Name = genName(t, used, o.OddNames, "extra")
			c.Null = chance(t, o.NullPct, "extraNull")
			tb.Cols = append(tb.Cols, c)
		}
		for k := 0; ; k++ {
			tb.Schema = genSchema(t)
			tb.Name = tableIn(t, tb.Schema)
			if k > 3 {
				tb.Name = fmt.Sprintf("%s_%d", tb.Name, i)
			}
			if !used[tb.Schema+"/"+tb.Name] {
				break
			}
		}
		used[tb.Schema+"/"+tb.Name] = true
		tabs = append(tabs, tb)
	}
	setIDs(tabs, pick(t, []uint64{40, 20, 126, 250, 16380, 1 << 21, 1 << 28, 1 << 32, 1<<40 + 5}, "idBase"))
	shareSpaces(t, tabs, 8)
	return tabs
}

// shareSpaces puts tables into one tablespace: the system's or another one.
func shareSpaces(t *rapid.T, tabs []idb.Table, percent int) {
	if !chance(t, percent, "shared") {
		return
	}
	space := tabs[0].Space
	if chance(t, 70, "sharedSystem") {
		space = 0
	}
	for i := range tabs {
		if i == 0 || chance(t, 60, "sharedToo") {
			tabs[i].Space = space
		}
	}
}

// genRec draws a log record of a kind other than the undo insert.
func genRec(t *rapid.T, label string) idb.LogRec {
	m := idb.MlogTypes[ints(t, 0, len(idb.MlogTypes)-1, label+"Type")]
	return idb.LogRec{T: m.T, Single: rapid.Bool().Draw(t, label+"Single"), Space: genU32(t, label+"Space"), Page: genU32(t, label+"Page"),
		Seed: seed(t, label+"Seed"), N: genSize(t, label+"N"), V57: rapid.Bool().Draw(t, label+"V57")}
}

func genSize(t *rapid.T, label string) int {
	if chance(t, 30, label+"Edge") {
		return pick(t, []int{0, 1, 2, 3, 127, 128, 129, 255, 256, 300, 511, 512, 1000, 4000}, label+"EdgeV")
	}
	if chance(t, 1, label+"Big") {
		return pick(t, []int{5000, 8000, 8191, 8192, 16000, 16338, 16384}, label+"BigV")
	}
	return ints(t, 0, 60, label)
}

func undoRec(t *rapid.T, u *idb.Undo, label string) idb.LogRec {
	return idb.LogRec{T: idb.MlogUndoInsert, Single: rapid.Bool().Draw(t, label+"Single"), Space: genU32(t, label+"Space"), Page: genU32(t, label+"Page"), Undo: u, V57: rapid.Bool().Draw(t, label+"V57")}
}

// genRecs draws a log: undo records with others in between.
func genRecs(t *rapid.T, tabs []idb.Table, o UndoOpt, maxUndo, maxNoise int) []idb.LogRec {
	var recs []idb.LogRec
	n := ints(t, 0, maxUndo, "undos")
	noise := func(i int) {
		if maxNoise == 0 {
			return
		}
		for k := ints(t, 0, maxNoise, "noise"); k > 0; k-- {
			recs = append(recs, genRec(t, fmt.Sprintf("x%d.%d", i, k)))
		}
	}
	for i := 0; i < n; i++ {
		noise(i)
		l := fmt.Sprintf("u%d", i)
		recs = append(recs, undoRec(t, genUndo(t, tabs, o, l), l))
	}
	noise(n)
	return recs
}

func summaryRedo(c *RedoCase) interface{} {
	m := map[string]interface{}{"selection": c.Schema + "." + c.Table, "files": max(1, len(c.Cut.Files))}
	var ts, rs []string
	for i := range c.Tabs {
		if i < 3 {
			ts = append(ts, showTable(&c.Tabs[i]))
		}
	}
	for i := range c.Recs {
		if i == 12 {
			rs = append(rs, fmt.Sprintf("... %d records", len(c.Recs)))
			break
		}
		rs = append(rs, showRec(c.Tabs, &c.Recs[i]))
	}
	m["tables"], m["records"] = ts, rs
	return m
}

func showRec(tabs []idb.Table, r *idb.LogRec) string {
	s := idb.MlogName(r.T)
	if r.T != idb.MlogUndoInsert {
		return s
	}
	u := r.Undo
	if u.Table < 0 {
		return fmt.Sprintf("%s type %d of unknown table %d", s, u.Type, u.TableID)
	}
	t := &tabs[u.Table]
	s += fmt.Sprintf(" type %d %s.%s key(", u.Type, t.Schema, t.Name)
	for i, k := range u.Key {
		s += t.Cols[t.KeyCols[i]].Show(k) + " "
	}
	s += ")"
	for _, f := range u.Upd {
		s += fmt.Sprintf(" %s=%s", t.Cols[f.Col].Name, t.Cols[f.Col].Show(f.Val))
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
