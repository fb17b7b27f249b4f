package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/idb"
	"verif/sqlp"
)

// Step is what happened to the tables while the log was written.
type Step struct {
	T    int         `json:"t"`
	Row  int         `json:"row"`
	Cols []int       `json:"cols,omitempty"`
	New  []idb.Val   `json:"new,omitempty"` // the values Cols get
	Undo *idb.Undo   `json:"undo,omitempty"`
	Rec  *idb.LogRec `json:"rec"` // around the undo record; without Undo: another record
}

// ReplayCase is the history of some tables: rows, of which some are deleted in
// the end, and updates.
type ReplayCase struct {
	Tabs   []idb.Table    `json:"tabs"`
	Layout idb.DictLayout `json:"layout"`
	Rows   [][]Row        `json:"rows"` // before the updates; the state is the final one
	Steps  []Step         `json:"steps"`
	Seeds  []uint64       `json:"seeds"` // order on the pages
	Cut    LogCut         `json:"cut"`
}

// before is the rows of a table before an update.
type before struct {
	t    int
	rows []string
}

// finish applies the updates and returns the final rows, the log, and what the
// table held before each update.
func (c *ReplayCase) finish() (rows [][]Row, recs []idb.LogRec, states []before) {
	for _, rs := range c.Rows {
		var q []Row
		for _, r := range rs {
			r.Vals = append([]idb.Val(nil), r.Vals...)
			q = append(q, r)
		}
		rows = append(rows, q)
	}
	for i := range c.Steps {
		s := &c.Steps[i]
		rec := *s.Rec
		if s.Undo != nil {
			t := &c.Tabs[s.T]
			r := &rows[s.T][s.Row]
			b := before{t: s.T}
			for _, q := range rows[s.T] {
				b.rows = append(b.rows, canonRow(t, q.Vals))
			}
			for _, k := range s.Cols {
				if !t.Cols[k].Hidden { // of hidden ones alone there is no statement
					states = append(states, b)
					break
				}
			}
			u := *s.Undo
			u.Table, u.Upd, u.Key = s.T, nil, nil
			for _, k := range t.KeyCols {
				u.Key = append(u.Key, r.Vals[k])
			}
			for j, k := range s.Cols {
				u.Upd = append(u.Upd, idb.UpdField{Col: k, Val: r.Vals[k]})
				r.Vals[k] = s.New[j]
			}
			rec.Undo = &u
		}
		recs = append(recs, rec)
	}
	return
}

// memTable is a table the printed statements are executed in.
type memTable struct {
	t    *idb.Table
	cols []idb.Col
	rows [][]string
}

func (m *memTable) col(name string) int {
	for i, c := range m.cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

func (m *memTable) key(row []string) string {
	var p []string
	for _, k := range m.t.KeyCols {
		if i := m.col(m.t.Cols[k].Name); i >= 0 {
			p = append(p, row[i])
		}
	}
	return strings.Join(p, sep)
}

// held is the rows of the table.
func (m *memTable) held() (rows []string) {
	for _, r := range m.rows {
		rows = append(rows, strings.Join(r, sep))
	}
	return
}

// replace executes the REPLACE statements.
func (m *memTable) replace(out []byte) error {
	rows, err := readCells(m.t, out)
	if err != nil {
		return err
	}
	for _, row := range rows {
		keep := m.rows[:0:0]
		for _, r := range m.rows {
			if m.key(r) != m.key(row) {
				keep = append(keep, r)
			}
		}
		m.rows = append(keep, row)
	}
	return nil
}

// execUpdate executes an UPDATE and returns how many rows it finds.
func execUpdate(ms []*memTable, line []byte) (int, error) {
	st, err := sqlp.Parse(line)
	if err != nil {
		return 0, err
	}
	if st.Kind != "update" {
		return 0, fmt.Errorf("a %s statement", st.Kind)
	}
	for _, m := range ms {
		if m.t.Schema != st.Schema || m.t.Name != st.Table {
			continue
		}
		read := func(as []sqlp.Assign) (map[int]string, error) {
			out := map[int]string{}
			for _, a := range as {
				i := m.col(a.Col)
				if i < 0 {
					return nil, fmt.Errorf("unknown column %q", a.Col)
				}
				s, err := canonLit(m.cols[i], a.Val)
				if err != nil {
					return nil, fmt.Errorf("column %q: %v", a.Col, err)
				}
				out[i] = s
			}
			return out, nil
		}
		where, err := read(st.Where)
		if err != nil {
			return 0, err
		}
		set, err := read(st.Set)
		if err != nil {
			return 0, err
		}
		n := 0
	next:
		for k, r := range m.rows {
			for i, s := range where {
				if r[i] != s {
					continue next
				}
			}
			q := append([]string(nil), r...)
			for i, s := range set {
				q[i] = s
			}
			m.rows[k] = q
			n++
		}
		return n, nil
	}
	return 0, fmt.Errorf("statement for unknown table %s.%s", st.Schema, st.Table)
}

// onPages puts rows on leaf pages.
func onPages(tb *idb.Table, rows []Row, seeds []uint64) []Page {
	pages := []Page{{Kind: "leaf"}}
	used := 0
	for _, r := range rows {
		p := &pages[len(pages)-1]
		if sz := rowSize(tb, r); used+sz > idb.Room(tb.Redundant, len(p.Rows)+1) {
			pages = append(pages, Page{Kind: "leaf"})
			p, used = &pages[len(pages)-1], 0
		}
		used += rowSize(tb, r)
		p.Rows = append(p.Rows, r)
	}
	for i := range pages {
		if len(seeds) > 1 {
			pages[i].LiveSeed, pages[i].FreeSeed = seeds[0], seeds[1]
		}
	}
	return pages
}

func runReplay(c *ReplayCase, o *Obs) error {
	setZone("UTC")
	dir := Scratch()
	final, recs, states := c.finish()
	dict := writeAt(dir, "ibdata1", idb.File(idb.BuildDict(c.Tabs, c.Layout)))
	b, _ := stream(c.Tabs, recs)
	logs := writeLogs(logFiles(b, c.Cut))
	var ms []*memTable
	deleted := 0
	for i := range c.Tabs {
		t := &c.Tabs[i]
		m := &memTable{t: t, cols: visible(t)}
		d := DataCase{Tabs: c.Tabs, Target: i, Pages: onPages(t, final[i], c.Seeds)}
		data := writeAt(dir, fmt.Sprintf("t%d.ibd", i), idb.File(dataPages(&d)))
		for _, recovery := range []bool{false, true} {
			r := runData(dict, data, t.Schema, t.Name, recovery)
			if err := r.ok(modeName(recovery)); err != nil {
				return err
			}
			if err := m.replace(r.Out); err != nil {
				return fmt.Errorf("%s: %v", modeName(recovery), err)
			}
		}
		ms = append(ms, m)
	}
	r := runRedo(dict, logs, "", "")
	if err := r.ok("redo recovery"); err != nil {
		return err
	}
	lines, err := splitLines(r.Out)
	if err != nil {
		return fmt.Errorf("redo recovery: %v", err)
	}
	if len(lines) != len(states) {
		return fmt.Errorf("redo recovery: %d statements for %d updates:\n%.1000s", len(lines), len(states), r.Out)
	}
	for i := len(lines) - 1; i >= 0; i-- {
		n, err := execUpdate(ms, lines[i])
		if err != nil {
			return fmt.Errorf("redo recovery: line %d: %v\n  %.400q", i+1, err, lines[i])
		}
		if n != 1 {
			return fmt.Errorf("statement %d of %d finds %d rows: %.400q", i+1, len(lines), n, lines[i])
		}
		m := ms[states[i].t]
		if err := compareRows(states[i].rows, nil, m.held()); err != nil {
			return fmt.Errorf("after statement %d of %d, the later ones executed before, %s.%s does not hold the rows as they were before update %d: %v\n  %.400q", i+1, len(lines), m.t.Schema, m.t.Name, i+1, err, lines[i])
		}
	}
	for i, m := range ms {
		var want []string
		for _, r := range c.Rows[i] {
			want = append(want, canonRow(m.t, r.Vals))
			if r.State == "free" {
				deleted++
			}
		}
		if err := compareRows(want, nil, m.held()); err != nil {
			return fmt.Errorf("after the statements of print mode, recovery mode and, in reverse order, redo recovery, %s.%s does not hold the rows as they were before: %v", m.t.Schema, m.t.Name, err)
		}
	}
	twice := map[[2]int]int{}
	for i := range c.Steps {
		if c.Steps[i].Undo != nil {
			twice[[2]int{c.Steps[i].T, c.Steps[i].Row}]++
		}
	}
	for _, n := range twice {
		o.ClassIf(n > 1, "rows updated several times")
	}
	o.ClassIf(deleted > 0, "deleted rows")
	o.ClassIf(len(ms) > 1, "several tables")
	for i := range c.Steps {
		o.ClassIf(len(c.Steps[i].Cols) > 16, "updates of more than 16 columns")
	}
	o.ClassIf(len(logs) > 1, "several log files")
	if len(lines) > 1 {
		o.NonTrivial()
	}
	o.Note("%d tables, %d updates undone, %d deleted rows brought back", len(ms), len(lines), deleted)
	return nil
}

// genReplay draws tables and a history of them.
func genReplay(t *rapid.T) ReplayCase {
	var c ReplayCase
	opt := TabOpt{Kinds: allKinds, MinCols: 2, MaxCols: 5, NullPct: 30, Redundant: 2, Sec: true, Fts: 4}
	most := 12
	if chance(t, 8, "wide") {
		opt.MinCols, opt.MaxCols, most = 14, 45, 45
	}
	c.Tabs = genRedoTabs(t, opt, ints(t, 1, 2, "tables"))
	var cur [][]Row
	var with []int // tables with rows to update
	for i := range c.Tabs {
		tb := &c.Tabs[i]
		var rows []Row
		seen := map[string]bool{}
		for k := ints(t, 1, 5, "rows"); k > 0; k-- {
			l := fmt.Sprintf("r%d.%d", i, k)
			r := Row{Vals: genRow(t, tb, 25, l), Sys: genSys(t, l+"Sys"), State: pick(t, []string{"live", "live", "free"}, l+"St")}
			var key []string
			for _, kc := range tb.KeyCols {
				key = append(key, canonVal(tb.Cols[kc], r.Vals[kc]))
			}
			if id := strings.Join(key, sep); tb.Key == "none" || seen[id] {
				continue
			} else {
				seen[id] = true
			}
			if r.State == "free" {
				r.Info = 0x20
			}
			rows = append(rows, r)
		}
		c.Rows = append(c.Rows, rows)
		var q []Row
		for _, r := range rows {
			r.Vals = append([]idb.Val(nil), r.Vals...)
			q = append(q, r)
		}
		cur = append(cur, q)
		if len(rows) > 0 && len(updatable(tb)) > 0 {
			with = append(with, i)
		}
	}
	for k := ints(t, 1, 8, "steps"); k > 0; k-- {
		l := fmt.Sprintf("s%d", k)
		if len(with) == 0 || chance(t, 20, l+"Other") {
			rec := genRec(t, l)
			if chance(t, 50, l+"OtherUndo") {
				u := genUndo(t, c.Tabs, UndoOpt{Others: 100}, l)
				if u.Type == 12 && u.Table >= 0 {
					u.Type, u.Upd, u.Ord = 14, nil, nil
				}
				rec = undoRec(t, u, l)
			}
			c.Steps = append(c.Steps, Step{Rec: &rec})
			continue
		}
		s := Step{T: pick(t, with, l+"T")}
		tb := &c.Tabs[s.T]
		s.Row = ints(t, 0, len(cur[s.T])-1, l+"Row")
		r := &cur[s.T][s.Row]
		cols := updatable(tb)
		if len(cols) > most {
			at := ints(t, 0, len(cols)-most, l+"At")
			cols = cols[at : at+most]
		}
		s.Cols = rapid.Permutation(cols).Draw(t, l+"Cols")[:ints(t, 1, len(cols), l+"N")]
		vals := append([]idb.Val(nil), r.Vals...)
		for j, k := range s.Cols {
			var v idb.Val
			if tb.Cols[k].Null && chance(t, 25, fmt.Sprintf("%sNull%d", l, j)) {
				v.Nul = true
			} else if chance(t, 30, fmt.Sprintf("%sBack%d", l, j)) {
				// a value some row had
				v = c.Rows[s.T][ints(t, 0, len(c.Rows[s.T])-1, fmt.Sprintf("%sOf%d", l, j))].Vals[k]
			} else {
				v = genVal(t, tb.Cols[k], 60, fmt.Sprintf("%sv%d", l, j))
			}
			s.New = append(s.New, v)
			vals[k] = v
		}
		if rowSize(tb, Row{Vals: vals, Sys: r.Sys}) > 7500 {
			continue
		}
		r.Vals = vals
		s.Undo = &idb.Undo{Type: 12, UndoNo: genU64(t, l+"No"), Trx: genU64(t, l+"Trx") & (1<<48 - 1), Roll: genU64(t, l+"Roll") & (1<<56 - 1),
			Null57: rapid.Bool().Draw(t, l+"N57"), Cmpl: ints(t, 0, 3, l+"Cmpl")}
		rec := undoRec(t, nil, l)
		s.Rec = &rec
		c.Steps = append(c.Steps, s)
	}
	if chance(t, 60, "shuffled") {
		c.Seeds = []uint64{seed(t, "liveSeed"), seed(t, "freeSeed")}
	}
	c.Cut = genCut(t)
	c.Layout = genLayout(t, chance(t, 30, "rich"))
	return c
}

func init() {
	Register(&Prop[ReplayCase]{
		ID:       "C29",
		Rule:     "one or two tables with a key, rows of which some are deleted in the end, and a log of updates of drawn columns of drawn rows, several of one row included, with other log records in between; the final rows lie in the data files; non-trivial: more than one UPDATE is printed",
		Quick:    24000,
		Thorough: 250000,
		Gen:      genReplay,
		Run:      runReplay,
		Summary: func(c *ReplayCase) interface{} {
			m := map[string]interface{}{"steps": len(c.Steps)}
			var ts []string
			for i := range c.Tabs {
				ts = append(ts, showTable(&c.Tabs[i])+fmt.Sprintf(" %d rows", len(c.Rows[i])))
			}
			m["tables"] = ts
			return m
		},
		Assumptions: []string{"updates do not change the primary key (InnoDB logs that as delete and insert)", "keys are not used again", "DECIMAL values and values on other pages are left out (see C02)"},
	})
}
