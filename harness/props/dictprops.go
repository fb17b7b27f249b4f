package props

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
	"pgregory.net/rapid"

	"verif/idb"
)

// DictCase is a dictionary with data for each of the drawn tables, and an
// update of each of them.
type DictCase struct {
	Tabs   []idb.Table    `json:"tabs"`
	Bulk   int            `json:"bulk,omitempty"` // further tables, made from BulkSeed
	BulkSd uint64         `json:"bulkseed,omitempty"`
	Layout idb.DictLayout `json:"layout"`
	Pages  [][]Page       `json:"pages"`
	Recs   []idb.LogRec   `json:"recs,omitempty"`
}

// bulkTables makes many plain tables.
func bulkTables(n int, sd uint64, id, ix uint64, space uint32) []idb.Table {
	r := idb.Rng(sd)
	var out []idb.Table
	for i := 0; i < n; i++ {
		t := idb.Table{ID: id, Space: space + uint32(i), Schema: fmt.Sprintf("bulk%d", r.Intn(3)), Name: fmt.Sprintf("b%0*d", r.Intn(30), i), ClustID: ix, Key: "none", Redundant: r.Intn(4) == 0}
		id += 1 + uint64(r.Intn(3))
		ix++
		nc := 1 + r.Intn(6)
		if r.Intn(6) == 0 {
			nc = 40 + r.Intn(200)
		}
		for j := 0; j < nc; j++ {
			c := idb.Col{Name: fmt.Sprintf("col_%d", j), Null: r.Intn(2) == 0}
			switch r.Intn(4) {
			case 0:
				c.Kind, c.Size, c.Unsigned = "int", 1+r.Intn(4), r.Intn(2) == 0
			case 1:
				c.Kind, c.Size, c.CS = "varchar", 1+r.Intn(300), 8
			case 2:
				c.Kind, c.Size = "varbinary", 1+r.Intn(300)
			case 3:
				c.Kind = "datetime"
			}
			t.Cols = append(t.Cols, c)
		}
		if r.Intn(3) > 0 {
			t.Key = "primary"
			most := 4
			if r.Intn(8) == 0 {
				most = 16
			}
			p := r.Perm(nc)[:min(nc, 1+r.Intn(most))]
			for _, k := range p {
				t.Cols[k].Null = false
			}
			t.KeyCols = p
		}
		secs, wide := r.Intn(3), 3
		if r.Intn(40) == 0 { // as many indexes and fields as MySQL permits
			secs, wide = 3+r.Intn(61), 16
		}
		for k := secs; k > 0; k-- {
			t.Sec = append(t.Sec, idb.SecIdx{ID: ix, Name: fmt.Sprintf("s%d", k), Cols: r.Perm(nc)[:min(nc, 1+r.Intn(wide))]})
			ix++
		}
		out = append(out, t)
	}
	return out
}

func (c *DictCase) all() []idb.Table {
	all := append([]idb.Table(nil), c.Tabs...)
	if c.Bulk > 0 {
		id, ix, sp := uint64(0), uint64(0), uint32(0)
		for _, t := range c.Tabs {
			id, ix, sp = max(id, t.ID), max(ix, t.ClustID), max(sp, t.Space)
			for _, s := range t.Sec {
				ix = max(ix, s.ID)
			}
		}
		all = append(all, bulkTables(c.Bulk, c.BulkSd, id+1, ix+1, sp+1)...)
	}
	return all
}

// field follows a struct field by name; ok is false when there is none.
func field(v reflect.Value, name string) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return reflect.Value{}, false
	}
	f := v.FieldByName(name)
	return f, f.IsValid()
}

func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	}
	return "?"
}

// loaded renders the definitions a parser holds, and the ones it should hold;
// what the parser does not offer under its known name is left out of both.
func loaded(p interface{}, tabs []idb.Table) (want, got []string, ok bool) {
	tm, ok := field(reflect.ValueOf(p), "TableMap")
	if !ok || tm.Kind() != reflect.Map {
		return nil, nil, false
	}
	tt := tm.Type().Elem()
	for tt.Kind() == reflect.Ptr {
		tt = tt.Elem()
	}
	if tt.Kind() != reflect.Struct {
		return nil, nil, false
	}
	has := func(t reflect.Type, n string) bool { _, ok := t.FieldByName(n); return ok }
	elem := func(t reflect.Type, n string) (reflect.Type, bool) {
		f, ok := t.FieldByName(n)
		if !ok || (f.Type.Kind() != reflect.Slice && f.Type.Kind() != reflect.Map) {
			return nil, false
		}
		e := f.Type.Elem()
		for e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		return e, e.Kind() == reflect.Struct
	}
	tabAttrs := []string{"DBName", "TableName", "SpaceId"}
	colAttrs := []string{"FieldName", "IsUnsigned", "IsNUll", "FieldPos"}
	idxAttrs := []string{"Name", "Id", "FieldNum"}
	colT, haveCols := elem(tt, "Columns")
	haveCols = haveCols && has(colT, "FieldName") && has(colT, "FieldPos")
	idxT, haveIdx := elem(tt, "Indexes")
	var fldT reflect.Type
	haveFld := false
	if haveIdx {
		fldT, haveFld = elem(idxT, "Fields")
		haveFld = haveFld && has(fldT, "ColumnName")
	}
	hidden := map[string]bool{}
	for i := range tabs {
		for _, c := range tabs[i].Cols {
			if c.Hidden {
				hidden[fmt.Sprintf("%d/%s", tabs[i].ID, c.Name)] = true
			}
		}
	}
	b2 := func(b bool) string { return fmt.Sprint(b) }
	for i := range tabs {
		t := &tabs[i]
		m := map[string]string{"DBName": t.Schema, "TableName": t.Name, "SpaceId": fmt.Sprint(t.Space)}
		s := fmt.Sprintf("table %d", t.ID)
		for _, a := range tabAttrs {
			if has(tt, a) {
				s += fmt.Sprintf(" %s=%q", a, m[a])
			}
		}
		want = append(want, s)
		if haveCols {
			for j, c := range t.Cols {
				if c.Hidden {
					continue
				}
				m := map[string]string{"FieldName": c.Name, "IsUnsigned": b2(c.PrType()&512 != 0), "IsNUll": b2(c.PrType()&256 == 0), "FieldPos": fmt.Sprint(j)}
				s := fmt.Sprintf("table %d column %d", t.ID, j)
				for _, a := range colAttrs {
					if has(colT, a) {
						s += fmt.Sprintf(" %s=%q", a, m[a])
					}
				}
				want = append(want, s)
			}
		}
		if haveIdx {
			index := func(id uint64, name string, keys []int) {
				m := map[string]string{"Name": name, "Id": fmt.Sprint(id), "FieldNum": fmt.Sprint(len(keys))}
				s := fmt.Sprintf("table %d index", t.ID)
				for _, a := range idxAttrs {
					if has(idxT, a) {
						s += fmt.Sprintf(" %s=%q", a, m[a])
					}
				}
				if haveFld {
					for _, k := range keys {
						s += fmt.Sprintf(" (%q)", t.Cols[k].Name)
					}
				}
				want = append(want, s)
			}
			index(t.ClustID, t.IdxName(), t.KeyCols)
			for _, x := range t.Sec {
				index(x.ID, x.Name, x.Cols)
			}
		}
	}
	for _, k := range tm.MapKeys() {
		tv := tm.MapIndex(k)
		id := show(k)
		if n, err := strconv.ParseUint(id, 10, 64); err == nil && n >= idb.DroppedID && n < idb.DroppedID+1000 {
			continue // a dropped table may be known
		}
		s := "table " + id
		for _, a := range tabAttrs {
			if f, ok := field(tv, a); ok {
				s += fmt.Sprintf(" %s=%q", a, show(f))
			}
		}
		got = append(got, s)
		if haveCols {
			cs, _ := field(tv, "Columns")
			var all []reflect.Value
			for i := 0; i < cs.Len(); i++ {
				f, _ := field(cs.Index(i), "FieldName")
				if n := show(f); n != "DB_ROW_ID" && n != "DB_TRX_ID" && n != "DB_ROLL_PTR" && !hidden[id+"/"+n] {
					all = append(all, cs.Index(i))
				}
			}
			pos := func(v reflect.Value) uint64 { f, _ := field(v, "FieldPos"); return f.Uint() }
			sort.SliceStable(all, func(i, j int) bool { return pos(all[i]) < pos(all[j]) })
			for i, c := range all {
				s := fmt.Sprintf("table %s column %d", id, i)
				for _, a := range colAttrs {
					if f, ok := field(c, a); ok {
						s += fmt.Sprintf(" %s=%q", a, show(f))
					}
				}
				got = append(got, s)
			}
		}
		if haveIdx {
			xs, _ := field(tv, "Indexes")
			one := func(x reflect.Value) {
				if f, ok := field(x, "Id"); ok {
					if n, err := strconv.ParseUint(show(f), 10, 64); err == nil && n >= idb.DroppedIdx && n < idb.DroppedIdx+1000 {
						return // a dropped index may be known
					}
				}
				s := fmt.Sprintf("table %s index", id)
				for _, a := range idxAttrs {
					if f, ok := field(x, a); ok {
						s += fmt.Sprintf(" %s=%q", a, show(f))
					}
				}
				if haveFld {
					fs, _ := field(x, "Fields")
					for i := 0; i < fs.Len(); i++ {
						f, _ := field(fs.Index(i), "ColumnName")
						s += fmt.Sprintf(" (%q)", show(f))
					}
				}
				got = append(got, s)
			}
			if xs.Kind() == reflect.Map {
				for _, k := range xs.MapKeys() {
					one(xs.MapIndex(k))
				}
			} else {
				for i := 0; i < xs.Len(); i++ {
					one(xs.Index(i))
				}
			}
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	return want, got, true
}

func compareDefs(what string, p interface{}, tabs []idb.Table) (bool, error) {
	want, got, ok := loaded(p, tabs)
	if !ok {
		return false, nil
	}
	if err := compareRows(want, nil, got); err != nil {
		return true, fmt.Errorf("%s: the loaded definitions: %v", what, err)
	}
	return true, nil
}

func runDict(c *DictCase, o *Obs) error {
	setZone("")
	all := c.all()
	pages := idb.BuildDict(all, c.Layout)
	dict := writeFile("ibdata1", idb.File(pages))
	known := all
	if c.Layout.Extras {
		known = append(append([]idb.Table(nil), all...), idb.Extras()...)
	}
	p := ibdata.NewParse()
	r := Exec(func() error { return p.ParseDictPage(dict) })
	if err := r.ok("loading the dictionary"); err != nil {
		return err
	}
	if len(r.Out) > 0 {
		return fmt.Errorf("loading the dictionary prints %.200q", r.Out)
	}
	seen, err := compareDefs("data file parser", p, known)
	if err != nil {
		return err
	}
	o.ClassIf(seen, "definitions compared")
	rows := 0
	r1 := idb.Rng(c.BulkSd)
	for i, k := len(c.Tabs), 0; i < len(all); i, k = i+1+len(all)/5, k+1 { // rows of some of the plain tables
		i := min(i+r1.Intn(1+len(all)/5), len(all)-1)
		t := &all[i]
		pg := Page{Kind: "leaf"}
		for _, st := range []string{"live", "free"} {
			row := Row{State: st, Sys: idb.Sys{RowID: 5, Trx: 77, Roll: 99}}
			for _, col := range t.Cols {
				if col.Null && r1.Intn(3) == 0 {
					row.Vals = append(row.Vals, idb.Val{Nul: true})
				} else {
					row.Vals = append(row.Vals, cheapVal(col, &r1))
				}
			}
			pg.Rows = append(pg.Rows, row)
		}
		d := DataCase{Tabs: all, Target: i, Pages: []Page{pg}}
		data := writeFile("t.ibd", idb.File(dataPages(&d)))
		for _, m := range []bool{false, true} {
			r := Exec(func() error { return p.ParseDataPage(data, t.Schema, t.Name, m) })
			if err := r.ok(modeName(m)); err != nil {
				return fmt.Errorf("%s.%s: %v", t.Schema, t.Name, err)
			}
			got, err := readReplace(t, r.Out)
			if err == nil {
				want, opt := expected(&d, m)
				err = compareRows(want, opt, got)
			}
			if err != nil {
				return fmt.Errorf("%s.%s: %s: %v", t.Schema, t.Name, modeName(m), err)
			}
		}
	}
	for i := range c.Tabs {
		d := DataCase{Tabs: c.Tabs, Target: i, Pages: c.Pages[i]}
		t := d.tab()
		data := writeFile("t.ibd", idb.File(dataPages(&d)))
		for _, m := range []bool{false, true} {
			r := Exec(func() error { return p.ParseDataPage(data, t.Schema, t.Name, m) })
			if err := r.ok(modeName(m)); err != nil {
				return fmt.Errorf("%s.%s: %v", t.Schema, t.Name, err)
			}
			got, err := readReplace(t, r.Out)
			if err != nil {
				return fmt.Errorf("%s.%s: %s: %v", t.Schema, t.Name, modeName(m), err)
			}
			want, opt := expected(&d, m)
			if err := compareRows(want, opt, got); err != nil {
				return fmt.Errorf("%s.%s: %s: %v", t.Schema, t.Name, modeName(m), err)
			}
			rows += len(want)
		}
	}
	q := redo.NewParse("", "")
	r = Exec(func() error { return q.ParseDictPage(dict) })
	if err := r.ok("loading the dictionary for redo recovery"); err != nil {
		return err
	}
	if _, err := compareDefs("redo parser", q, known); err != nil {
		return err
	}
	b, _ := stream(c.Tabs, c.Recs)
	logs := writeLogs(logFiles(b, LogCut{}))
	r = Exec(func() error { return q.ParseRedoLogs(logs) })
	if err := r.ok("redo recovery"); err != nil {
		return err
	}
	got, err := readUpdates(c.Tabs, r.Out)
	if err != nil {
		return fmt.Errorf("redo recovery: %v", err)
	}
	want := updates(c.Tabs, c.Recs, "", "")
	if err := compareSeq(want, got); err != nil {
		return fmt.Errorf("redo recovery: %v", err)
	}
	leaves := [5]int{}
	for _, p := range pages {
		if p != nil && p[24] == 0x45 && p[25] == 0xbf && p[38+26] == 0 && p[38+27] == 0 {
			var id uint64
			for _, x := range p[38+28 : 38+36] {
				id = id<<8 | uint64(x)
			}
			if id >= 1 && id <= 4 {
				leaves[id]++
			}
		}
	}
	for i, n := range []string{"", "SYS_TABLES", "SYS_COLUMNS", "SYS_INDEXES", "SYS_FIELDS"} {
		o.ClassIf(leaves[i] > 1, n+" over several leaf pages")
	}
	o.ClassIf(c.Layout.Shuffle, "pages in arbitrary order")
	o.ClassIf(c.Layout.Heap, "heap order differs from key order")
	o.ClassIf(c.Layout.Ghosts > 0, "rows of dropped tables on free lists")
	o.ClassIf(c.Layout.Dblwr+c.Layout.DblLow > 0, "outdated copies of dictionary pages")
	o.ClassIf(c.Layout.Extras, "SYS_FOREIGN tables")
	o.ClassIf(c.Layout.V57, "5.7 SYS_INDEXES")
	o.ClassIf(c.Bulk > 0, "many tables")
	o.Class("%d tables with data", len(c.Tabs))
	if rows+len(want) > 0 && len(all) > 1 {
		o.NonTrivial()
	}
	o.Note("%d tables, %d rows and %d updates as expected", len(known), rows, len(want))
	return nil
}

func init() {
	Register(&Prop[DictCase]{
		ID:       "C11",
		Rule:     "a system tablespace with 1 to 8 drawn tables (all column types, keys, secondary indexes, both row formats), up to 60 plain tables and InnoDB's own tables, its dictionary rows spread over leaf pages in drawn order with free-list leftovers of dropped and altered tables, unrelated pages and outdated page copies; non-trivial: more than one table and rows or updates of them were decoded and compared",
		Quick:    9000,
		Thorough: 40000,
		Gen: func(t *rapid.T) DictCase {
			var c DictCase
			n := ints(t, 1, 8, "tables")
			c.Tabs = genRedoTabs(t, TabOpt{Kinds: allKinds, MinCols: 2, MaxCols: 6, NullPct: 40, Redundant: 2, Sec: true, OddNames: true, Wide: 2, Fts: 5}, n)
			for i := range c.Tabs {
				if i > 0 && chance(t, 25, "noKey") {
					c.Tabs[i].Key, c.Tabs[i].KeyCols, c.Tabs[i].KeyName = "none", nil, ""
					for j := range c.Tabs[i].Sec {
						c.Tabs[i].Sec[j].Unique = false
					}
				}
				c.Pages = append(c.Pages, genPages(t, &c.Tabs[i], PageOpt{MaxLeaf: 1, MaxRows: 3, States: []string{"live", "free"}, NullPct: 30}))
			}
			c.Layout = genLayout(t, chance(t, 85, "rich"))
			if chance(t, 25, "bulk") {
				c.Bulk, c.BulkSd = ints(t, 1, 60, "bulkN"), seed(t, "bulkSeed")
				if chance(t, 6, "bulkMore") {
					c.Bulk = ints(t, 61, 700, "bulkMoreN")
				}
			}
			c.Recs = genRecs(t, c.Tabs, UndoOpt{NullPct: 20}, 4, 0)
			return c
		},
		Run: runDict,
		Summary: func(c *DictCase) interface{} {
			var ts []string
			for i := range c.Tabs {
				if i < 4 {
					ts = append(ts, showTable(&c.Tabs[i]))
				}
			}
			return map[string]interface{}{"tables": ts, "drawn": len(c.Tabs), "bulk": c.Bulk, "layout": c.Layout, "updates": len(c.Recs)}
		},
		Assumptions: []string{"delete-marked rows that purge has not removed yet are those of renamed, dropped and truncated tables and of dropped indexes"},
	})
}
