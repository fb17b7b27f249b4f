package props

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"verif/idb"
	"verif/sqlp"
)

// redoDict writes the dictionary of a case.
func redoDict(c *RedoCase) string {
	setZone(c.TZ)
	return writeFile("ibdata1", idb.File(idb.BuildDict(c.Tabs, c.Layout)))
}

// observeRedo counts what a log exercises.
func observeRedo(c *RedoCase, o *Obs) (n int) {
	for i := range c.Recs {
		r := &c.Recs[i]
		if r.T != idb.MlogUndoInsert {
			o.Class("record %s", idb.MlogName(r.T))
			continue
		}
		u := r.Undo
		switch {
		case u.Table < 0:
			o.Class("undo record type %d, unknown table", u.Type)
			continue
		default:
			o.Class("undo record type %d", u.Type)
		}
		if !isUpdate(r) {
			continue
		}
		n++
		t := &c.Tabs[u.Table]
		o.ClassIf(t.Redundant, "update of a REDUNDANT table")
		o.ClassIf(len(t.KeyCols) > 1, "update with a composite key")
		o.ClassIf(t.Key == "unique", "update of a table clustered on a unique index")
		o.ClassIf(len(u.Upd) > 1, "update of several columns")
		o.ClassIf(u.Cmpl > 0, "compilation info bits")
		o.ClassIf(u.Extern, "extern flag")
		o.ClassIf(len(u.Ord) > 0, "ordering fields")
		for _, f := range u.Upd {
			o.ClassIf(f.Val.Nul, "old value NULL")
			o.ClassIf(f.Ext > 0, "old value stored externally")
		}
	}
	o.ClassIf(len(c.Cut.Files) > 1, "several files")
	return
}

func runRedoPlain(c *RedoCase, o *Obs) error {
	if err := checkRedo(c); err != nil {
		return err
	}
	if n := observeRedo(c, o); n > 0 {
		o.NonTrivial()
		o.Note("%d updates printed from %d records", n, len(c.Recs))
	}
	return nil
}

var redoKinds = append(append([]string{}, allKinds...), "int", "varchar")

func genRedoCase(t *rapid.T, to TabOpt, ntabs int, uo UndoOpt, maxUndo, maxNoise int) RedoCase {
	var c RedoCase
	c.Tabs = genRedoTabs(t, to, ints(t, 1, ntabs, "tables"))
	c.Layout = genLayout(t, chance(t, 30, "rich"))
	c.Recs = genRecs(t, c.Tabs, uo, maxUndo, maxNoise)
	c.Cut = genCut(t)
	c.TZ = pick(t, zones, "tz")
	return c
}

// ---- C16 ----

func genUpdates(t *rapid.T) RedoCase {
	to := TabOpt{Kinds: redoKinds, MinCols: 2, MaxCols: 7, NullPct: 40, Redundant: 2, MaxKey: 3, Sec: true, Wide: 4, Fts: 6}
	return genRedoCase(t, to, 3, UndoOpt{Others: 35, NullPct: 30, Ext: 15}, 7, 1)
}

// sweepUpdates: every choice of key columns and order of a small table with
// every subset of updated columns, NULL or not.
func sweepUpdates(thorough bool) []RedoCase {
	var out []RedoCase
	kinds := []idb.Col{{Name: "a", Kind: "int", Size: 4}, {Name: "b", Kind: "varchar", Size: 300, CS: 8}, {Name: "c", Kind: "varbinary", Size: 10}, {Name: "d", Kind: "bit", Size: 9}}
	val := func(i, k int) idb.Val {
		switch i {
		case 0:
			return idb.Val{N: uint64(int64(k - 3))}
		case 3:
			return idb.Val{N: uint64(k) & 511}
		}
		return idb.Val{B: []byte(fmt.Sprintf("v%d'%d", i, k))}
	}
	for _, red := range []bool{false, true} {
		for _, key := range []string{"primary", "unique"} {
			for _, kc := range [][]int{{0}, {1}, {2}, {3}, {0, 1}, {1, 0}, {2, 0}, {3, 1}, {2, 1, 0}, {1, 3, 2}} {
				tb := idb.Table{Schema: "test", Name: "t", Key: key, KeyName: "zz", KeyCols: kc, Redundant: red, Cols: append([]idb.Col(nil), kinds...)}
				for i := range tb.Cols {
					tb.Cols[i].Null = true
				}
				for _, k := range kc {
					tb.Cols[k].Null = false
				}
				tabs := []idb.Table{tb}
				setIDs(tabs, 300)
				c := RedoCase{Tabs: tabs, Layout: idb.DictLayout{V57: red}}
				up := updatable(&tabs[0])
				for m := 1; m < 1<<len(up); m++ {
					for nul := 0; nul < 1<<len(up); nul++ {
						if nul&^m != 0 {
							continue
						}
						u := &idb.Undo{Type: 12, UndoNo: uint64(m), Trx: uint64(nul) << 20, Roll: 1 << 48, Null57: (m+nul)%2 == 0, Cmpl: m % 4}
						for _, k := range kc {
							u.Key = append(u.Key, val(k, m*8+nul))
						}
						for b, ci := range up {
							if m>>b&1 == 0 {
								continue
							}
							f := idb.UpdField{Col: ci, Val: val(ci, nul*9+m)}
							if nul>>b&1 == 1 {
								f.Val = idb.Val{Nul: true}
							}
							u.Upd = append(u.Upd, f)
						}
						c.Recs = append(c.Recs, idb.LogRec{T: idb.MlogUndoInsert, Single: m%2 == 1, Space: 3, Page: 300, Undo: u})
					}
				}
				out = append(out, c)
			}
		}
	}
	// every type byte of undo records, for tables with and without a key
	for ty := 11; ty <= 14; ty++ {
		for fl := 0; fl < 16; fl++ {
			tabs := []idb.Table{{Schema: "test", Name: "t", Key: "primary", KeyCols: []int{0}, Cols: []idb.Col{{Name: "a", Kind: "int", Size: 4}, {Name: "b", Kind: "varchar", Size: 20, CS: 8, Null: true}}},
				{Schema: "test", Name: "nokey", Key: "none", Cols: []idb.Col{{Name: "a", Kind: "int", Size: 4}}}}
			setIDs(tabs, 40)
			c := RedoCase{Tabs: tabs}
			for i := 0; i < 3; i++ {
				u := &idb.Undo{Type: ty, Cmpl: fl & 7, Extern: fl&8 != 0, UndoNo: uint64(i), Trx: 500, Roll: 3, Key: []idb.Val{{N: uint64(i)}}}
				if ty == 12 || ty == 13 {
					u.Upd = []idb.UpdField{{Col: 1, Val: idb.Val{B: []byte("old")}}}
				}
				c.Recs = append(c.Recs, idb.LogRec{T: idb.MlogUndoInsert, Space: 0, Page: 300, Undo: u})
				if ty == 11 || ty == 14 {
					c.Recs = append(c.Recs, idb.LogRec{T: idb.MlogUndoInsert, Space: 0, Page: 300, Undo: &idb.Undo{Type: ty, Cmpl: fl & 7, Extern: fl&8 != 0, Table: 1, RowID: 7, Trx: 9, Roll: 9}})
				}
			}
			out = append(out, c)
		}
	}
	return out
}

// ---- C17: framing ----

// FrameCase is a log with records of other kinds at marked places.
type FrameCase struct {
	Log RedoCase `json:"log"`
}

func genFrames(t *rapid.T) RedoCase {
	to := TabOpt{Kinds: plainKinds, MinCols: 2, MaxCols: 4, NullPct: 40, Redundant: 2}
	c := genRedoCase(t, to, 2, UndoOpt{Others: 25, NullPct: 30, Ext: 15}, 4, 8)
	return c
}

// runFrames compares the log with the log without the other records.
func runFrames(c *RedoCase, o *Obs) error {
	dict := redoDict(c)
	var only []idb.LogRec
	for _, r := range c.Recs {
		if r.T == idb.MlogUndoInsert {
			only = append(only, r)
		}
	}
	var outs [2][]byte
	for i, recs := range [][]idb.LogRec{only, c.Recs} {
		b, _ := stream(c.Tabs, recs)
		r := runRedo(dict, writeLogs(logFiles(b, c.Cut)), c.Schema, c.Table)
		if err := r.ok("redo recovery"); err != nil {
			return err
		}
		outs[i] = r.Out
		got, err := readUpdates(c.Tabs, r.Out)
		if err != nil {
			return fmt.Errorf("redo recovery: %v", err)
		}
		if err := compareSeq(updates(c.Tabs, recs, c.Schema, c.Table), got); err != nil {
			return fmt.Errorf("%s: %v", []string{"without other records", "with other records"}[i], err)
		}
	}
	if !bytes.Equal(outs[0], outs[1]) {
		return fmt.Errorf("records of other kinds change the output:\n  %.300q\n  against\n  %.300q", outs[1], outs[0])
	}
	if n := observeRedo(c, o); n > 0 && len(only) < len(c.Recs) {
		o.NonTrivial()
		o.Note("%d updates among %d other records", n, len(c.Recs)-len(only))
	}
	return nil
}

func tinyTabs() []idb.Table {
	tabs := []idb.Table{{Schema: "test", Name: "t", Key: "primary", KeyCols: []int{0}, Cols: []idb.Col{{Name: "a", Kind: "int", Size: 4}, {Name: "b", Kind: "varchar", Size: 40, CS: 8, Null: true}}}}
	setIDs(tabs, 40)
	return tabs
}

func tinyUndo(i int) idb.LogRec {
	return idb.LogRec{T: idb.MlogUndoInsert, Single: i%2 == 0, Space: 3, Page: uint32(100 + i), Undo: &idb.Undo{Type: 12, UndoNo: uint64(i), Trx: 1000, Roll: 77,
		Key: []idb.Val{{N: uint64(i)}}, Upd: []idb.UpdField{{Col: 1, Val: idb.Val{B: []byte(fmt.Sprintf("old value %d", i))}}}}}
}

// sweepFrames puts every record kind, in both group forms and many shapes,
// before, between and behind undo records, with every encoded length of the
// space and page numbers.
func sweepFrames(thorough bool) []RedoCase {
	var out []RedoCase
	tabs := tinyTabs()
	shapes := 24
	if thorough {
		shapes = 200
	}
	nums := []uint32{0, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0xff000000, 0xfffe0000, 0xfffffc00, 0xfffffff0, 0xffffffff}
	sizes := []int{0, 1, 2, 5, 63, 64, 65, 126, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 16383}
	for _, m := range idb.MlogTypes {
		for v := 0; v < 3; v++ {
			single, v57 := v%2 == 1, v == 2
			var recs []idb.LogRec
			flush := func() {
				out = append(out, RedoCase{Tabs: tabs, Recs: recs})
				recs = nil
			}
			recs = append(recs, tinyUndo(0))
			add := func(r idb.LogRec) {
				r.T, r.Single, r.V57 = m.T, single, v57
				recs = append(recs, r, tinyUndo(len(recs)))
				if len(recs) > 12 {
					flush()
				}
			}
			for _, n := range nums {
				add(idb.LogRec{Space: n, Page: 5, Seed: uint64(n)})
				add(idb.LogRec{Space: 5, Page: n, Seed: uint64(n) + 1})
			}
			for _, n := range sizes {
				add(idb.LogRec{Space: 5, Page: 6, Seed: uint64(n) * 7, N: n})
			}
			for k := 0; k < shapes; k++ {
				add(idb.LogRec{Space: 5, Page: 6, Seed: uint64(k) * 131, N: k * 3})
			}
			flush()
			// first and last of a log
			out = append(out, RedoCase{Tabs: tabs, Recs: []idb.LogRec{{T: m.T, Single: single, Space: 9, Page: 9, Seed: 3, N: 9}, tinyUndo(1), {T: m.T, Single: single, Space: 9, Page: 9, Seed: 4, N: 8}}})
		}
	}
	// every pair of kinds next to each other
	for i, a := range idb.MlogTypes {
		var recs []idb.LogRec
		for j, b := range idb.MlogTypes {
			s := uint64(i*100 + j)
			recs = append(recs, idb.LogRec{T: a.T, Space: 1, Page: 2, Seed: s, N: 20}, idb.LogRec{T: b.T, Single: true, Space: 200, Page: 70000, Seed: s + 1, N: 150}, tinyUndo(j))
		}
		out = append(out, RedoCase{Tabs: tabs, Recs: recs})
	}
	return out
}

// ---- C18: blocks and files ----

// CutCase is one log cut in two ways.
type CutCase struct {
	Log RedoCase `json:"log"`
	At  []int    `json:"at,omitempty"` // the second cutting: ends of files within the stream
	Cut LogCut   `json:"cut2"`
}

// cutAt makes one file per part of the stream.
func cutAt(b []byte, at []int, cut LogCut) [][]byte {
	var out [][]byte
	lo := 0
	for i := 0; i <= len(at); i++ {
		hi := len(b)
		if i < len(at) {
			hi = min(max(at[i], lo), len(b))
		}
		c := cut
		c.Files = nil
		c.Seed += uint64(i)
		c.FirstNo += uint32(i * 1000)
		if i < len(at) {
			c.Tail = 0
		}
		out = append(out, logFiles(b[lo:hi], c)...)
		lo = hi
	}
	return out
}

func genCuts(t *rapid.T) CutCase {
	to := TabOpt{Kinds: plainKinds, MinCols: 2, MaxCols: 5, NullPct: 30, Redundant: 2}
	c := CutCase{Log: genRedoCase(t, to, 2, UndoOpt{Others: 20, NullPct: 30, Ext: 15}, 6, 3)}
	c.Cut = genCut(t)
	c.Cut.Files = nil
	b, _ := stream(c.Log.Tabs, c.Log.Recs)
	n := ints(t, 0, 5, "files")
	if chance(t, 10, "dozens") {
		n = pick(t, []int{7, 8, 9, 15, 16, 32, 99}, "filesN")
	}
	for i := n; i > 0; i-- {
		c.At = append(c.At, ints(t, 0, len(b), "end"))
	}
	c.At = sortedInts(c.At)
	return c
}

func runCuts(c *CutCase, o *Obs) error {
	dict := redoDict(&c.Log)
	b, ends := stream(c.Log.Tabs, c.Log.Recs)
	var outs [2][]byte
	want := updates(c.Log.Tabs, c.Log.Recs, "", "")
	for i := range outs {
		files := logFiles(b, c.Log.Cut)
		if i == 1 {
			files = cutAt(b, c.At, c.Cut)
		}
		r := runRedo(dict, writeLogs(files), "", "")
		what := fmt.Sprintf("%d files", len(files))
		if err := r.ok(what); err != nil {
			return err
		}
		outs[i] = r.Out
		got, err := readUpdates(c.Log.Tabs, r.Out)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if err := compareSeq(want, got); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	}
	if !bytes.Equal(outs[0], outs[1]) {
		return fmt.Errorf("the cutting changes the output:\n  %.300q\n  against\n  %.300q", outs[1], outs[0])
	}
	n := observeRedo(&c.Log, o)
	crossB, crossF := false, false
	lo := 0
	for i, e := range ends {
		if isUpdate(&c.Log.Recs[i]) {
			crossB = crossB || lo/496 != (e-1)/496
			for _, a := range c.At {
				crossF = crossF || a > lo && a < e
			}
		}
		lo = e
	}
	o.ClassIf(crossB, "update across a block boundary")
	o.ClassIf(crossF, "update across a file boundary")
	o.Class("log of %d blocks", min(len(b)/496+1, 8))
	if n > 0 && (len(b) > 496 || len(c.At) > 0) {
		o.NonTrivial()
		o.Note("%d updates, %d bytes, %d files against %d", n, len(b), max(1, len(c.Log.Cut.Files)), len(c.At)+1)
	}
	return nil
}

// padTo makes records of n bytes, most of them at the end short.
func padTo(n int, tabs []idb.Table) (recs []idb.LogRec, left int) {
	for n >= 7 {
		k := min(n-7, 8000)
		if rest := n - 7 - k; rest > 0 && rest < 7 {
			k -= 7
		}
		recs = append(recs, idb.LogRec{T: idb.MlogString, Space: 3, Page: 4, Seed: uint64(n), N: k})
		last := &recs[len(recs)-1]
		n -= len(last.Bytes(tabs))
	}
	return recs, n
}

// sweepCuts moves block and file boundaries over every byte of undo records.
func sweepCuts(thorough bool) []CutCase {
	var out []CutCase
	tabs := tinyTabs()
	one := tinyUndo(0)
	size := len(one.Bytes(tabs))
	// block boundary within a record, by padding in front of it
	for pad := 496 - size - 14; pad <= 500; pad++ {
		for _, last := range []bool{false, true} {
			// the padding record itself is 7 bytes long without its string
			n := pad - 7
			if n < 0 {
				continue
			}
			recs := []idb.LogRec{{T: idb.MlogString, Space: 3, Page: 4, Seed: uint64(pad), N: n}, tinyUndo(0)}
			if !last {
				recs = append(recs, tinyUndo(1), idb.LogRec{T: idb.MlogMultiEnd})
			}
			c := CutCase{Log: RedoCase{Tabs: tabs, Recs: recs}}
			b, _ := stream(tabs, recs)
			c.At = []int{len(b) / 3}
			c.Cut.FirstNo = 9
			out = append(out, c)
		}
	}
	// file boundary at every byte, also twice
	recs := []idb.LogRec{tinyUndo(0), {T: idb.MlogDummy}, tinyUndo(1), {T: idb.Mlog4, Space: 3, Page: 4, Seed: 9}, tinyUndo(2)}
	b, _ := stream(tabs, recs)
	for i := 0; i <= len(b); i++ {
		out = append(out, CutCase{Log: RedoCase{Tabs: tabs, Recs: recs}, At: []int{i}, Cut: LogCut{Seed: uint64(i), FirstNo: 5, Tail: i % 2}})
		out = append(out, CutCase{Log: RedoCase{Tabs: tabs, Recs: recs}, At: []int{i, min(i+1+i%3, len(b))}, Cut: LogCut{Seed: uint64(i), FirstNo: 5}})
	}
	// large logs: whatever is read or parsed in portions of a size
	for i, kb := range []int{66, 140, 290, 700, 1400, 2700} {
		if kb > 700 && !thorough && i%2 == 0 {
			continue
		}
		for d := 0; d < 3; d++ {
			var recs []idb.LogRec
			size := 0
			for k := 0; size < kb*1024; k++ {
				n := 3000 + (k*7919+d*31)%5000
				recs = append(recs, idb.LogRec{T: idb.MlogString, Space: 3, Page: 4, Seed: uint64(k), N: n}, tinyUndo(k%3))
				size += n + 7 + len(one.Bytes(tabs))
			}
			b, _ := stream(tabs, recs)
			c := CutCase{Log: RedoCase{Tabs: tabs, Recs: recs}, Cut: LogCut{FirstNo: 3, Seed: uint64(kb)}}
			for f := 1; f < 2+d; f++ { // within an update, by chance of one of the offsets
				c.At = append(c.At, len(b)*f/(2+d)/65536*65536+d*11)
			}
			c.At = sortedInts(c.At)
			out = append(out, c)
		}
	}
	// a boundary of a power of two within an update's record
	for _, n := range []int{4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20} {
		for d := 1; d < size; d += 5 {
			if n > 65536 && d%3 != 0 && !thorough {
				continue
			}
			for _, at := range []int{n, n / 512 * 496, (n - 2048) / 512 * 496} { // in the stream, behind the file header, in the file
				recs, _ := padTo(at-d, tabs)
				recs = append(recs, tinyUndo(0), tinyUndo(1))
				out = append(out, CutCase{Log: RedoCase{Tabs: tabs, Recs: recs}, At: []int{at}, Cut: LogCut{FirstNo: 7, Seed: uint64(d)}})
			}
		}
	}
	// logs of many blocks, each total length around a block's end
	for _, blocks := range []int{1, 2, 3, 9} {
		for d := -3; d <= 3; d++ {
			var recs []idb.LogRec
			for i := 0; i < 3; i++ {
				recs = append(recs, tinyUndo(i))
			}
			b, _ := stream(tabs, recs)
			n := blocks*496 + d - len(b) - 7
			if n < 0 {
				continue
			}
			recs = append([]idb.LogRec{{T: idb.MlogString, Space: 3, Page: 4, Seed: 1, N: n}}, recs...)
			out = append(out, CutCase{Log: RedoCase{Tabs: tabs, Recs: recs, Cut: LogCut{Tail: 1}}, At: []int{496 * blocks / 2}, Cut: LogCut{FirstNo: 3, Seed: 5}})
		}
	}
	return out
}

// ---- C19: selection ----

func genSelect(t *rapid.T) RedoCase {
	to := TabOpt{Kinds: plainKinds, MinCols: 2, MaxCols: 4, NullPct: 30, Redundant: 2}
	var c RedoCase
	n := ints(t, 2, 5, "tables")
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		o := to
		o.Keys = []string{"primary", "unique"}
		tb := genRedoTabs(t, o, 1)[0]
		for k := 0; ; k++ {
			tb.Schema, tb.Name = pick(t, []string{"a", "b", "ab", "A", "test", "a-b", "a b"}, "schema"), pick(t, []string{"t", "a", "T", "tt", "b", "t_1", "t-1", "中文"}, "name")
			if i > 0 && chance(t, 35, "kin") { // a name made of another one
				kin := pick(t, c.Tabs, "kinOf")
				with := func(x, label string) string {
					part := pick(t, []string{"#", "#1", ".", ".t", "/", "/t", "@", "$", " x", "-", "_", "%", "*", ",", "`", "'", "\"", "\\", "2", "é", x, "." + x, "/" + x}, label)
					if rapid.Bool().Draw(t, label+"Front") {
						return part + x
					}
					return x + part
				}
				if chance(t, 70, "kinName") {
					tb.Schema, tb.Name = kin.Schema, with(kin.Name, "kinPart")
				} else {
					tb.Schema, tb.Name = with(kin.Schema, "kinSchema"), kin.Name
				}
			}
			if k > 3 {
				tb.Name = fmt.Sprintf("%s%d", tb.Name, i)
			}
			if !used[tb.Schema+"/"+tb.Name] {
				break
			}
		}
		used[tb.Schema+"/"+tb.Name] = true
		c.Tabs = append(c.Tabs, tb)
	}
	setIDs(c.Tabs, pick(t, []uint64{40, 126, 1 << 32}, "idBase"))
	shareSpaces(t, c.Tabs, 25)
	c.Layout = genLayout(t, chance(t, 30, "rich"))
	c.Recs = genRecs(t, c.Tabs, UndoOpt{Others: 15, NullPct: 30, Ext: 15}, 10, 1)
	c.Cut = genCut(t)
	if chance(t, 80, "schemaGiven") {
		c.Schema = pick(t, c.Tabs, "selSchema").Schema
		if chance(t, 10, "schemaOther") {
			c.Schema = pick(t, []string{"B", "aa", "test2", "tes", "t"}, "otherSchema")
		}
	}
	if chance(t, 60, "tableGiven") {
		c.Table = pick(t, c.Tabs, "selTable").Name
		if chance(t, 10, "tableOther") {
			c.Table = pick(t, []string{"t_", "ttt", "x", "a.t", "t_12"}, "otherTable")
		}
	}
	if (c.Schema != "" || c.Table != "") && chance(t, 15, "nearMiss") {
		s, n := nearMiss(t, c.Tabs, ints(t, 0, len(c.Tabs)-1, "near"))
		if c.Schema != "" {
			c.Schema = s
		}
		if c.Table != "" {
			c.Table = n
		}
	}
	return c
}

func runSelect(c *RedoCase, o *Obs) error {
	dict := redoDict(c)
	b, _ := stream(c.Tabs, c.Recs)
	logs := writeLogs(logFiles(b, c.Cut))
	all := runRedo(dict, logs, "", "")
	if err := all.ok("without a selection"); err != nil {
		return err
	}
	sel := runRedo(dict, logs, c.Schema, c.Table)
	what := fmt.Sprintf("selection schema=%q table=%q", c.Schema, c.Table)
	if err := sel.ok(what); err != nil {
		return err
	}
	got, err := readUpdates(c.Tabs, sel.Out)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	want := updates(c.Tabs, c.Recs, c.Schema, c.Table)
	if err := compareSeq(want, got); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	// the selected statements of the unselected run, to the byte
	lines, err := splitLines(all.Out)
	if err != nil {
		return err
	}
	var keep []byte
	for _, l := range lines {
		st, err := sqlp.Parse(l)
		if err != nil {
			return fmt.Errorf("without a selection: %v", err)
		}
		if (c.Schema == "" || st.Schema == c.Schema) && (c.Table == "" || st.Table == c.Table) {
			keep = append(append(keep, l...), '\n')
		}
	}
	if !bytes.Equal(keep, sel.Out) {
		return fmt.Errorf("%s changes the statements:\n  %.300q\n  against\n  %.300q", what, sel.Out, keep)
	}
	total := len(lines)
	switch {
	case c.Schema == "" && c.Table == "":
		o.Class("no selection")
	case c.Schema == "":
		o.Class("table only")
	case c.Table == "":
		o.Class("schema only")
	default:
		o.Class("schema and table")
	}
	o.ClassIf(len(want) > 0 && len(want) < total, "some updates selected")
	o.ClassIf(len(want) == 0 && total > 0, "no update selected")
	if total > 0 && (c.Schema != "" || c.Table != "") {
		o.NonTrivial()
		o.Note("%d of %d updates selected", len(want), total)
	}
	return nil
}

func sweepSelect(thorough bool) []RedoCase {
	var tabs []idb.Table
	names := []string{"a", "b", "ab", "A"}
	for _, s := range names {
		for _, n := range names {
			tb := tinyTabs()[0]
			tb.Schema, tb.Name = s, n
			tabs = append(tabs, tb)
		}
	}
	setIDs(tabs, 40)
	var recs []idb.LogRec
	for i := range tabs {
		u := tinyUndo(i)
		u.Undo.Table = i
		recs = append(recs, u)
	}
	var out []RedoCase
	for _, s := range append(names, "", "B", "c") {
		for _, n := range append(names, "", "B", "c") {
			out = append(out, RedoCase{Tabs: tabs, Recs: recs, Schema: s, Table: n})
		}
	}
	return out
}

// ---- C20: truncation ----

// TruncCase is a log that ends early: its last kept file has Size bytes, or
// the stream itself ends at StreamEnd.
type TruncCase struct {
	Log    RedoCase `json:"log"`
	File   int      `json:"file"`
	Size   int      `json:"size"`
	Stream bool     `json:"stream,omitempty"` // Size counts bytes of the record stream, the block says so
}

func genTrunc(t *rapid.T) TruncCase {
	to := TabOpt{Kinds: redoKinds, MinCols: 2, MaxCols: 5, NullPct: 30, Redundant: 2, Wide: 2}
	c := TruncCase{Log: genRedoCase(t, to, 2, UndoOpt{Others: 20, NullPct: 30, Ext: 15}, 6, 2)}
	b, _ := stream(c.Log.Tabs, c.Log.Recs)
	c.Stream = rapid.Bool().Draw(t, "stream")
	if c.Stream {
		c.Size = ints(t, 0, len(b), "size")
		return c
	}
	files := logFiles(b, c.Log.Cut)
	c.File = ints(t, 0, len(files)-1, "file")
	c.Size = ints(t, 0, len(files[c.File]), "size")
	if len(files[c.File]) > 2048 && chance(t, 80, "body") {
		c.Size = ints(t, 2048, len(files[c.File]), "bodySize")
	}
	return c
}

// streamIn counts the stream bytes that a file of size bytes holds.
func streamIn(file []byte, size int) int {
	n := 0
	for at := 2048; at+12 < len(file); at += 512 {
		dl := int(file[at+4])<<8 | int(file[at+5])
		if dl == 0 {
			break
		}
		if dl == 512 {
			dl = 508
		}
		n += max(0, min(size-at, dl)-12)
	}
	return n
}

// completeBefore counts the updates that lie in the first n bytes of the
// stream, and gives the statement of the one that is cut, if any.
func completeBefore(c *RedoCase, ends []int, n int) (want []string, cut string) {
	lo := 0
	for i, e := range ends {
		if u := c.Recs[i].Undo; isUpdate(&c.Recs[i]) && !setsNothing(&c.Tabs[u.Table], u) {
			s := canonUndo(&c.Tabs[u.Table], u)
			if e <= n {
				want = append(want, s)
			} else if lo < n {
				cut = s
			}
		}
		lo = e
	}
	return
}

func runTrunc(c *TruncCase, o *Obs) error {
	dict := redoDict(&c.Log)
	b, ends := stream(c.Log.Tabs, c.Log.Recs)
	var files [][]byte
	n := 0
	if c.Stream {
		n = min(c.Size, len(b))
		files = logFiles(b[:n], c.Log.Cut)
		o.Class("the last block ends within a record")
	} else {
		files = logFiles(b, c.Log.Cut)
		f := min(c.File, len(files)-1)
		for i := 0; i < f; i++ {
			n += streamIn(files[i], len(files[i]))
		}
		size := min(c.Size, len(files[f]))
		n += streamIn(files[f], size)
		files[f] = files[f][:size]
		files = files[:f+1]
		switch {
		case size < 2048:
			o.Class("file ends within its header")
		case size%512 < 12:
			o.Class("file ends within a block header")
		default:
			o.Class("file ends within a block")
		}
		if size < 2048 {
			n = 0 // an incomplete header may be an error
		}
	}
	r := runRedo(dict, writeLogs(files), "", "")
	if r.Panic != "" {
		return fmt.Errorf("log cut at %d: panic: %s", c.Size, r.Panic)
	}
	size := 0
	for _, f := range files {
		size += len(f)
	}
	if r.Alloc > allocLimit(size) {
		return fmt.Errorf("log cut at %d: %d MB allocated for %d bytes", c.Size, r.Alloc>>20, size)
	}
	got, err := readUpdates(c.Log.Tabs, r.Out)
	if err != nil {
		return fmt.Errorf("log cut at %d: %v", c.Size, err)
	}
	want, cut := completeBefore(&c.Log, ends, n)
	if len(got) == len(want)+1 && cut != "" && got[len(got)-1] == cut {
		got = got[:len(got)-1]
		o.Class("the cut update printed as it is")
	}
	if !c.Stream && c.Size < 2048 && len(got) > len(want) {
		// earlier complete files before an incomplete one: their updates may be printed
		k := 0
		for i := 0; i < c.File && i < len(files)-1; i++ {
			k += streamIn(files[i], len(files[i]))
		}
		want, cut = completeBefore(&c.Log, ends, k)
		if len(got) == len(want)+1 && cut == got[len(got)-1] {
			got = got[:len(got)-1]
		}
	}
	if err := compareSeq(want, got); err != nil {
		return fmt.Errorf("log cut at %d (%d stream bytes): %v", c.Size, n, err)
	}
	o.ClassIf(cut != "", "an update is cut")
	if len(updates(c.Log.Tabs, c.Log.Recs, "", "")) > 0 && n < len(b) {
		o.NonTrivial()
		o.Note("%d updates before the cut at byte %d", len(want), c.Size)
	}
	return nil
}

// sweepTrunc cuts small logs at every byte.
func sweepTrunc(thorough bool) []TruncCase {
	var out []TruncCase
	mk := func(recs []idb.LogRec, tabs []idb.Table) {
		lg := RedoCase{Tabs: tabs, Recs: recs}
		b, _ := stream(tabs, recs)
		for i := 0; i <= len(b); i++ {
			out = append(out, TruncCase{Log: lg, Size: i, Stream: true})
		}
		f := logFiles(b, lg.Cut)[0]
		for i := 2040; i <= len(f); i++ {
			if i > 2048+12+len(b)+16 && i%512 > 14 && i%512 < 506 {
				continue
			}
			out = append(out, TruncCase{Log: lg, Size: i})
		}
	}
	tabs := tinyTabs()
	mk([]idb.LogRec{tinyUndo(0), {T: idb.MlogCompInsert, Space: 3, Page: 4, Seed: 9, N: 20}, tinyUndo(1), {T: idb.MlogMultiEnd}, tinyUndo(2)}, tabs)
	wide := []idb.Table{{Schema: "test", Name: "t", Key: "primary", KeyCols: []int{1, 0}, Cols: []idb.Col{{Name: "a", Kind: "int", Size: 8}, {Name: "b", Kind: "varchar", Size: 40, CS: 8},
		{Name: "c", Kind: "varbinary", Size: 300, Null: true}, {Name: "d", Kind: "datetime", Null: true}, {Name: "e", Kind: "bit", Size: 3, Null: true}, {Name: "f", Kind: "text", Size: 2, CS: 33, Null: true}}}}
	setIDs(wide, 1<<32+7)
	var recs []idb.LogRec
	for i := 0; i < 3; i++ {
		recs = append(recs, idb.LogRec{T: idb.MlogUndoInsert, Single: true, Space: 0x12345, Page: 0x1234567, Undo: &idb.Undo{Type: 12, UndoNo: 1 << 40, Trx: 1 << 33, Roll: 1 << 50, Null57: i == 1, Cmpl: i,
			Key: []idb.Val{{B: []byte("key")}, {N: 5}}, Upd: []idb.UpdField{{Col: 2, Val: idb.Val{B: pattern(130, 1)}}, {Col: 3, Val: idb.Val{N: 20240229235959}}, {Col: 4, Val: idb.Val{Nul: i > 0, N: 5 * uint64(b2i(i == 0))}}, {Col: 5, Val: idb.Val{B: []byte("it's")}}}}})
	}
	mk(recs, wide)
	if thorough {
		for k, m := range idb.MlogTypes {
			mk([]idb.LogRec{tinyUndo(0), {T: m.T, Space: 3, Page: 4, Seed: uint64(k), N: 12}, tinyUndo(1)}, tabs)
		}
	} else {
		for k, m := range idb.MlogTypes {
			recs := []idb.LogRec{tinyUndo(0), {T: m.T, Space: 3, Page: 4, Seed: uint64(k), N: 12}, tinyUndo(1)}
			b, ends := stream(tabs, recs)
			for i := ends[0]; i <= min(ends[1]+1, len(b)); i++ {
				out = append(out, TruncCase{Log: RedoCase{Tabs: tabs, Recs: recs}, Size: i, Stream: true})
			}
		}
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C21: damage ----

// LogDamage overwrites a log from some place on, or changes single bytes.
type LogDamage struct {
	Kind string `json:"kind"` // random, zero, ff, records: the rest of the file; stream: the rest of the record stream; bytes: single bytes of the stream
	At   int    `json:"at"`
	Seed uint64 `json:"seed"`
	N    int    `json:"n,omitempty"`
}

// LogDamageCase is a damaged log; with Raw the whole content is arbitrary.
type LogDamageCase struct {
	Log RedoCase  `json:"log"`
	D   LogDamage `json:"damage"`
	Raw []byte    `json:"raw,omitempty"`
}

func genLogDamage(t *rapid.T) LogDamageCase {
	to := TabOpt{Kinds: redoKinds, MinCols: 2, MaxCols: 5, NullPct: 30, Redundant: 2, Keys: []string{"primary", "unique", "none"}, Wide: 2}
	c := LogDamageCase{Log: genRedoCase(t, to, 2, UndoOpt{Others: 10, NullPct: 30, Ext: 15}, 5, 2)}
	c.Log.Cut.Files = nil
	c.D.Kind = pick(t, []string{"stream", "bytes", "random", "records", "ones", "zero", "ff", "undo", "file"}, "kind")
	c.D.Seed = seed(t, "damageSeed")
	b, ends := stream(c.Log.Tabs, c.Log.Recs)
	switch c.D.Kind {
	case "stream", "bytes", "records", "undo", "ones":
		c.D.At = ints(t, 0, len(b), "at")
		if len(ends) > 0 && chance(t, 50, "atEnd") {
			c.D.At = pick(t, ends, "end")
		}
		c.D.N = ints(t, 1, 600, "n")
		if c.D.Kind == "bytes" {
			c.D.N = ints(t, 1, 4, "n")
		}
	case "file":
		c.D.At, c.D.N = 0, ints(t, 0, 6000, "n")
	default:
		f := logFiles(b, c.Log.Cut)[0]
		c.D.At = ints(t, 0, len(f), "at")
		if len(f) > 2048 && chance(t, 80, "body") {
			c.D.At = ints(t, 2048, len(f), "bodyAt")
		}
	}
	if chance(t, 3, "raw") {
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 3000).Draw(t, "rawBytes")
	}
	return c
}

// junk makes a stream of n bytes that looks like log records for a while.
func junk(c *RedoCase, kind string, n int, seed uint64) []byte {
	r := idb.Rng(seed)
	var b []byte
	for len(b) < n {
		switch kind {
		case "records": // record starts with arbitrary bodies
			m := idb.MlogTypes[r.Intn(len(idb.MlogTypes))].T
			if r.Intn(3) == 0 {
				m = idb.MlogUndoInsert
			}
			b = append(b, byte(m)|byte(r.Intn(2))<<7, byte(r.Intn(128)), byte(r.Intn(128)))
			x := make([]byte, r.Intn(24))
			r.Bytes(x)
			b = append(b, x...)
		case "ones": // long runs of extreme bytes after a record start
			m := idb.MlogTypes[r.Intn(len(idb.MlogTypes))].T
			if r.Intn(3) == 0 {
				m = idb.MlogUndoInsert
			}
			b = append(b, byte(m), byte(r.Intn(128)), byte(r.Intn(128)))
			v := []byte{0xff, 0x80, 0x7f, 0xf0, 0}[r.Intn(5)]
			for k := r.Intn(30); k > 0; k-- {
				if r.Intn(8) == 0 {
					v = byte(r.Next())
				}
				b = append(b, v)
			}
		case "undo": // undo records of known tables with arbitrary fields
			t := &c.Tabs[r.Intn(len(c.Tabs))]
			body := []byte{byte([]int{12, 12, 12, 14, 13, 11}[r.Intn(6)])}
			body = append(body, idb.Much64(uint64(r.Intn(100)))...)
			body = append(body, idb.Much64(t.ID)...)
			body = append(body, 0)
			body = append(body, idb.Comp64(5)...)
			body = append(body, idb.Comp64(5)...)
			for k := 0; k < r.Intn(12); k++ {
				switch r.Intn(4) {
				case 0:
					body = append(body, idb.Comp(uint32(r.Next())>>uint(r.Intn(32)))...)
				case 1:
					body = append(body, idb.Comp(uint32(r.Intn(12)))...)
				case 2:
					x := make([]byte, r.Intn(12))
					r.Bytes(x)
					body = append(append(body, byte(len(x))), x...)
				case 3:
					body = append(body, idb.Comp57(0xffffffff)...)
				}
			}
			l := len(body)
			if r.Intn(4) == 0 {
				l = r.Intn(65536)
			}
			b = append(b, idb.MlogUndoInsert, 3, 4, byte(l>>8), byte(l))
			b = append(b, body...)
		default:
			x := make([]byte, n)
			r.Bytes(x)
			b = append(b, x...)
		}
	}
	return b
}

func runLogDamage(c *LogDamageCase, o *Obs) error {
	dict := redoDict(&c.Log)
	b, ends := stream(c.Log.Tabs, c.Log.Recs)
	n := 0 // intact stream bytes
	var file []byte
	d := &c.D
	at := d.At
	switch d.Kind {
	case "stream", "records", "ones", "undo":
		at = min(at, len(b))
		n = at
		b = append(b[:at:at], junk(&c.Log, d.Kind, d.N, d.Seed)...)
		file = logFiles(b, c.Log.Cut)[0]
	case "bytes":
		at = min(at, len(b))
		n = at
		r := idb.Rng(d.Seed)
		for k := 0; k < d.N && at < len(b); k++ {
			p := at + r.Intn(min(len(b)-at, 40))
			b[p] = []byte{0, 0xff, 0x80, 0x7f, byte(r.Next()), byte(r.Next())}[r.Intn(6)]
		}
		file = logFiles(b, c.Log.Cut)[0]
	case "file":
		file = make([]byte, d.N)
		r := idb.Rng(d.Seed)
		r.Bytes(file)
	default:
		file = logFiles(b, c.Log.Cut)[0]
		at = min(at, len(file))
		n = streamIn(file, at)
		rest := file[at:]
		switch d.Kind {
		case "zero":
			clear(rest)
		case "ff":
			for i := range rest {
				rest[i] = 0xff
			}
		default:
			r := idb.Rng(d.Seed)
			r.Bytes(rest)
		}
		if at < 2048 {
			n = 0
		}
		// the header of the block in which the damage begins may be lost
		if at >= 2048 && (at-2048)%512 < 12 {
			n = streamIn(file[:at/512*512], at)
		}
	}
	if c.Raw != nil {
		file, n = c.Raw, 0
	}
	o.Class("damage: %s", d.Kind)
	r := runRedo(dict, []string{writeFile("ib_logfile0", file)}, "", "")
	if r.Panic != "" {
		return fmt.Errorf("damaged log: panic: %s", r.Panic)
	}
	if r.Alloc > allocLimit(len(file)) {
		return fmt.Errorf("damaged log of %d bytes: %d MB allocated", len(file), r.Alloc>>20)
	}
	if err := onlyStatements(r.Out); err != nil {
		return fmt.Errorf("damaged log: %v", err)
	}
	want, _ := completeBefore(&c.Log, ends, n)
	lines := bytes.Split(r.Out, []byte("\n"))
	for i, w := range want {
		if i >= len(lines)-1 {
			return fmt.Errorf("damaged from stream byte %d: %d of %d updates before the damage printed; missing %s", n, i, len(want), readable(w))
		}
		g, err := canonUpdate(c.Log.Tabs, lines[i])
		if err != nil {
			return fmt.Errorf("damaged from stream byte %d: %v\n  %.300q", n, err, lines[i])
		}
		if g != w {
			return fmt.Errorf("damaged from stream byte %d: update %d is\n  %s\ninstead of\n  %s", n, i+1, readable(g), readable(w))
		}
	}
	o.ClassIf(len(want) > 0, "updates before the damage")
	o.ClassIf(len(lines)-1 > len(want), "statements from damaged parts")
	o.NonTrivial()
	o.Note("%d updates before the damage at stream byte %d", len(want), n)
	return nil
}

func sweepLogDamage(thorough bool) []LogDamageCase {
	var out []LogDamageCase
	tabs := tinyTabs()
	lg := RedoCase{Tabs: tabs, Recs: []idb.LogRec{tinyUndo(0), tinyUndo(1)}}
	b, ends := stream(tabs, lg.Recs)
	_ = b
	// every value of every byte of an undo record
	vals := []int{0, 1, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xf8, 0xfc, 0xfe, 0xff}
	for at := ends[0]; at < ends[1]; at++ {
		for _, v := range vals {
			recs := lg
			out = append(out, LogDamageCase{Log: recs, D: LogDamage{Kind: "stream", At: at, N: 1, Seed: uint64(v)}})
		}
	}
	// each kind of record start, followed by every extreme run
	for _, m := range append(idb.MlogTypes, struct {
		T    int
		Name string
	}{idb.MlogUndoInsert, ""}) {
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xbf, 0xdf, 0xef, 0xf0, 0xf7, 0xf8, 0xfb, 0xfd, 0xfe, 0xff} {
			for _, n := range []int{0, 1, 2, 3, 5, 8, 13, 40, 300} {
				body := append([]byte{byte(m.T), 3, 4}, bytes.Repeat([]byte{v}, n)...)
				f := logFiles(body, LogCut{})[0]
				out = append(out, LogDamageCase{Log: lg, D: LogDamage{Kind: "file"}, Raw: f})
				if thorough {
					body = append([]byte{byte(m.T), v, v}, bytes.Repeat([]byte{v, 2, 3}, n)...)
					out = append(out, LogDamageCase{Log: lg, D: LogDamage{Kind: "file"}, Raw: logFiles(body, LogCut{})[0]})
				}
			}
		}
	}
	// block headers with every kind of data length
	for _, dl := range []int{0, 1, 11, 12, 13, 496, 507, 508, 509, 511, 512, 513, 1024, 32767, 32768, 65535} {
		for _, size := range []int{2048, 2049, 2052, 2053, 2054, 2059, 2060, 2061, 2072, 2559, 2560, 2561, 3072} {
			f := make([]byte, size)
			copy(f, logFiles(b, LogCut{})[0])
			if size > 2053 {
				f[2052], f[2053] = byte(dl>>8), byte(dl)
			}
			out = append(out, LogDamageCase{Log: lg, D: LogDamage{Kind: "file"}, Raw: f})
		}
	}
	return out
}

// ---- C22: form of the UPDATE statements ----

func genForms(t *rapid.T) RedoCase {
	to := TabOpt{Kinds: allKinds, MinCols: 2, MaxCols: 8, NullPct: 50, Redundant: 2, MaxKey: 3, OddNames: true, Wide: 3, Fts: 4}
	return genRedoCase(t, to, 2, UndoOpt{NullPct: 35, Ext: 10}, 5, 0)
}

// litForm says whether the literal is of the form the column asks for.
func litForm(c idb.Col, l sqlp.Lit) bool {
	if l.Kind == "null" {
		return true
	}
	switch c.Kind {
	case "bit":
		return l.Kind == "bits"
	case "blob", "varbinary", "binary":
		return l.Kind == "hex"
	case "char", "varchar":
		return l.Kind == "str"
	case "text":
		return l.Kind == "str" || l.Kind == "hex"
	}
	return l.Kind == "num" || l.Kind == "str"
}

func runForms(c *RedoCase, o *Obs) error {
	if err := checkRedo(c); err != nil {
		return err
	}
	dict := redoDict(c)
	b, _ := stream(c.Tabs, c.Recs)
	r := runRedo(dict, writeLogs(logFiles(b, c.Cut)), "", "")
	lines, _ := splitLines(r.Out)
	for _, l := range lines {
		st, err := sqlp.Parse(l)
		if err != nil {
			return err
		}
		if len(st.Set) == 0 || len(st.Where) == 0 {
			return fmt.Errorf("nothing set or selected: %.300q", l)
		}
		for i := range c.Tabs {
			t := &c.Tabs[i]
			if t.Schema != st.Schema || t.Name != st.Table {
				continue
			}
			for _, a := range append(append([]sqlp.Assign(nil), st.Set...), st.Where...) {
				for _, col := range t.Cols {
					if col.Name == a.Col && !litForm(col, a.Val) {
						return fmt.Errorf("%s column %q printed as a literal of kind %s\n  %.300q", col.TypeName(), col.Name, a.Val.Kind, l)
					}
					if col.Name == a.Col {
						o.Class("%s as %s", col.Kind, a.Val.Kind)
					}
				}
			}
		}
	}
	if len(lines) > 0 {
		o.NonTrivial()
		o.Note("%.300s", lines[0])
	}
	return nil
}

func init() {
	Register(&Prop[RedoCase]{ID: "C16", Rule: "at least one undo record of an update of a known table", Quick: 60000, Thorough: 500000,
		Gen: genUpdates, Sweep: sweepUpdates, Run: runRedoPlain, Summary: func(c *RedoCase) interface{} { return summaryRedo(c) },
		Assumptions: []string{"tables have a primary key or a unique key without NULLs that the rows are clustered on, and no column prefixes in it (see known findings)"},
		Probes:      []Probe{{"nokey", probe(probeNoKey)}, {"prefixkey", probe(probePrefixKey)}}})
	Register(&Prop[RedoCase]{ID: "C17", Rule: "at least one update and one record of another kind", Quick: 60000, Thorough: 500000,
		Gen: genFrames, Sweep: sweepFrames, Run: runFrames, Summary: func(c *RedoCase) interface{} { return summaryRedo(c) },
		Assumptions: []string{"record layouts as MySQL 5.6/5.7 writes them (mtr0log, row0*, page0*, log0recv of 5.7)"}})
	Register(&Prop[CutCase]{ID: "C18", Rule: "at least one update, and a log of several blocks or files", Quick: 48000, Thorough: 400000,
		Gen: genCuts, Sweep: sweepCuts, Run: runCuts, Summary: func(c *CutCase) interface{} {
			m := summaryRedo(&c.Log).(map[string]interface{})
			m["second cutting"] = c.At
			return m
		}, Assumptions: []string{"only the last block of a file is partially filled", "the files are given in log order and the log does not wrap around"}})
	Register(&Prop[RedoCase]{ID: "C19", Rule: "a selection is given and the log holds updates", Quick: 42000, Thorough: 400000,
		Gen: genSelect, Sweep: sweepSelect, Run: runSelect, Summary: func(c *RedoCase) interface{} { return summaryRedo(c) }})
	Register(&Prop[TruncCase]{ID: "C20", Rule: "the log holds updates and ends before its last byte", Quick: 60000, Thorough: 500000,
		Gen: genTrunc, Sweep: sweepTrunc, Run: runTrunc, Summary: func(c *TruncCase) interface{} {
			m := summaryRedo(&c.Log).(map[string]interface{})
			m["cut file"], m["cut at"], m["within the stream"] = c.File, c.Size, c.Stream
			return m
		}})
	Register(&Prop[LogDamageCase]{ID: "C21", Rule: "every case is a damaged or arbitrary log", Quick: 75000, Thorough: 800000,
		Gen: genLogDamage, Sweep: sweepLogDamage, Run: runLogDamage, Summary: func(c *LogDamageCase) interface{} {
			m := summaryRedo(&c.Log).(map[string]interface{})
			m["damage"] = c.D
			return m
		}})
	Register(&Prop[RedoCase]{ID: "C22", Rule: "at least one UPDATE is printed", Quick: 42000, Thorough: 400000,
		Gen: genForms, Run: runForms, Summary: func(c *RedoCase) interface{} { return summaryRedo(c) },
		Assumptions: []string{"tables have a primary key or a unique key without NULLs that the rows are clustered on", "identifiers without backticks"}})
}
