package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/idb"
	"verif/sqlp"
)

// genDataCase draws tables, a layout of their dictionary and a data file.
func genDataCase(t *rapid.T, to TabOpt, po PageOpt, decoys int, rich bool) DataCase {
	var c DataCase
	c.Tabs, c.Target = genTabs(t, to, decoys)
	c.Layout = genLayout(t, rich && rapid.Bool().Draw(t, "rich"))
	c.TZ = pick(t, zones, "tz")
	c.Pages = genPages(t, c.tab(), po)
	return c
}

func genPageCase(t *rapid.T) DataCase {
	to := TabOpt{Kinds: allKinds, MinCols: 1, MaxCols: 6, NullPct: 30, Redundant: 2, Sec: true, OddNames: chance(t, 10, "odd"), Wide: 2, Fts: 5, Prefix: 4}
	if chance(t, 30, "narrow") {
		to.Kinds, to.MaxCols = []string{"int", "varchar"}, 3
	}
	return genDataCase(t, to, PageOpt{MaxLeaf: 4, MaxRows: 8, States: mixedStates, NullPct: 25, Fill: true, Noise: 2, Gaps: true}, 2, true)
}

// narrow is a table with small rows.
func narrow(redundant bool, key string) idb.Table {
	tb := idb.Table{Schema: "test", Name: "t", Key: key, Redundant: redundant, Cols: []idb.Col{{Name: "n", Kind: "int", Size: 2, Unsigned: true, Null: key == "none"}}}
	if key != "none" {
		tb.KeyCols = []int{0}
		tb.KeyName = "k"
	}
	return tb
}

func oneTable(tb idb.Table) DataCase {
	tabs := []idb.Table{tb}
	setIDs(tabs, 40)
	return DataCase{Tabs: tabs}
}

// sweepStates enumerates all small pages: every assignment of states to up to
// n rows, with chains running forwards and backwards.
func sweepStates(thorough bool) []DataCase {
	max := 5
	if thorough {
		max = 7
	}
	states := []string{"live", "free", "dead"}
	var out []DataCase
	for n := 0; n <= max; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		for k := 0; k < total; k++ {
			for _, red := range []bool{false, true} {
				if n == max && red == (k%2 == 0) {
					continue
				}
				c := oneTable(narrow(red, []string{"primary", "none", "unique"}[k%3]))
				p := Page{Kind: "leaf"}
				x := k
				for i := 0; i < n; i++ {
					p.Rows = append(p.Rows, Row{Vals: nvals(uint64(1000 + i)), State: states[x%3], Sys: idb.Sys{RowID: uint64(i), Trx: 9, Roll: 8}})
					x /= 3
				}
				p.LiveSeed, p.FreeSeed = uint64(k), uint64(k/2)
				c.Pages = []Page{p}
				out = append(out, c)
			}
		}
	}
	return out
}

// sweepCounts has pages of every number of rows up to the limit.
func sweepCounts(state string) func(bool) []DataCase {
	return func(thorough bool) []DataCase {
		var out []DataCase
		for _, red := range []bool{false, true} {
			for _, key := range []string{"primary", "none"} {
				for n := 0; ; n++ {
					c := oneTable(narrow(red, key))
					row := Row{Vals: nvals(1), State: state, Sys: idb.Sys{Trx: 1}}
					room := func(n int) int {
						if state == "live" {
							return idb.Tight(red, n)
						}
						return idb.Tight(red, 0)
					}
					if n*rowSize(c.tab(), row) > room(n) {
						break
					}
					last := (n+1)*rowSize(c.tab(), row) > room(n+1)
					if !thorough && n > 20 && n%17 != 0 && !last {
						continue
					}
					for _, seed := range []uint64{0, 1, uint64(n) + 2} {
						p := Page{Kind: "leaf", LiveSeed: seed, FreeSeed: seed}
						for i := 0; i < n; i++ {
							p.Rows = append(p.Rows, Row{Vals: nvals(uint64(i)), State: state, Sys: idb.Sys{RowID: uint64(i), Trx: 1}})
						}
						if n > 0 && (last || n < 4) { // up to the last byte
							p.Rows[n-1].Gap = room(n) - n*rowSize(c.tab(), row)
						}
						d := c
						d.Pages = []Page{p}
						out = append(out, d)
					}
				}
			}
		}
		// and files of many pages
		sizes := []int{253, 254, 300, 520, 1030}
		if thorough {
			sizes = append(sizes, 2050, 4100)
		}
		for _, n := range sizes {
			c := oneTable(narrow(n%4 == 0, "primary"))
			for i := 0; i < n; i++ {
				c.Pages = append(c.Pages, Page{Kind: "leaf", Rows: []Row{{Vals: nvals(uint64(i)), State: state, Sys: idb.Sys{RowID: uint64(i), Trx: 1}}}})
			}
			out = append(out, c)
		}
		return out
	}
}

func runPages(recovery bool) func(c *DataCase, o *Obs) error {
	return func(c *DataCase, o *Obs) error {
		if err := checkData(c, recovery); err != nil {
			return err
		}
		live, free := observe(c, o)
		n := live
		if recovery {
			n = free
		}
		if n > 0 {
			o.NonTrivial()
		}
		o.ClassIf(n > 100, "more than 100 rows expected")
		o.Note("%d statements", n)
		return nil
	}
}

// ---- C07: binding ----

func genBinding(t *rapid.T) ValueCase {
	n := ints(t, 1, 9, "n")
	if chance(t, 2, "wide") {
		n = ints(t, 10, 160, "wideN")
	}
	// columns of one type and distinct values, so that no mix-up goes unnoticed
	proto := pick(t, []idb.Col{{Kind: "int", Size: 4}, {Kind: "varchar", Size: 30, CS: 8}, {Kind: "int", Size: 8, Unsigned: true}, {Kind: "char", Size: 12, CS: 8}, {Kind: "varchar", Size: 80, CS: 45}}, "proto")
	mixed := chance(t, 40, "mixed")
	tb := idb.Table{Schema: "test", Name: "t"}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		c := proto
		if mixed {
			c = pick(t, []idb.Col{{Kind: "int", Size: 4}, {Kind: "varchar", Size: 30, CS: 8}, {Kind: "datetime"}, {Kind: "bit", Size: 16}, {Kind: "double"}, {Kind: "char", Size: 12, CS: 33}, {Kind: "blob", Size: 2}}, fmt.Sprintf("c%d", i))
		}
		c.Name = genName(t, used, chance(t, 20, "odd"), fmt.Sprintf("n%d", i))
		c.Null = chance(t, 40, fmt.Sprintf("null%d", i))
		tb.Cols = append(tb.Cols, c)
	}
	tb.Key = pick(t, []string{"primary", "unique", "none"}, "key")
	if tb.Key != "none" {
		var ok []int
		for i := range tb.Cols {
			if keyOK(tb.Cols[i]) {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 {
			tb.Key = "none"
		} else {
			tb.KeyCols = rapid.Permutation(ok).Draw(t, "perm")[:ints(t, 1, min(len(ok), 16), "keyN")]
			for _, k := range tb.KeyCols {
				tb.Cols[k].Null = false
			}
			if chance(t, 15, "prefix") {
				genPrefixes(t, &tb, "")
			}
			tb.KeyName = pick(t, []string{"uk", "a", "zz", "GEN", "Primary_", "GEN_CLUST_INDEX_1", "A_GEN_CLUST_INDEX", "GEN_CLUST"}, "keyName")
		}
	}
	tb.Redundant = chance(t, 35, "redundant")
	for i := ints(t, 0, 2, "secs"); i > 0; i-- {
		tb.Sec = append(tb.Sec, idb.SecIdx{Name: fmt.Sprintf("%s%d", pick(t, []string{"a", "ix", "ZZ"}, "secName"), i), Cols: rapid.Permutation(seqInts(n)).Draw(t, "secCols")[:ints(t, 1, n, "secN")],
			Unique: tb.Key == "primary" && rapid.Bool().Draw(t, "secU")})
	}
	if chance(t, 10, "fts") { // hidden and not printed, or the user's own
		tb.Cols = append(tb.Cols, idb.Col{Name: "FTS_DOC_ID", Kind: "int", Size: 8, Unsigned: true, Hidden: chance(t, 70, "ftsHidden")})
	}
	tabs := []idb.Table{tb}
	setIDs(tabs, 40)
	c := ValueCase{Data: DataCase{Tabs: tabs, Layout: genLayout(t, true), TZ: "UTC"}}
	p := Page{Kind: "leaf"}
	rows := ints(t, 1, 4, "rows")
	serial := 1
	val := func(col idb.Col) idb.Val {
		serial++
		switch col.Kind {
		case "varchar", "char", "blob":
			return idb.Val{B: []byte(fmt.Sprintf("v%d", serial))}
		case "datetime":
			return idb.Val{N: 20200101000000 + uint64(serial%60)}
		case "double":
			return idb.Val{N: 0x4000000000000000 + uint64(serial)<<40}
		}
		return idb.Val{N: uint64(serial)}
	}
	row := func(l string) []idb.Val {
		var vs []idb.Val
		for i, col := range tb.Cols {
			if col.Null && chance(t, 25, fmt.Sprintf("%snul%d", l, i)) {
				vs = append(vs, idb.Val{Nul: true})
			} else {
				vs = append(vs, val(col))
			}
		}
		return vs
	}
	for i := 0; i < rows; i++ {
		p.Rows = append(p.Rows, Row{Vals: row(fmt.Sprintf("r%d", i)), State: pick(t, []string{"live", "free"}, "state"), Sys: genSys(t, "sys")})
	}
	c.Data.Pages = []Page{p}
	if up := updatable(&tabs[0]); tb.Key != "none" && tb.KeyPre == nil && len(up) > 0 {
		for i := ints(t, 0, 3, "updates"); i > 0; i-- {
			vs := row(fmt.Sprintf("u%d", i))
			u := &idb.Undo{Type: 12, UndoNo: 5, Trx: 77, Roll: 78}
			for _, k := range tb.KeyCols {
				u.Key = append(u.Key, vs[k])
			}
			for _, k := range rapid.Permutation(up).Draw(t, "upd")[:ints(t, 1, len(up), "updN")] {
				u.Upd = append(u.Upd, idb.UpdField{Col: k, Val: vs[k]})
			}
			c.Recs = append(c.Recs, idb.LogRec{T: idb.MlogUndoInsert, Undo: u})
		}
	}
	return c
}

func seqInts(n int) []int {
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, i)
	}
	return p
}

// sweepKeys takes every ordered choice of key columns of small tables.
func sweepKeys(thorough bool) []ValueCase {
	max := 4
	if thorough {
		max = 5
	}
	var out []ValueCase
	for n := 1; n <= max; n++ {
		var keys [][]int
		var rec func(cur []int)
		rec = func(cur []int) {
			keys = append(keys, append([]int(nil), cur...))
			for i := 0; i < n; i++ {
				in := false
				for _, k := range cur {
					in = in || k == i
				}
				if !in {
					rec(append(cur, i))
				}
			}
		}
		rec(nil)
		for ki, key := range keys {
			for variant := 0; variant < 4; variant++ {
				tb := idb.Table{Schema: "test", Name: "t", KeyCols: key, Key: []string{"primary", "unique"}[variant/2], KeyName: "k1", Redundant: variant%2 == 1}
				if len(key) == 0 {
					tb.Key = "none"
				}
				for i := 0; i < n; i++ {
					c := idb.Col{Name: string(rune('a' + (i*3+ki)%7*3)), Kind: "int", Size: 4}
					if i%2 == 1 && variant < 2 {
						c = idb.Col{Name: c.Name, Kind: "varchar", Size: 20, CS: 8}
					}
					c.Null = true
					for _, k := range key {
						c.Null = c.Null && k != i
					}
					tb.Cols = append(tb.Cols, c)
				}
				tabs := []idb.Table{tb}
				setIDs(tabs, 40)
				c := ValueCase{Data: DataCase{Tabs: tabs, Layout: idb.DictLayout{Seed: uint64(ki), PerPage: [4]int{0, 2, 0, 1}, Shuffle: true, Heap: true}}}
				p := Page{Kind: "leaf"}
				for r := 0; r < 2; r++ {
					var vs []idb.Val
					for i, col := range tb.Cols {
						if col.Kind == "int" {
							vs = append(vs, idb.Val{N: uint64(100*r + i + 1)})
						} else {
							vs = append(vs, idb.Val{B: []byte(fmt.Sprintf("s%d.%d", r, i))})
						}
					}
					p.Rows = append(p.Rows, Row{Vals: vs, State: []string{"live", "free"}[r], Sys: idb.Sys{RowID: 0x010203040506, Trx: 0x0a0b0c0d0e0f, Roll: 0x11121314151617}})
					if up := updatable(&tabs[0]); len(key) > 0 && len(up) > 0 {
						u := &idb.Undo{Type: 12, UndoNo: 1, Trx: 2, Roll: 3}
						for _, k := range key {
							u.Key = append(u.Key, vs[k])
						}
						for _, k := range up {
							u.Upd = append(u.Upd, idb.UpdField{Col: k, Val: vs[k]})
						}
						c.Recs = append(c.Recs, idb.LogRec{T: idb.MlogUndoInsert, Undo: u})
					}
				}
				c.Data.Pages = []Page{p}
				out = append(out, c)
			}
		}
	}
	return out
}

// ---- C08: row formats ----

func sortedLines(out []byte) []string {
	ls, _ := splitLines(out)
	var s []string
	for _, l := range ls {
		s = append(s, string(l))
	}
	sort.Strings(s)
	return s
}

func diffLines(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("only in the second: %.300q", b[i])
		case i >= len(b):
			return fmt.Sprintf("only in the first: %.300q", a[i])
		case a[i] != b[i]:
			return fmt.Sprintf("%.300q\n  against\n  %.300q", a[i], b[i])
		}
	}
	return ""
}

func runFormats(c *DataCase, o *Obs) error {
	setZone(c.TZ)
	var outs [2][2][]string
	for f := 0; f < 2; f++ {
		d := *c
		d.Tabs = append([]idb.Table(nil), c.Tabs...)
		d.Tabs[d.Target].Redundant = f == 1
		dict := writeFile("ibdata1", idb.File(idb.BuildDict(d.Tabs, d.Layout)))
		data := writeFile("t.ibd", idb.File(dataPages(&d)))
		for m := 0; m < 2; m++ {
			r := runData(dict, data, d.tab().Schema, d.tab().Name, m == 1)
			what := []string{"COMPACT", "REDUNDANT"}[f] + ", " + modeName(m == 1)
			if err := r.ok(what); err != nil {
				return err
			}
			outs[f][m] = sortedLines(r.Out)
			got, err := readReplace(d.tab(), r.Out)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			want, opt := expected(&d, m == 1)
			if err := compareRows(want, opt, got); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		}
	}
	for m := 0; m < 2; m++ {
		if d := diffLines(outs[0][m], outs[1][m]); d != "" {
			return fmt.Errorf("%s: COMPACT and REDUNDANT differ:\n  %s", modeName(m == 1), d)
		}
	}
	rt := *c.tab()
	rt.Redundant = true
	for _, p := range c.Pages {
		for _, r := range p.Rows {
			if p.Kind != "leaf" {
				continue
			}
			o.ClassIf(rt.Encode(r.Vals, r.Sys).Short, "one-byte offsets")
			o.ClassIf(!rt.Encode(r.Vals, r.Sys).Short, "two-byte offsets")
			for i, v := range r.Vals {
				o.ClassIf(v.Nul && rt.Cols[i].Fixed(true) > 0, "NULL in a fixed-length column")
				o.ClassIf(v.Nul && rt.Cols[i].Fixed(true) == 0, "NULL in a variable-length column")
			}
		}
	}
	if len(outs[1][0])+len(outs[1][1]) > 0 {
		o.NonTrivial()
	}
	o.Note("%d live and %d deleted rows in both formats", len(outs[1][0]), len(outs[1][1]))
	return nil
}

// genFormats keeps to rows that fit a page in both formats.
func genFormats(t *rapid.T) DataCase {
	to := TabOpt{Kinds: allKinds, MinCols: 1, MaxCols: 9, NullPct: 45, Redundant: 1, Wide: 3, Fts: 5, Prefix: 4}
	c := genDataCase(t, to, PageOpt{MaxLeaf: 2, MaxRows: 5, States: mixedStates[:6], NullPct: 35, Fill: true, Gaps: true}, 1, false)
	// rows may be larger in COMPACT in no case: a page that fits in REDUNDANT fits in COMPACT
	c.Tabs[c.Target].Redundant = false
	return c
}

// sweepFormats brings the data of a record to every size around the limits of
// the offset forms, with NULLs.
func sweepFormats(thorough bool) []DataCase {
	var out []DataCase
	for _, base := range []int{127, 128, 255, 256, 16383 / 2} {
		lo, hi := base-30, base+10
		if base > 1000 {
			lo, hi = base-2, base
		}
		for n := lo; n <= hi; n++ {
			if n < 30 {
				continue
			}
			tb := idb.Table{Schema: "test", Name: "t", Key: "primary", KeyCols: []int{0}, Cols: []idb.Col{
				{Name: "id", Kind: "int", Size: 4}, {Name: "a", Kind: "int", Size: 4, Null: true}, {Name: "b", Kind: "varchar", Size: 8000, CS: 8, Null: true},
				{Name: "c", Kind: "char", Size: 3, CS: 8, Null: true}, {Name: "d", Kind: "varchar", Size: 10, CS: 8, Null: true}}}
			c := oneTable(tb)
			size := n - 4 - 13 - 4 - 3
			page := Page{Kind: "leaf"}
			for k := 0; k < 8; k++ {
				nul := func(bit int, v idb.Val) idb.Val {
					if k>>bit&1 == 1 {
						return idb.Val{Nul: true}
					}
					return v
				}
				b := idb.Val{B: pattern(size, 0)}
				if base > 1000 && k > 1 {
					continue
				}
				row := Row{State: []string{"live", "free"}[k%2], Vals: []idb.Val{{N: uint64(k)}, nul(0, idb.Val{N: 7}), b, nul(1, idb.Val{B: []byte("xy")}), nul(2, idb.Val{})}}
				page.Rows = append(page.Rows, row)
				if base > 1000 {
					c.Pages = append(c.Pages, page)
					page = Page{Kind: "leaf"}
				}
			}
			if len(page.Rows) > 0 {
				c.Pages = append(c.Pages, page)
			}
			out = append(out, c)
		}
	}
	return out
}

// ---- C10: page selection ----

// NoiseCase is a data file and the same file with other pages in between.
type NoiseCase struct {
	Data  DataCase `json:"data"`
	Noise []struct {
		At   int  `json:"at"`
		Page Page `json:"page"`
	} `json:"noise"`
}

func genNoiseCase(t *rapid.T) NoiseCase {
	to := TabOpt{Kinds: allKinds, MinCols: 1, MaxCols: 6, NullPct: 30, Redundant: 2, Sec: true, Wide: 1}
	c := NoiseCase{Data: genDataCase(t, to, PageOpt{MaxLeaf: 3, MaxRows: 4, States: mixedStates[:6], NullPct: 25}, 0, false)}
	c.Data.Layout.Dblwr, c.Data.Layout.DblLow = 0, 0
	n := ints(t, 1, 6, "noise")
	for i := 0; i < n; i++ {
		var x struct {
			At   int  `json:"at"`
			Page Page `json:"page"`
		}
		x.At = ints(t, 0, len(c.Data.Pages)+i, "at")
		if chance(t, 15, "emptyLeaf") {
			x.Page = Page{Kind: "leaf"}
		} else {
			x.Page = genNoise(t, c.Data.tab(), fmt.Sprintf("n%d", i))
		}
		c.Noise = append(c.Noise, x)
	}
	if chance(t, 1, "manyNoise") { // hundreds of them
		n := pick(t, []int{60, 130, 250, 256, 300, 513}, "manyNoiseN")
		for i := 0; i < n; i++ {
			x := c.Noise[i%len(c.Noise)]
			if x.Page.Kind == "leaf" {
				x.Page.Rows = nil
			}
			c.Noise = append(c.Noise, x)
		}
	}
	return c
}

func runNoise(c *NoiseCase, o *Obs) error {
	setZone(c.Data.TZ)
	dict := writeFile("ibdata1", idb.File(idb.BuildDict(c.Data.Tabs, c.Data.Layout)))
	with := c.Data
	with.Pages = append([]Page(nil), c.Data.Pages...)
	for _, n := range c.Noise {
		at := min(n.At, len(with.Pages))
		with.Pages = append(with.Pages[:at:at], append([]Page{n.Page}, with.Pages[at:]...)...)
		o.Class("added %s", n.Page.Kind)
	}
	t := c.Data.tab()
	total := 0
	for _, m := range []bool{false, true} {
		var lines [2][]string
		for i, d := range []*DataCase{&c.Data, &with} {
			data := writeFile("t.ibd", idb.File(dataPages(d)))
			r := runData(dict, data, t.Schema, t.Name, m)
			if err := r.ok(modeName(m)); err != nil {
				return err
			}
			lines[i] = sortedLines(r.Out)
			if i == 0 {
				continue
			}
			got, err := readReplace(t, r.Out)
			if err != nil {
				return fmt.Errorf("%s: %v", modeName(m), err)
			}
			want, opt := expected(&c.Data, m)
			if err := compareRows(want, opt, got); err != nil {
				return fmt.Errorf("%s, with other pages: %v", modeName(m), err)
			}
		}
		if d := diffLines(lines[0], lines[1]); d != "" {
			return fmt.Errorf("%s: other pages change the output:\n  %s", modeName(m), d)
		}
		total += len(lines[0])
	}
	if total > 0 {
		o.NonTrivial()
	}
	o.Note("%d statements with and without %d other pages", total, len(c.Noise))
	return nil
}

// ---- C12: copies of pages ----

// CopyCase is a data file some of whose positions hold copies of other pages.
type CopyCase struct {
	Data   DataCase `json:"data"`
	Copies []Copy   `json:"copies"`
	Orphan []Page   `json:"orphan,omitempty"` // copies of a page that has no home in the file
	Far    []Far    `json:"far,omitempty"`
}

// Far is a page of the table with a number beyond the file, as the files of a
// system tablespace behind its first one hold them.
type Far struct {
	No   uint32 `json:"no"`
	At   int    `json:"at"`
	Page Page   `json:"page"`
}

// Copy is a page with the number of another one.
type Copy struct {
	At   int  `json:"at"`   // position among the pages
	Of   int  `json:"of"`   // which of the pages it carries the number of
	Same bool `json:"same"` // an identical copy
	Page Page `json:"page"`
}

func genCopyCase(t *rapid.T) CopyCase {
	to := TabOpt{Kinds: plainKinds, MinCols: 1, MaxCols: 5, NullPct: 30, Redundant: 2}
	c := CopyCase{Data: genDataCase(t, to, PageOpt{MaxLeaf: 4, MaxRows: 4, States: mixedStates[:6], NullPct: 25, Noise: 2}, 1, true)}
	c.Data.Layout.Dblwr = ints(t, 0, 6, "dblwr")
	c.Data.Layout.DblLow = ints(t, 0, 4, "dbllow")
	for i := ints(t, 0, 4, "copies"); i > 0; i-- {
		x := Copy{At: ints(t, 0, len(c.Data.Pages)+4, "at"), Of: ints(t, 0, len(c.Data.Pages)-1, "of"), Same: chance(t, 30, "same")}
		if !x.Same {
			if chance(t, 60, "older") {
				x.Page = genLeaf(t, c.Data.tab(), PageOpt{MaxRows: 4, States: mixedStates[:6], NullPct: 25}, fmt.Sprintf("old%d", i))
			} else {
				x.Page = genNoise(t, c.Data.tab(), fmt.Sprintf("old%d", i))
			}
		}
		c.Copies = append(c.Copies, x)
	}
	if len(c.Copies) > 0 && chance(t, 1, "manyCopies") { // hundreds of them
		n := pick(t, []int{60, 130, 250, 256, 300, 513}, "manyCopiesN")
		for i := 0; i < n; i++ {
			x := c.Copies[i%len(c.Copies)]
			if i%3 > 0 {
				x.At = (x.At*7 + i) % (len(c.Data.Pages) + 5)
			}
			c.Copies = append(c.Copies, x)
		}
	}
	if chance(t, 20, "orphans") {
		for i := ints(t, 1, 3, "orphanN"); i > 0; i-- {
			c.Orphan = append(c.Orphan, genLeaf(t, c.Data.tab(), PageOpt{MaxRows: 3, States: []string{"live", "free"}, NullPct: 20}, fmt.Sprintf("orph%d", i)))
		}
	}
	if chance(t, 30, "far") {
		// a number of its own that shares its low bytes with another page's
		used := map[uint32]bool{}
		for i := ints(t, 1, 3, "farN"); i > 0; i-- {
			l := fmt.Sprintf("far%d", i)
			no := uint32(ints(t, 0, len(c.Data.Pages)+6, l+"Low"))
			no |= uint32(ints(t, 1, 255, l+"Byte")) << uint(pick(t, []int{8, 16, 16, 24}, l+"Shift"))
			for no == 100000 || no == 0xffffffff || used[no] {
				no++
			}
			used[no] = true
			c.Far = append(c.Far, Far{No: no, At: ints(t, 0, len(c.Data.Pages)+4, l+"At"),
				Page: genLeaf(t, c.Data.tab(), PageOpt{MaxRows: 3, States: []string{"live", "free", "live", "free", "dead"}, NullPct: 20}, l)})
		}
	}
	return c
}

func runCopies(c *CopyCase, o *Obs) error {
	setZone(c.Data.TZ)
	t := c.Data.tab()
	// positions: copies shift the home pages behind them
	type slot struct {
		home   int // index into Data.Pages, -1
		copyOf int
		page   *Page
		same   bool
		far    uint32
	}
	var slots []slot
	for i := range c.Data.Pages {
		slots = append(slots, slot{home: i})
	}
	for i := range c.Copies {
		x := &c.Copies[i]
		if c.Data.Pages[x.Of].Kind == "zero" {
			continue // a zero page carries no number: its copy would be homeless
		}
		at := min(x.At, len(slots))
		slots = append(slots[:at:at], append([]slot{{home: -1, copyOf: x.Of, page: &x.Page, same: x.Same}}, slots[at:]...)...)
		if x.Same {
			o.Class("identical copy")
		} else {
			o.Class("copy: %s", x.Page.Kind)
		}
	}
	for i := range c.Far {
		x := &c.Far[i]
		at := min(x.At, len(slots))
		slots = append(slots[:at:at], append([]slot{{home: -1, copyOf: -1, page: &x.Page, far: x.No}}, slots[at:]...)...)
	}
	no := map[int]uint32{}
	for i, s := range slots {
		if s.home >= 0 {
			no[s.home] = uint32(firstPage + i)
		}
	}
	pages := [][]byte{
		idb.Seal(idb.NewPage(0, t.Space, idb.TypeFspHdr)),
		idb.Seal(idb.NewPage(1, t.Space, idb.TypeIbufBmp)),
		idb.Seal(idb.NewPage(2, t.Space, idb.TypeInode)),
	}
	build := func(p *Page, n uint32) []byte {
		if p.Kind == "leaf" {
			return leafPage(t, p, n, 0, 0)
		}
		return noisePage(&c.Data, p, n)
	}
	for i, s := range slots {
		switch {
		case s.home >= 0:
			pages = append(pages, build(&c.Data.Pages[s.home], no[s.home]))
		case s.far > 0:
			pages = append(pages, build(s.page, s.far))
			continue
		case s.same:
			pages = append(pages, build(&c.Data.Pages[s.copyOf], no[s.copyOf]))
		default:
			pages = append(pages, build(s.page, no[s.copyOf]))
		}
		o.ClassIf(s.home < 0 && uint32(firstPage+i) < no[s.copyOf], "copy before its home")
		o.ClassIf(s.home < 0 && uint32(firstPage+i) > no[s.copyOf], "copy after its home")
	}
	for i := range c.Orphan {
		pages = append(pages, leafPage(t, &c.Orphan[i], 100000, 0, 0))
	}
	// pages beyond the first ones that have no page number of their own: zero pages
	dict := writeFile("ibdata1", idb.File(idb.BuildDict(c.Data.Tabs, c.Data.Layout)))
	data := writeFile("t.ibd", idb.File(pages))
	total := 0
	for _, m := range []bool{false, true} {
		r := runData(dict, data, t.Schema, t.Name, m)
		if err := r.ok(modeName(m)); err != nil {
			return err
		}
		got, err := readReplace(t, r.Out)
		if err != nil {
			return fmt.Errorf("%s: %v", modeName(m), err)
		}
		want, opt := expected(&c.Data, m)
		for i := range c.Far {
			d := DataCase{Tabs: c.Data.Tabs, Target: c.Data.Target, Pages: []Page{c.Far[i].Page}}
			w, _ := expected(&d, m)
			want = append(want, w...)
		}
		err = compareRows(want, opt, got)
		for i := range c.Orphan { // or one of the copies of the homeless page
			if err == nil {
				break
			}
			w := append([]string(nil), want...)
			for _, row := range c.Orphan[i].Rows {
				if row.State == map[bool]string{false: "live", true: "free"}[m] {
					w = append(w, canonRow(t, row.Vals))
				}
			}
			if compareRows(w, opt, got) == nil {
				err = nil
			}
		}
		if err != nil {
			return fmt.Errorf("%s: %v", modeName(m), err)
		}
		total += len(want)
	}
	o.ClassIf(c.Data.Layout.Dblwr > 0, "stale dictionary pages behind")
	o.ClassIf(c.Data.Layout.DblLow > 0, "stale dictionary pages before")
	o.ClassIf(len(c.Orphan) > 0, "pages without a home")
	o.ClassIf(len(c.Far) > 0, "pages with numbers beyond the file")
	if total > 0 && (len(c.Copies)+len(c.Far) > 0 || c.Data.Layout.Dblwr+c.Data.Layout.DblLow > 0) {
		o.NonTrivial()
	}
	o.Note("%d statements, %d copies, %d stale dictionary pages", total, len(c.Copies), c.Data.Layout.Dblwr+c.Data.Layout.DblLow)
	return nil
}

// ---- C14: damage ----

// Damage overwrites a part of a page (or of the file).
type Damage struct {
	Page int    `json:"page"`
	Kind string `json:"kind"` // random, range, field, next, number, trunc
	Off  int    `json:"off,omitempty"`
	Len  int    `json:"len,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	Val  int    `json:"val,omitempty"`
}

// DamageCase is a data file with damaged pages, or arbitrary content.
type DamageCase struct {
	Data   DataCase `json:"data"`
	Damage []Damage `json:"damage"`
	Dict   []Damage `json:"dict,omitempty"` // damage to the dictionary instead
	Raw    []byte   `json:"raw,omitempty"`  // the whole data file
	RawN   int      `json:"rawn,omitempty"` // random file of that size from RawSeed
	RawS   uint64   `json:"raws,omitempty"`
	Swap   bool     `json:"swap,omitempty"` // the arbitrary file is used as the dictionary
}

var pageFields = []int{0, 4, 6, 24, 26, 38, 40, 42, 43, 44, 46, 48, 50, 52, 54, 56, 62, 64, 66, 70, 97, 98, 99, 100, 110, 111, 112, 114, 118, 120, 122, 124}

func genDamage(t *rapid.T, n int, label string) Damage {
	d := Damage{Page: ints(t, 0, n-1, label+"Page"), Kind: pick(t, []string{"range", "field", "next", "random", "field", "next", "number", "header"}, label+"Kind"), Seed: seed(t, label+"Seed")}
	d.Val = pick(t, []int{-1, 0, 1, 2, 5, 6, 7, 99, 100, 101, 112, 116, 125, 127, 128, 255, 256, 16370, 16377, 16378, 16379, 16383, 16384, 32767, 32768, 32769, 65535, 65534, 65500}, label+"Val")
	switch d.Kind {
	case "range":
		d.Off = ints(t, 0, idb.PageSize-1, label+"Off")
		if chance(t, 60, label+"Low") {
			d.Off = ints(t, 0, 400, label+"LowOff")
		}
		d.Len = ints(t, 1, 200, label+"Len")
	case "field":
		d.Off = pick(t, pageFields, label+"Field")
	case "next":
		d.Off = ints(t, 0, 7, label+"Rec")
		d.Len = ints(t, 0, 7, label+"Byte")
	case "number":
		d.Off = ints(t, 0, n, label+"No")
	}
	return d
}

// apply damages a page image. recs are the origins of its records.
func (d *Damage) apply(p []byte) {
	r := idb.Rng(d.Seed)
	put2 := func(off int) {
		v := d.Val
		if v < 0 {
			v = int(r.Next() & 0xffff)
		}
		if off >= 0 && off+2 <= len(p) {
			p[off], p[off+1] = byte(v>>8), byte(v)
		}
	}
	switch d.Kind {
	case "random":
		r.Bytes(p)
		if d.Val%2 == 0 { // still looks like a leaf page
			copy(p[24:], []byte{0x45, 0xbf})
			copy(p[56:66], make([]byte, 10))
			copy(p[44:46], []byte{byte(d.Seed>>8) & 0x3f, byte(d.Seed)})
		}
	case "range":
		n := min(d.Len, len(p)-d.Off)
		r.Bytes(p[d.Off : d.Off+n])
	case "header":
		r.Bytes(p[26:120])
		copy(p[56:66], make([]byte, 10))
	case "field":
		put2(d.Off)
	case "number":
		no := uint32(d.Off)
		p[4], p[5], p[6], p[7] = byte(no>>24), byte(no>>16), byte(no>>8), byte(no)
	case "next":
		// walk some records from the start of the heap chain and damage the header of one
		org := walk(p, d.Off)
		if d.Len == 0 {
			put2(org - 2)
		} else if org-d.Len >= 0 && org-d.Len < len(p) {
			p[org-d.Len] = byte(r.Next())
		}
	}
}

// walk finds the origin of the n-th record of the free list or live chain.
func walk(p []byte, n int) int {
	compact := p[42]&0x80 != 0
	at := int(p[44])<<8 | int(p[45])
	if n%2 == 0 || at == 0 {
		at = 99
		if !compact {
			at = 101
		}
	}
	for i := 0; i <= n/2 && at > 2 && at < idb.PageSize; i++ {
		nx := int(p[at-2])<<8 | int(p[at-1])
		if nx == 0 {
			break
		}
		if compact {
			nx = (at + nx) & 0xffff
		}
		if nx < 8 || nx >= idb.PageSize {
			break
		}
		at = nx
	}
	return at
}

func genDamageCase(t *rapid.T) DamageCase {
	to := TabOpt{Kinds: allKinds, MinCols: 1, MaxCols: 6, NullPct: 40, Redundant: 2, Wide: 1}
	c := DamageCase{Data: genDataCase(t, to, PageOpt{MaxLeaf: 4, MaxRows: 5, States: mixedStates[:6], NullPct: 25, Noise: 1}, 0, false)}
	switch k := ints(t, 0, 9, "what"); {
	case k < 7:
		for i := ints(t, 1, 3, "damages"); i > 0; i-- {
			c.Damage = append(c.Damage, genDamage(t, len(c.Data.Pages), fmt.Sprintf("d%d", i)))
		}
		if chance(t, 15, "trunc") {
			c.Damage = append(c.Damage, Damage{Page: len(c.Data.Pages) - 1, Kind: "trunc", Len: ints(t, 0, idb.PageSize-1, "truncAt")})
		}
	case k < 9:
		n := len(idb.BuildDict(c.Data.Tabs, c.Data.Layout))
		for i := ints(t, 1, 3, "damages"); i > 0; i-- {
			d := genDamage(t, n, fmt.Sprintf("d%d", i))
			if chance(t, 80, "dictPage") {
				d.Page = ints(t, 7, n-1, "dictAt")
			}
			c.Dict = append(c.Dict, d)
		}
	default:
		c.RawN = ints(t, 0, 5*idb.PageSize, "rawN")
		c.RawS = seed(t, "rawS")
		c.Swap = chance(t, 30, "swap")
	}
	return c
}

func runDamage(c *DamageCase, o *Obs) error {
	setZone(c.Data.TZ)
	t := c.Data.tab()
	dpages := idb.BuildDict(c.Data.Tabs, c.Data.Layout)
	for i := range dpages {
		if dpages[i] == nil {
			dpages[i] = make([]byte, idb.PageSize)
		}
	}
	for i := range c.Dict {
		c.Dict[i].apply(dpages[c.Dict[i].Page%len(dpages)])
		o.Class("dictionary damage: %s", c.Dict[i].Kind)
	}
	dict := writeFile("ibdata1", idb.File(dpages))
	pages := dataPages(&c.Data)
	hit := map[int]bool{}
	cut := -1
	for i := range c.Damage {
		d := &c.Damage[i]
		k := d.Page % len(c.Data.Pages)
		o.Class("page damage: %s", d.Kind)
		hit[k] = true
		if d.Kind == "trunc" {
			cut = len(pages)*idb.PageSize - 1 - d.Len%idb.PageSize
			hit[len(c.Data.Pages)-1] = true
			continue
		}
		p := pages[firstPage+k]
		if p == nil {
			p = make([]byte, idb.PageSize)
		}
		d.apply(p)
		pages[firstPage+k] = p
	}
	raw := idb.File(pages)
	if cut >= 0 {
		raw = raw[:cut]
	}
	arbitrary := c.RawN > 0 || len(c.Raw) > 0 || c.Swap
	if arbitrary {
		raw = c.Raw
		if c.RawN > 0 {
			raw = make([]byte, c.RawN)
			r := idb.Rng(c.RawS)
			r.Bytes(raw)
		}
		o.Class("arbitrary file")
	}
	data := writeFile("t.ibd", raw)
	if c.Swap {
		dict = data
	}
	for _, m := range []bool{false, true} {
		r := runData(dict, data, t.Schema, t.Name, m)
		if r.Panic != "" {
			return fmt.Errorf("%s: panic: %s", modeName(m), r.Panic)
		}
		if lim := allocLimit(len(raw) + len(dpages)*idb.PageSize); r.Alloc > lim {
			return fmt.Errorf("%s: %d MB allocated for %d bytes of input", modeName(m), r.Alloc>>20, len(raw)+len(dpages)*idb.PageSize)
		}
		if arbitrary || len(c.Dict) > 0 {
			o.NonTrivial()
			continue
		}
		if r.Err != nil {
			return fmt.Errorf("%s: error: %v", modeName(m), r.Err)
		}
		want, _ := expectedPages(&c.Data, m, func(i int) bool { return !hit[i] })
		if len(want) > 0 {
			o.NonTrivial()
			o.Class("rows of intact pages expected")
		}
		got := map[string]int{}
		lines, err := splitLines(r.Out)
		if err != nil {
			return fmt.Errorf("%s: %v", modeName(m), err)
		}
		for _, l := range lines {
			if s, err := replaceRow(t, l); err == nil {
				got[strings.Join(s, sep)]++
			} else if _, err := sqlp.Parse(l); err != nil {
				return fmt.Errorf("%s: a damaged page breaks a statement: %v\n  %.300q", modeName(m), err, l)
			}
		}
		for _, w := range want {
			if got[w]--; got[w] < 0 {
				return fmt.Errorf("%s: a row of an intact page is missing: %s", modeName(m), readable(w))
			}
		}
		o.Note("%d rows of intact pages still printed", len(want))
	}
	return nil
}

func init() {
	Register(&Prop[DataCase]{ID: "C01", Rule: "at least one record on the free list of a clustered leaf page", Quick: 36000, Thorough: 400000,
		Gen: genPageCase, Run: runPages(true), Summary: summaryData,
		Sweep: func(th bool) []DataCase { return append(sweepStates(th), sweepCounts("free")(th)...) }})
	Register(&Prop[DataCase]{ID: "C02", Rule: "at least one live row on a clustered leaf page", Quick: 36000, Thorough: 400000,
		Gen: genPageCase, Run: runPages(false), Summary: summaryData,
		Sweep:  func(th bool) []DataCase { return append(sweepStates(th), sweepCounts("live")(th)...) },
		Probes: []Probe{{"decimal", probe(probeDecimal)}, {"external", probe(probeExternal)}}})
	Register(&Prop[ValueCase]{ID: "C07", Rule: "at least one row or update is expected in the output", Quick: 30000, Thorough: 300000,
		Gen: genBinding, Sweep: sweepKeys, Run: runValues, Summary: summaryValues})
	Register(&Prop[DataCase]{ID: "C08", Rule: "at least one row is expected in the output", Quick: 24000, Thorough: 250000,
		Gen: genFormats, Sweep: sweepFormats, Run: runFormats, Summary: summaryData})
	Register(&Prop[NoiseCase]{ID: "C10", Rule: "pages are added and at least one row is expected", Quick: 24000, Thorough: 200000,
		Gen: genNoiseCase, Run: runNoise, Summary: func(c *NoiseCase) interface{} {
			m := summaryData(&c.Data).(map[string]interface{})
			var ks []string
			for _, n := range c.Noise {
				ks = append(ks, n.Page.Kind)
			}
			m["added"] = ks
			return m
		}, Assumptions: []string{"secondary-index leaf pages carry a maximal transaction id, as InnoDB writes it", "the file holds no clustered pages of other tables"}})
	Register(&Prop[CopyCase]{ID: "C12", Rule: "copies of pages in the data file or the dictionary, and at least one row expected", Quick: 30000, Thorough: 250000,
		Gen: genCopyCase, Run: runCopies, Summary: func(c *CopyCase) interface{} {
			m := summaryData(&c.Data).(map[string]interface{})
			m["copies"] = len(c.Copies)
			m["layout"] = c.Data.Layout
			return m
		}})
	Register(&Prop[DamageCase]{ID: "C14", Rule: "rows of intact pages are expected beside damaged ones, or the file or dictionary is arbitrary", Quick: 36000, Thorough: 400000,
		Gen: genDamageCase, Run: runDamage, Summary: func(c *DamageCase) interface{} {
			m := summaryData(&c.Data).(map[string]interface{})
			m["damage"], m["dict"], m["random bytes"] = c.Damage, c.Dict, c.RawN
			return m
		}})
	_ = bytes.Equal
}
