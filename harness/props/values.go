package props

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verif/idb"
)

// ValueCase stores values in a table: on its pages, live and deleted, and in
// the redo log as old values and keys.
type ValueCase struct {
	Data DataCase     `json:"data"`
	Recs []idb.LogRec `json:"recs,omitempty"`
	Cut  LogCut       `json:"cut"`
}

func runValues(c *ValueCase, o *Obs) error {
	if err := checkData(&c.Data); err != nil {
		return err
	}
	live, free := observe(&c.Data, o)
	n := 0
	if len(c.Recs) > 0 {
		rc := RedoCase{Tabs: c.Data.Tabs, Layout: c.Data.Layout, Recs: c.Recs, Cut: c.Cut, TZ: c.Data.TZ}
		if err := checkRedo(&rc); err != nil {
			return err
		}
		n = len(updates(rc.Tabs, rc.Recs, "", ""))
	}
	if live+free+n > 0 {
		o.NonTrivial()
	}
	o.Note("%d live rows printed, %d deleted rows recovered, %d updates", live, free, n)
	for _, p := range c.Data.Pages {
		for _, r := range p.Rows {
			for i, v := range r.Vals {
				classVal(o, c.Data.tab().Cols[i], v)
			}
		}
	}
	for _, r := range c.Recs {
		if isUpdate(&r) {
			t := &c.Data.Tabs[r.Undo.Table]
			for _, f := range r.Undo.Upd {
				classVal(o, t.Cols[f.Col], f.Val)
			}
			for i, v := range r.Undo.Key {
				classVal(o, t.Cols[t.KeyCols[i]], v)
			}
		}
	}
	return nil
}

// classVal counts a value by type and, where it matters, by shape.
func classVal(o *Obs, c idb.Col, v idb.Val) {
	if v.Nul {
		o.Class("NULL %s", c.Kind)
		return
	}
	switch c.Kind {
	case "int":
		s := "signed"
		if c.Unsigned {
			s = "unsigned"
		}
		top := v.N>>(uint(c.Size)*8-1)&1 == 1
		o.Class("value %s int%d top bit %v", s, c.Size*8, top)
	case "decimal":
		o.Class("value decimal beside others")
	case "char", "varchar", "text", "binary", "varbinary", "blob":
		n := "0"
		switch l := len(v.B); {
		case l > 255:
			n = ">255"
		case l > 127:
			n = "128-255"
		case l > 0:
			n = "1-127"
		}
		o.Class("value %s length %s", c.Kind, n)
	default:
		if c.Fsp() > 0 {
			o.Class("value %s with %d fraction bytes", c.Kind, c.FracBytes())
		} else if v.N == 0 {
			o.Class("value %s zero", c.Kind)
		} else {
			o.Class("value %s", c.Kind)
		}
	}
}

func genValues(t *rapid.T, kinds []string, o TabOpt) ValueCase {
	o.Kinds = kinds
	o.Redundant = 2
	if o.MaxCols == 0 {
		o.MinCols, o.MaxCols = 2, 7
	}
	if o.NullPct == 0 {
		o.NullPct = 35
	}
	o.Keys = []string{"primary", "primary", "unique", "none"}
	var c ValueCase
	tb := genTable(t, o, "tab")
	tabs := []idb.Table{tb}
	setIDs(tabs, 40)
	c.Data = DataCase{Tabs: tabs, Layout: genLayout(t, false), TZ: pick(t, zones, "tz")}
	c.Data.Pages = []Page{genLeaf(t, &tabs[0], PageOpt{MaxRows: 6, States: []string{"live", "free"}, NullPct: 30}, "p")}
	if tb.Key != "none" && len(updatable(&tabs[0])) > 0 && chance(t, 60, "redo") {
		c.Recs = genRecs(t, tabs, UndoOpt{NullPct: 30}, 3, 0)
		c.Cut = genCut(t)
	}
	return c
}

func summaryValues(c *ValueCase) interface{} {
	m := summaryData(&c.Data).(map[string]interface{})
	if len(c.Recs) > 0 {
		rc := RedoCase{Tabs: c.Data.Tabs, Recs: c.Recs, Cut: c.Cut}
		m["log"] = summaryRedo(&rc).(map[string]interface{})["records"]
	}
	return m
}

// sweepValues makes the cases that store each of the values of a column as a
// plain value and as a key, in both row formats, live, deleted and logged.
func sweepValues(col idb.Col, vals []idb.Val, zone string) []ValueCase {
	var out []ValueCase
	id := idb.Col{Name: "id", Kind: "int", Size: 4, Unsigned: true}
	x := idb.Col{Name: "x", Kind: "varchar", Size: 20, CS: 8, Null: true}
	const chunk = 100
	for lo := 0; lo < len(vals); lo += chunk {
		part := vals[lo:min(lo+chunk, len(vals))]
		for _, red := range []bool{false, true} {
			for _, asKey := range []bool{false, true} {
				v := col
				v.Name = "v"
				tb := idb.Table{Schema: "test", Name: "t", Redundant: red, Key: "primary"}
				if asKey {
					if !keyOK(col) {
						continue
					}
					v.Null = false
					tb.Cols = []idb.Col{x, v}
					tb.KeyCols = []int{1}
				} else {
					v.Null = true
					tb.Cols = []idb.Col{id, v, x}
					tb.KeyCols = []int{0}
				}
				tabs := []idb.Table{tb}
				setIDs(tabs, 40)
				c := ValueCase{Data: DataCase{Tabs: tabs, Layout: idb.DictLayout{V57: true}, TZ: zone}}
				xv := func(i int) idb.Val {
					if i%5 == 4 {
						return idb.Val{Nul: true}
					}
					return idb.Val{B: []byte(fmt.Sprintf("x%d", i))}
				}
				page := Page{Kind: "leaf"}
				used := 0
				for i, val := range part {
					row := Row{State: []string{"live", "free"}[i%2], Sys: idb.Sys{Trx: uint64(i) + 1, Roll: 1 << 50}}
					if asKey {
						row.Vals = []idb.Val{xv(i), val}
					} else {
						row.Vals = []idb.Val{{N: uint64(i)}, val, xv(i)}
					}
					sz := rowSize(&tabs[0], row)
					if used+2*sz > idb.Room(red, 2*len(page.Rows)+4) {
						c.Data.Pages = append(c.Data.Pages, page)
						page, used = Page{Kind: "leaf"}, 0
					}
					used += 2 * sz
					other := row
					other.State = []string{"free", "live"}[i%2]
					page.Rows = append(page.Rows, row, other)
					u := &idb.Undo{Type: 12, UndoNo: uint64(i), Trx: uint64(i) + 1, Roll: 1 << 50, Null57: i%2 == 0}
					if asKey {
						u.Key = []idb.Val{val}
						u.Upd = []idb.UpdField{{Col: 0, Val: xv(i)}}
					} else {
						u.Key = []idb.Val{{N: uint64(i)}}
						u.Upd = []idb.UpdField{{Col: 1, Val: val}, {Col: 2, Val: xv(i)}}
					}
					c.Recs = append(c.Recs, idb.LogRec{T: idb.MlogUndoInsert, Single: i%2 == 1, Space: 3, Page: uint32(i), Undo: u})
				}
				c.Data.Pages = append(c.Data.Pages, page)
				out = append(out, c)
			}
		}
	}
	return out
}

func nvals(ns ...uint64) []idb.Val {
	var out []idb.Val
	for _, n := range ns {
		out = append(out, idb.Val{N: n})
	}
	return out
}

// bitPatterns are the extremes and single-bit patterns of a width.
func bitPatterns(bits uint, all bool) []uint64 {
	mask := ^uint64(0) >> (64 - bits)
	seen := map[uint64]bool{}
	var out []uint64
	add := func(n uint64) {
		n &= mask
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, n := range []uint64{0, 1, 2, mask, mask - 1, mask >> 1, mask>>1 + 1, mask>>1 + 2, mask>>1 - 1} {
		add(n)
	}
	for i := uint(0); i < bits; i++ {
		if all || i%8 == 0 || i%8 == 7 || i == bits-1 {
			add(1 << i)
			add(^(uint64(1) << i))
			add(1<<i - 1)
		}
	}
	add(0x0102030405060708)
	add(0xf1e2d3c4b5a69788)
	return out
}

func sweepNumbers(thorough bool) []ValueCase {
	var out []ValueCase
	for _, size := range []int{1, 2, 3, 4, 8} {
		for _, uns := range []bool{false, true} {
			c := idb.Col{Kind: "int", Size: size, Unsigned: uns}
			var vs []idb.Val
			ps := bitPatterns(uint(size)*8, thorough)
			if size == 1 {
				ps = nil
				for i := 0; i < 256; i++ {
					ps = append(ps, uint64(i))
				}
			}
			for _, n := range ps {
				if !uns && n>>(uint(size)*8-1) == 1 && size < 8 {
					n |= ^uint64(0) << (uint(size) * 8)
				}
				vs = append(vs, idb.Val{N: n})
			}
			out = append(out, sweepValues(c, vs, "")...)
		}
	}
	var years []idb.Val
	years = append(years, idb.Val{})
	for y := 1901; y <= 2155; y++ {
		years = append(years, idb.Val{N: uint64(y)})
	}
	out = append(out, sweepValues(idb.Col{Kind: "year"}, years, "")...)
	for n := 1; n <= 64; n++ {
		if !thorough && n > 9 && n%8 > 1 && n != 63 && n != 31 && n != 15 {
			continue
		}
		out = append(out, sweepValues(idb.Col{Kind: "bit", Size: n}, nvals(bitPatterns(uint(n), false)...), "")...)
	}
	var en []uint64
	for i := uint64(0); i <= 255; i++ {
		en = append(en, i)
	}
	out = append(out, sweepValues(idb.Col{Kind: "enum", Size: 1}, nvals(en...), "")...)
	out = append(out, sweepValues(idb.Col{Kind: "enum", Size: 2}, nvals(0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535), "")...)
	for _, s := range []int{1, 2, 3, 4, 8} {
		out = append(out, sweepValues(idb.Col{Kind: "set", Size: s}, nvals(bitPatterns(uint(s)*8, thorough)...), "")...)
	}
	var fs, ds []idb.Val
	for _, f := range []float32{0, 1, -1, 0.1, -0.1, 1.5, 100, 1e6, 1e7, 123456.79, 16777216, 16777217, 1e10, 1e20, 1e21, 1e22, 1e-4, 1e-5, 1e-6, 1e-7, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 1e-45, 0.333333343} {
		fs = append(fs, idb.Val{N: uint64(math.Float32bits(f))})
	}
	for _, f := range []float64{0, 1, -1, 0.1, -0.1, 1.5, 100, 1e6, 1e7, 123456.789, 9007199254740991, 9007199254740993, 1e10, 1e20, 1e21, 1e22, 1e-4, 1e-5, 1e-6, 1e-7, math.MaxFloat64, -math.MaxFloat64, 2.2250738585072014e-308, 5e-324, 1.0 / 3, math.Pi} {
		ds = append(ds, idb.Val{N: math.Float64bits(f)})
	}
	out = append(out, sweepValues(idb.Col{Kind: "float"}, fs, "")...)
	out = append(out, sweepValues(idb.Col{Kind: "double"}, ds, "")...)
	return out
}

func sweepTemporal(thorough bool) []ValueCase {
	var out []ValueCase
	var dates, stamps, times []idb.Val
	dates = append(dates, idb.Val{})
	years := []int{1000, 1001, 1582, 1899, 1900, 1901, 1969, 1970, 1990, 1999, 2000, 2001, 2024, 2037, 2038, 2039, 2099, 2100, 9998, 9999}
	for _, y := range years {
		for m := 1; m <= 12; m++ {
			for _, d := range []int{1, 15, daysIn(y, m)} {
				if d == 15 && y%2 == 0 {
					continue
				}
				dates = append(dates, idb.Val{N: uint64(y*10000 + m*100 + d)})
			}
		}
	}
	dates = append(dates, nvals(20190500, 20190000)...)
	out = append(out, sweepValues(idb.Col{Kind: "date"}, dates, "")...)
	var dts []idb.Val
	dts = append(dts, idb.Val{})
	for h := 0; h < 24; h++ {
		for _, ms := range []int{0, 1, 100, 3059, 5900, 5959} {
			dts = append(dts, idb.Val{N: uint64(20190731000000 + h*10000 + ms)})
		}
	}
	for _, d := range dates[1:] {
		if d.N%7 == 0 || thorough {
			dts = append(dts, idb.Val{N: d.N*1000000 + d.N%24*10000 + d.N%60*100 + d.N/3%60})
		}
	}
	dts = append(dts, nvals(10000101000000, 99991231235959)...)
	out = append(out, sweepValues(idb.Col{Kind: "datetime"}, dts, "")...)
	for h := -838; h <= 838; h++ {
		if thorough || h > 830 || h < -830 || (h >= -26 && h <= 26) || h%50 == 0 {
			s := h * 3600
			if h < 0 {
				times = append(times, idb.Val{N: uint64(int64(s - 59))}, idb.Val{N: uint64(int64(s - 59*60 - 59))})
			} else {
				times = append(times, idb.Val{N: uint64(int64(s + 59))}, idb.Val{N: uint64(int64(s + 59*60 + 59))})
			}
			times = append(times, idb.Val{N: uint64(int64(s))})
		}
	}
	for s := -200; s <= 200; s++ {
		times = append(times, idb.Val{N: uint64(int64(s))})
	}
	out = append(out, sweepValues(idb.Col{Kind: "time"}, times, "")...)
	for fsp := 1; fsp <= 6; fsp++ {
		p := 1
		for i := fsp; i < 6; i++ {
			p *= 10
		}
		var ts, ds, ss []idb.Val
		for _, us := range []int{0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 2550, 9999, 10000, 65535, 65536, 99999, 100000, 123456, 250000, 500000, 655350, 900000, 990000, 999900, 999999} {
			us = us / p * p
			for _, s := range []int{0, 1, 59, 60, 3599, 3600, 86399, 838*3600 + 59*60 + 58} {
				ts = append(ts, idb.Val{N: uint64(int64(s*1000000 + us))}, idb.Val{N: uint64(-int64(s*1000000 + us))})
			}
			for _, d := range []uint64{10000101000000, 19991231235959, 20190731123456, 20190700000000, 99991231235959} {
				ds = append(ds, idb.Val{N: d, F: uint32(us)})
			}
			for _, s := range []uint64{1, 255, 1 << 24, 1562000400, 1<<31 - 1, 1<<32 - 1} {
				ss = append(ss, idb.Val{N: s, F: uint32(us)})
			}
		}
		out = append(out, sweepValues(idb.Col{Kind: "time", Size: fsp}, ts, "")...)
		out = append(out, sweepValues(idb.Col{Kind: "datetime", Size: fsp}, append(ds, idb.Val{}), "")...)
		out = append(out, sweepValues(idb.Col{Kind: "timestamp", Size: fsp}, append(ss, idb.Val{}), "+5:45")...)
	}
	out = append(out, sweepValues(idb.Col{Kind: "otime"}, times, "")...)
	out = append(out, sweepValues(idb.Col{Kind: "odatetime"}, dts, "")...)
	// every hour of a day, the limits, changes of the clock
	stamps = append(stamps, nvals(0, 1, 59, 60, 1<<31-1, 1<<31, 1<<31+1, 1<<32-1, 1<<24, 1<<16, 255, 256)...)
	for h := 0; h < 24; h++ {
		stamps = append(stamps, nvals(uint64(1562000400+h*3600), uint64(1562000400+h*3600+3599), uint64(86400*20+h*3600))...)
	}
	for _, s := range []uint64{1552201200, 1572760800, 1583650800, 1604210400, 1585443600, 1603587600, 1325239200, 1301752800, 1317483000} {
		for d := -7200; d <= 7200; d += 1800 {
			stamps = append(stamps, idb.Val{N: uint64(int64(s) + int64(d))})
		}
	}
	zs := []string{"UTC", "America/New_York", "+5:45"}
	if thorough {
		zs = zones
	}
	for _, z := range zs {
		out = append(out, sweepValues(idb.Col{Kind: "timestamp"}, stamps, z)...)
		out = append(out, sweepValues(idb.Col{Kind: "otimestamp"}, stamps, z)...)
	}
	return out
}

func pattern(n, style int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch style {
		case 0:
			b[i] = 'a' + byte(i%26)
		case 1:
			b[i] = byte(i*7 + n)
		case 2:
			b[i] = 0
		case 3:
			b[i] = ' '
		case 4:
			b[i] = 0xff
		case 5:
			b[i] = '0'
		}
	}
	return b
}

func sweepStrings(thorough bool) []ValueCase {
	var out []ValueCase
	styles := []int{0, 1}
	if thorough {
		styles = []int{0, 1, 2, 3, 4, 5}
	}
	lens := func(max int) []int {
		var l []int
		for _, n := range []int{0, 1, 2, 3, 62, 63, 64, 65, 84, 85, 86, 126, 127, 128, 129, 130, 191, 192, 193, 253, 254, 255, 256, 257, 258, 383, 384, 511, 512, 513, 766, 767, 768, 769, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 5000, 7000, max - 1, max} {
			if n >= 0 && n <= max && n <= 7000 {
				l = append(l, n)
			}
		}
		return l
	}
	strs := func(c idb.Col, max int) {
		var vs []idb.Val
		for _, st := range styles {
			for _, n := range lens(max) {
				b := pattern(n, st)
				if c.Kind == "char" {
					if c.Mbmax() > 1 && (st == 1 || st == 4) {
						continue
					}
					for len(b) > 0 && b[len(b)-1] == ' ' {
						b = b[:len(b)-1]
					}
				}
				if c.Kind == "binary" {
					b = append(b, make([]byte, c.Size-len(b))...)
				}
				vs = append(vs, idb.Val{B: b})
			}
		}
		if c.UTF8() { // texts of multi-byte characters
			for _, ch := range []string{"é", "中", "𝄞"} {
				if len(ch) > c.Mbmax() {
					continue
				}
				chars := max
				if c.Kind == "text" {
					chars = max / len(ch)
				}
				for _, n := range []int{1, chars / 2, chars} {
					b := []byte{}
					for i := 0; i < n && len(b)+len(ch) <= 6900; i++ {
						b = append(b, ch...)
					}
					vs = append(vs, idb.Val{B: b})
				}
			}
		}
		for _, s := range []string{" ", "  a", "a  b", "\ta", "a\t", "\n", "\x00", "\x00a", "a\x00", "\xff\xfe", "\xc3", "'", "\\", "NULL"} {
			if len(s) > max || c.Kind == "binary" {
				continue
			}
			if c.Kind == "char" && (s == " " || c.Mbmax() > 1 && s[0] >= 0x80) {
				continue
			}
			vs = append(vs, idb.Val{B: []byte(s)})
		}
		out = append(out, sweepValues(c, vs, "")...)
	}
	for _, n := range []int{1, 20, 63, 64, 84, 85, 86, 127, 128, 191, 192, 193, 254, 255, 256, 257, 1000, 5000} {
		css := []int{8, 33, 45}
		if thorough || n == 20 || n == 86 || n == 255 {
			css = idb.CharSets[:40]
		}
		if thorough || n == 20 {
			css = idb.CharSets
		}
		for _, cs := range css {
			m := idb.Col{CS: cs}.Mbmax()
			if n*m > 65000 {
				continue
			}
			max := n
			strs(idb.Col{Kind: "varchar", Size: n, CS: cs}, max)
			if n <= 255 {
				strs(idb.Col{Kind: "char", Size: n, CS: cs}, max)
			}
		}
		strs(idb.Col{Kind: "varbinary", Size: n}, n)
		if n <= 255 {
			strs(idb.Col{Kind: "binary", Size: n}, n)
		}
	}
	for s := 1; s <= 4; s++ {
		strs(idb.Col{Kind: "blob", Size: s}, min(7000, 1<<(8*uint(s))-1))
		strs(idb.Col{Kind: "text", Size: s, CS: 8}, min(7000, 1<<(8*uint(s))-1))
	}
	strs(idb.Col{Kind: "text", Size: 2, CS: 45}, 7000)
	return out
}

// sweepNulls puts NULLs at every place among k nullable columns.
func sweepNulls(thorough bool) []ValueCase {
	var out []ValueCase
	kinds := []idb.Col{{Kind: "int", Size: 4}, {Kind: "varchar", Size: 20, CS: 8}, {Kind: "bit", Size: 5}, {Kind: "datetime"}, {Kind: "double"}, {Kind: "char", Size: 3, CS: 33},
		{Kind: "blob", Size: 2}, {Kind: "int", Size: 1, Unsigned: true}, {Kind: "year"}, {Kind: "varbinary", Size: 300}, {Kind: "date"}, {Kind: "binary", Size: 2}, {Kind: "text", Size: 1, CS: 45},
		{Kind: "time"}, {Kind: "timestamp"}, {Kind: "enum", Size: 1}, {Kind: "set", Size: 8}, {Kind: "float"}, {Kind: "char", Size: 4, CS: 8}, {Kind: "varchar", Size: 200, CS: 45}, {Kind: "int", Size: 3}}
	zero := func(c idb.Col) idb.Val {
		if c.Kind == "binary" {
			return idb.Val{B: make([]byte, c.Size)}
		}
		return idb.Val{B: []byte{}}
	}
	nullText := func(c idb.Col, i int) idb.Val {
		switch c.Kind {
		case "varchar", "text", "blob", "varbinary":
			return idb.Val{B: []byte("NULL")}
		case "char":
			return idb.Val{B: []byte("NULL")[:min(4, c.Size)]}
		case "binary":
			return idb.Val{B: []byte("NU")}
		case "int":
			return idb.Val{N: uint64(i)}
		}
		return idb.Val{}
	}
	for k := 1; k <= 40; k++ {
		if !thorough && k > 18 && k != 24 && k != 25 && k != 32 && k != 33 && k != 40 {
			continue
		}
		for _, red := range []bool{false, true} {
			tb := idb.Table{Schema: "test", Name: "t", Key: "primary", Redundant: red, KeyCols: []int{k / 2}}
			for i := 0; i < k; i++ {
				c := kinds[(i+k)%len(kinds)]
				c.Name = fmt.Sprintf("c%d", i)
				c.Null = true
				tb.Cols = append(tb.Cols, c)
			}
			// the key in the middle, and columns that cannot be NULL among the others
			tb.Cols = append(tb.Cols[:k/2], append([]idb.Col{{Name: "id", Kind: "int", Size: 4}}, tb.Cols[k/2:]...)...)
			if k > 4 {
				tb.Cols[1].Null = false
			}
			tabs := []idb.Table{tb}
			setIDs(tabs, 40)
			c := ValueCase{Data: DataCase{Tabs: tabs, Layout: idb.DictLayout{V57: k%2 == 0}}}
			page := Page{Kind: "leaf"}
			used := 0
			add := func(isNull func(i int) bool, fill func(c idb.Col, i int) idb.Val) {
				n := len(page.Rows)
				row := Row{State: []string{"live", "free"}[n%2]}
				u := &idb.Undo{Type: 12, Key: []idb.Val{{N: uint64(n)}}, UndoNo: uint64(n), Trx: 5, Roll: 6, Null57: n%4 > 1}
				for i, col := range tb.Cols {
					v := fill(col, i)
					if col.Null && isNull(i) {
						v = idb.Val{Nul: true}
					}
					if i == k/2 {
						v = idb.Val{N: uint64(n)}
					} else {
						u.Upd = append(u.Upd, idb.UpdField{Col: i, Val: v})
					}
					row.Vals = append(row.Vals, v)
				}
				sz := rowSize(&tabs[0], row)
				if used+sz > idb.Room(red, len(page.Rows)+2) {
					c.Data.Pages = append(c.Data.Pages, page)
					page, used = Page{Kind: "leaf"}, 0
				}
				used += sz
				page.Rows = append(page.Rows, row)
				c.Recs = append(c.Recs, idb.LogRec{T: idb.MlogUndoInsert, Undo: u})
			}
			empty := func(c idb.Col, i int) idb.Val { return zero(c) }
			add(func(int) bool { return true }, empty)
			add(func(int) bool { return false }, empty)
			add(func(int) bool { return false }, nullText)
			add(func(i int) bool { return i%2 == 0 }, nullText)
			add(func(i int) bool { return i%2 == 1 }, empty)
			for j := 0; j <= k; j++ {
				add(func(i int) bool { return i == j }, nullText)
				add(func(i int) bool { return i != j }, nullText)
				add(func(i int) bool { return i < j }, empty)
			}
			c.Data.Pages = append(c.Data.Pages, page)
			out = append(out, c)
		}
	}
	return out
}

// sweepLiterals stores every byte and pair of special bytes in every type
// that holds bytes.
func sweepLiterals(thorough bool) []ValueCase {
	var bs [][]byte
	for i := 0; i < 256; i++ {
		bs = append(bs, []byte{byte(i)}, []byte{'a', byte(i), 'b'})
	}
	sp := specialBytes
	for _, a := range sp {
		for _, b := range sp {
			bs = append(bs, []byte{a, b})
		}
	}
	for i := 0; i < 256; i++ {
		bs = append(bs, []byte{'\\', byte(i)})
		if thorough {
			bs = append(bs, []byte{byte(i), '\''}, []byte{byte(i), '\\'}, []byte{'\'', byte(i)}, []byte{byte(i), byte(i)})
		}
	}
	for _, s := range specialTexts {
		bs = append(bs, []byte(s))
	}
	var out []ValueCase
	for _, c := range []idb.Col{{Kind: "varchar", Size: 60, CS: 8}, {Kind: "text", Size: 1, CS: 8}, {Kind: "blob", Size: 2}, {Kind: "varbinary", Size: 60},
		{Kind: "char", Size: 60, CS: 8}, {Kind: "binary", Size: 40}, {Kind: "varchar", Size: 300, CS: 45}} {
		var vs []idb.Val
		for _, b := range bs {
			b := append([]byte(nil), b...)
			switch c.Kind {
			case "char":
				for len(b) > 0 && b[len(b)-1] == ' ' {
					b = b[:len(b)-1]
				}
			case "binary":
				for len(b) < c.Size {
					b = append(b, 0)
				}
			}
			vs = append(vs, idb.Val{B: b})
		}
		out = append(out, sweepValues(c, vs, "")...)
	}
	return out
}

func init() {
	rule := "at least one row or update is expected in the output"
	Register(&Prop[ValueCase]{ID: "C03", Rule: rule, Quick: 18000, Thorough: 150000,
		Gen:   func(t *rapid.T) ValueCase { return genValues(t, numericKinds, TabOpt{}) },
		Sweep: sweepNumbers, Run: runValues, Summary: summaryValues,
		Assumptions: []string{"FLOAT and DOUBLE values are finite", "DECIMAL columns are excluded (see known findings)"}})
	Register(&Prop[ValueCase]{ID: "C04", Rule: rule, Quick: 18000, Thorough: 150000,
		Gen: func(t *rapid.T) ValueCase {
			return genValues(t, append([]string{"int", "varchar"}, append(temporal, temporal...)...), TabOpt{})
		},
		Sweep: sweepTemporal, Run: runValues, Summary: summaryValues,
		Assumptions: []string{"years from 1000 (or the zero value)"}})
	Register(&Prop[ValueCase]{ID: "C05", Rule: rule, Quick: 18000, Thorough: 150000,
		Gen: func(t *rapid.T) ValueCase {
			return genValues(t, append([]string{"int"}, append(stringKinds, stringKinds...)...), TabOpt{})
		},
		Sweep: sweepStrings, Run: runValues, Summary: summaryValues,
		Assumptions: []string{"values are stored inside the row", "character sets with ASCII as single bytes (not ucs2, utf16, utf32)"}})
	Register(&Prop[ValueCase]{ID: "C06", Rule: rule, Quick: 18000, Thorough: 150000,
		Gen: func(t *rapid.T) ValueCase {
			o := TabOpt{MinCols: 2, MaxCols: 12, NullPct: 80, Wide: 4}
			if chance(t, 20, "wide") {
				o.MinCols, o.MaxCols = 13, 45
			}
			return genValues(t, allKinds, o)
		},
		Sweep: sweepNulls, Run: runValues, Summary: summaryValues})
	Register(&Prop[ValueCase]{ID: "C09", Rule: rule, Quick: 18000, Thorough: 150000,
		Gen: func(t *rapid.T) ValueCase {
			return genValues(t, []string{"varchar", "varchar", "text", "char", "blob", "varbinary", "binary", "bit"}, TabOpt{OddNames: true})
		},
		Sweep: sweepLiterals, Run: runValues, Summary: summaryValues,
		Assumptions: []string{"default sql_mode (backslash escapes)", "identifiers contain no backtick"}})
}
