package props

import (
	"fmt"
	"math"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/idb"
)

// ---- small drawing helpers ----

func ints(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// chance is true in about pct of 100 cases and shrinks to false.
func chance(t *rapid.T, pct int, label string) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

func pick[T any](t *rapid.T, xs []T, label string) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func seed(t *rapid.T, label string) uint64 { return rapid.Uint64().Draw(t, label) }

// ---- values ----

// Texts that look like something special.
var specialTexts = []string{
	"", "NULL", "null", "''", "'", "\"", "\\", "\\'", "'); drop table t; --", "0001-01-01T00:00:00Z", "0", "-1", " ",
	"  lead", "\ttab", "a\nb", "a\r\nb", "\x00", "a\x00b", "\x1a", "b'1'", "unhex('00')", "x'41'", "`", ";", "%", "\\%", "\\_",
	"<nil>", "%!s(MISSING)", "%d", "1e5", "true", "0000-00-00", "nil", "DB_ROW_ID", "\\N", "--", "/*", "');", "\\\\'", "end\\", ",", "a,b",
	"\u2028", "\u00e9", "\u4e2d\u6587", "trailing\t", "line\n",
}

var specialBytes = []byte("'\"\\\x00\x1a\n\r\t`%_;,() \x7f\x80\xff")

// rawBytes draws n bytes.
func rawBytes(t *rapid.T, n int, label string) []byte {
	if n <= 0 {
		return []byte{}
	}
	b := make([]byte, n)
	switch ints(t, 0, 4, label+"Fill") {
	case 0:
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
	case 1:
		r := idb.Rng(seed(t, label+"Seed"))
		r.Bytes(b)
	case 2:
		r := idb.Rng(seed(t, label+"Seed"))
		for i := range b {
			b[i] = specialBytes[r.Intn(len(specialBytes))]
		}
	case 3:
		c := rapid.Byte().Draw(t, label+"Rep")
		for i := range b {
			b[i] = c
		}
	default:
		r := idb.Rng(seed(t, label+"Seed"))
		for i := range b {
			b[i] = ' ' + byte(r.Intn(95))
		}
		if n > 2 {
			b[r.Intn(n)] = specialBytes[r.Intn(len(specialBytes))]
		}
	}
	return b
}

// text draws a valid text of at most maxBytes bytes and maxChars characters in
// the column's character set.
func text(t *rapid.T, col idb.Col, maxChars, maxBytes int, label string) []byte {
	mb := col.Mbmax()
	if chance(t, 25, label+"Special") {
		s := pick(t, specialTexts, label+"Text")
		if mb == 1 || runeLen(s) <= maxChars {
			if (mb != 1 || len(s) <= maxChars) && len(s) <= maxBytes && (mb == 1 || col.UTF8() || len(s) == runeLen(s)) {
				return []byte(s)
			}
		}
	}
	if mb == 1 {
		return rawBytes(t, length(t, min(maxChars, maxBytes), label), label)
	}
	n := length(t, min(maxChars, maxBytes), label)
	r := idb.Rng(seed(t, label+"Seed"))
	style := ints(t, 0, 2, label+"Style")
	var out []byte
	for i := 0; i < n; i++ {
		c := rune('a' + i%26)
		switch style {
		case 1:
			c = rune(specialBytes[r.Intn(len(specialBytes)-2)])
		case 2:
			switch r.Intn(mb) {
			case 0:
				c = rune(' ' + r.Intn(95))
			case 1:
				c = rune(0x80 + r.Intn(0x700))
			case 2:
				c = rune(0x800 + r.Intn(0xd000))
			case 3:
				c = rune(0x10000 + r.Intn(0xfffff))
			}
		}
		e := []byte(string(c))
		if !col.UTF8() && len(e) > 1 { // two bytes, the second may look like ASCII
			e = []byte{0xa1 + byte(r.Intn(0x50)), 0xa1 + byte(r.Intn(0x50))}
			if (col.CS == 28 || col.CS == 1 || col.CS == 13) && r.Intn(3) == 0 {
				e[1] = 0x5c
			}
		}
		if len(out)+len(e) > maxBytes {
			break
		}
		out = append(out, e...)
	}
	return out
}

func runeLen(s string) int { return len([]rune(s)) }

// length draws a length biased to the limits of the length encodings.
func length(t *rapid.T, max int, label string) int {
	if max <= 0 {
		return 0
	}
	if chance(t, 40, label+"Edge") {
		n := pick(t, []int{0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 767, 768, max - 1, max}, label+"EdgeLen")
		if n <= max && n >= 0 {
			return n
		}
	}
	if max > 40 && !chance(t, 15, label+"Long") {
		max = 40
	}
	return ints(t, 0, max, label+"Len")
}

func daysIn(y, m int) int { return time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day() }

func genDate(t *rapid.T, label string) uint64 {
	if chance(t, 10, label+"Zero") {
		return 0
	}
	y := ints(t, 1000, 9999, label+"Y")
	if chance(t, 40, label+"EdgeY") {
		y = pick(t, []int{1000, 1582, 1899, 1900, 1969, 1970, 1990, 1991, 1999, 2000, 2024, 2038, 2099, 2100, 2155, 9998, 9999}, label+"EdgeYear")
	}
	m := ints(t, 1, 12, label+"M")
	d := ints(t, 1, daysIn(y, m), label+"D")
	if chance(t, 5, label+"Partial") { // MySQL allows a zero day or month
		d = 0
		if chance(t, 50, label+"PartialM") {
			m = 0
		}
	}
	return uint64(y*10000 + m*100 + d)
}

// genMicros draws microseconds with as many decimal places as the column has.
func genMicros(t *rapid.T, c idb.Col, label string) uint32 {
	if c.Fsp() == 0 {
		return 0
	}
	p := 1
	for i := c.Fsp(); i < 6; i++ {
		p *= 10
	}
	if chance(t, 40, label+"EdgeF") {
		return uint32(pick(t, []int{0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 10000, 65535, 65536, 99999, 100000, 123456, 500000, 999999}, label+"EdgeUs") / p * p)
	}
	return uint32(ints(t, 0, 999999, label+"Us") / p * p)
}

// genVal draws a non-NULL value; at most budget bytes for variable lengths.
func genVal(t *rapid.T, c idb.Col, budget int, label string) idb.Val {
	switch c.Kind {
	case "int":
		bits := uint(c.Size) * 8
		mask := uint64(math.MaxUint64) >> (64 - bits)
		var n uint64
		if chance(t, 50, label+"Edge") {
			n = pick(t, []uint64{0, 1, mask, mask - 1, mask >> 1, mask>>1 + 1, mask>>1 + 2, mask>>1 - 1, mask >> 2, mask>>2 + 1, 127, 128, 255, 256, 65535}, label+"EdgeN") & mask
		} else {
			n = rapid.Uint64().Draw(t, label+"N") & mask
		}
		if !c.Unsigned && n>>(bits-1) == 1 {
			n |= ^mask
		}
		return idb.Val{N: n}
	case "float":
		for {
			var f float32
			if chance(t, 30, label+"Edge") {
				f = pick(t, []float32{0, 1, -1, 0.1, -0.5, 3.4028235e38, -3.4028235e38, 1e-45, 1.1754944e-38, 1e20, 1e21, 1e-7, 16777216, 16777217, 123456.79, 100000, 1000000}, label+"EdgeF")
			} else {
				f = math.Float32frombits(rapid.Uint32().Draw(t, label+"Bits"))
			}
			if !math.IsNaN(float64(f)) && !math.IsInf(float64(f), 0) {
				return idb.Val{N: uint64(math.Float32bits(f))}
			}
		}
	case "double":
		for {
			var f float64
			if chance(t, 30, label+"Edge") {
				f = pick(t, []float64{0, 1, -1, 0.1, -0.5, math.MaxFloat64, -math.MaxFloat64, 5e-324, 2.2250738585072014e-308, 1e20, 1e21, 1e-7, 1 << 53, 1e15 + 0.3, 1e6, 123456789.123}, label+"EdgeF")
			} else {
				f = math.Float64frombits(rapid.Uint64().Draw(t, label+"Bits"))
			}
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return idb.Val{N: math.Float64bits(f)}
			}
		}
	case "year":
		if chance(t, 15, label+"Zero") {
			return idb.Val{}
		}
		return idb.Val{N: uint64(ints(t, 1901, 2155, label+"Y"))}
	case "date":
		return idb.Val{N: genDate(t, label)}
	case "time", "otime":
		const max = 838*3600 + 59*60 + 59
		n := ints(t, -max, max, label+"S")
		if chance(t, 40, label+"Edge") {
			n = pick(t, []int{0, 1, -1, 59, -59, 60, -60, 3599, 3600, -3600, -3601, 86399, 86400, -86400, max, -max}, label+"EdgeS")
		}
		if c.Fsp() > 0 {
			us := int64(genMicros(t, c, label))
			if n == max || n == -max {
				us = 0
			}
			if n < 0 || n == 0 && chance(t, 50, label+"Neg") {
				us = -us
			}
			return idb.Val{N: uint64(int64(n)*1000000 + us)}
		}
		return idb.Val{N: uint64(int64(n))}
	case "timestamp", "otimestamp":
		n := uint64(rapid.Uint32().Draw(t, label+"T"))
		if chance(t, 40, label+"Edge") {
			n = pick(t, []uint64{0, 1, 43199, 43200, 86399, 86400, 1<<31 - 1, 1 << 31, 1<<32 - 1, 951782400, 1603587600, 1603584000, 1585443600, 1585440000, 1<<24 - 1, 1 << 24}, label+"EdgeT")
		}
		v := idb.Val{N: n}
		if n > 0 {
			v.F = genMicros(t, c, label)
		}
		return v
	case "datetime", "odatetime":
		d := genDate(t, label)
		if d == 0 {
			return idb.Val{}
		}
		h, m, s := ints(t, 0, 23, label+"H"), ints(t, 0, 59, label+"Mi"), ints(t, 0, 59, label+"S")
		return idb.Val{N: d*1000000 + uint64(h*10000+m*100+s), F: genMicros(t, c, label)}
	case "bit":
		mask := uint64(math.MaxUint64) >> (64 - uint(c.Size))
		if chance(t, 30, label+"Edge") {
			return idb.Val{N: pick(t, []uint64{0, 1, mask, mask >> 1, mask&^(mask>>1) | 1, 39, 92, 0x2727272727272727, 10, 100}, label+"EdgeB") & mask}
		}
		return idb.Val{N: rapid.Uint64().Draw(t, label+"B") & mask}
	case "enum":
		max := 255
		if c.Size == 2 {
			max = 65535
		}
		if chance(t, 30, label+"Edge") {
			return idb.Val{N: uint64(pick(t, []int{0, 1, 127, 128, 255, max, max - 1}, label+"EdgeE"))}
		}
		return idb.Val{N: uint64(ints(t, 0, max, label+"E"))}
	case "set":
		mask := uint64(math.MaxUint64) >> (64 - uint(c.Size)*8)
		if chance(t, 30, label+"Edge") {
			return idb.Val{N: pick(t, []uint64{0, 1, mask, mask >> 1, mask&^(mask>>1) | 1}, label+"EdgeSet") & mask}
		}
		return idb.Val{N: rapid.Uint64().Draw(t, label+"Set") & mask}
	case "char":
		b := text(t, c, c.Size, c.Size*c.Mbmax(), label)
		for len(b) > 0 && b[len(b)-1] == ' ' {
			b = b[:len(b)-1]
		}
		return idb.Val{B: b}
	case "decimal":
		b := rawBytes(t, c.Size, label)
		return idb.Val{B: b}
	case "binary":
		b := rawBytes(t, ints(t, 0, c.Size, label+"BL"), label)
		for len(b) < c.Size {
			b = append(b, 0)
		}
		return idb.Val{B: b}
	case "varchar":
		return idb.Val{B: text(t, c, c.Size, min(c.Size*c.Mbmax(), max(budget, 0)), label)}
	case "text":
		return idb.Val{B: text(t, c, min(1<<(8*uint(c.Size))-1, 7000), min(max(budget, 0), 1<<(8*uint(c.Size))-1), label)}
	case "varbinary":
		return idb.Val{B: rawBytes(t, length(t, min(c.Size, max(budget, 0)), label), label)}
	case "blob":
		return idb.Val{B: rawBytes(t, length(t, min(min(1<<(8*uint(c.Size))-1, 7000), max(budget, 0)), label), label)}
	}
	panic(c.Kind)
}

// ---- tables ----

var (
	numericKinds = []string{"int", "int", "float", "double", "year", "bit", "enum", "set"}
	temporal     = []string{"date", "time", "datetime", "timestamp", "time", "datetime", "timestamp", "otime", "odatetime", "otimestamp"}
	stringKinds  = []string{"char", "varchar", "text", "binary", "varbinary", "blob"}
	allKinds     = append(append(append([]string{"decimal"}, numericKinds...), temporal...), stringKinds...)
	plainKinds   = []string{"int", "int", "varchar", "varchar", "char", "datetime", "double", "text", "bit"}
)

// TabOpt directs the table generator.
type TabOpt struct {
	Kinds     []string
	MinCols   int
	MaxCols   int
	NullPct   int
	Redundant int // 0 no, 1 yes, 2 either
	Keys      []string
	MaxKey    int  // key columns
	OddNames  bool // column names with quotes, blanks, non-ASCII letters
	Sec       bool
	Wide      int // percentage of tables with a hundred columns and more
	Fts       int // percentage of tables with an FTS_DOC_ID column
	Prefix    int // percentage of tables with prefixes of columns in the primary key
}

// wideName begins the names of the columns a wide table is filled up with.
const wideName = "w_"

var wideKinds = []idb.Col{{Kind: "int", Size: 1}, {Kind: "int", Size: 2, Unsigned: true}, {Kind: "int", Size: 4}, {Kind: "int", Size: 3}, {Kind: "varchar", Size: 20, CS: 8},
	{Kind: "varchar", Size: 300, CS: 33}, {Kind: "char", Size: 3, CS: 8}, {Kind: "bit", Size: 5}, {Kind: "date"}, {Kind: "year"}, {Kind: "enum", Size: 1}, {Kind: "time"}, {Kind: "datetime"}, {Kind: "varbinary", Size: 9}}

// widen fills a table up with columns made from a seed.
func widen(t *rapid.T, tb *idb.Table, o TabOpt, label string) {
	r := idb.Rng(seed(t, label+"WideSeed"))
	var ok []idb.Col
	for _, c := range wideKinds {
		for _, k := range o.Kinds {
			if k == c.Kind {
				ok = append(ok, c)
				break
			}
		}
	}
	if len(ok) == 0 {
		return
	}
	n := ints(t, 1, 320, label+"WideN")
	if chance(t, 50, label+"WideEdge") {
		n = pick(t, []int{7, 8, 9, 63, 64, 65, 120, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1000}, label+"WideEdgeN")
	}
	size := 0
	for i := 0; i < n && size < 5000; i++ {
		c := ok[r.Intn(len(ok))]
		c.Name = fmt.Sprintf("%s%d", wideName, i)
		c.Null = r.Intn(100) < o.NullPct
		size += min(c.Len(), 8)
		tb.Cols = append(tb.Cols, c)
	}
}

func isWide(c idb.Col) bool { return strings.HasPrefix(c.Name, wideName) }

// cheapVal makes a value of a fill-up column without drawing.
func cheapVal(c idb.Col, r *idb.Rng) idb.Val {
	switch c.Kind {
	case "int":
		bits := uint(c.Size) * 8
		n := r.Next() & (^uint64(0) >> (64 - bits))
		if !c.Unsigned && n>>(bits-1) == 1 {
			n |= ^(^uint64(0) >> (64 - bits))
		}
		return idb.Val{N: n}
	case "bit":
		return idb.Val{N: r.Next() & (^uint64(0) >> (64 - uint(c.Size)))}
	case "date":
		return idb.Val{N: uint64(1000+r.Intn(9000))*10000 + uint64(1+r.Intn(12))*100 + uint64(1+r.Intn(28))}
	case "datetime":
		d := uint64(1000+r.Intn(9000))*10000 + uint64(1+r.Intn(12))*100 + uint64(1+r.Intn(28))
		return idb.Val{N: d*1000000 + uint64(r.Intn(24)*10000+r.Intn(60)*100+r.Intn(60))}
	case "year":
		return idb.Val{N: uint64(1901 + r.Intn(255))}
	case "enum":
		return idb.Val{N: uint64(1 + r.Intn(255))}
	case "time":
		return idb.Val{N: uint64(int64(r.Intn(7200000)/2 - 1800000))}
	}
	b := make([]byte, r.Intn(min(c.Size, 6)+1))
	for k := range b {
		b[k] = 'a' + byte(r.Intn(26))
	}
	return idb.Val{B: b}
}

func genCS(t *rapid.T, label string) int {
	if chance(t, 25, label+"CSAny") {
		return pick(t, idb.CharSets, label+"CSN")
	}
	return pick(t, []int{8, 33, 45}, label+"CS")
}

func genCol(t *rapid.T, kinds []string, label string) idb.Col {
	c := idb.Col{Kind: pick(t, kinds, label+"Kind")}
	switch c.Kind {
	case "int":
		c.Size = pick(t, []int{4, 1, 2, 3, 8}, label+"Size")
		c.Unsigned = rapid.Bool().Draw(t, label+"Uns")
	case "decimal":
		c.Size = ints(t, 1, 30, label+"Size")
	case "bit":
		c.Size = ints(t, 1, 64, label+"Bits")
	case "time", "datetime", "timestamp":
		if chance(t, 50, label+"Fsp") {
			c.Size = ints(t, 1, 6, label+"FspN")
		}
	case "enum":
		c.Size = ints(t, 1, 2, label+"Size")
	case "set":
		c.Size = pick(t, []int{1, 2, 3, 4, 8}, label+"Size")
	case "char":
		c.CS = genCS(t, label)
		c.Size = ints(t, 1, 40, label+"Size")
		if chance(t, 20, label+"EdgeSize") {
			c.Size = pick(t, []int{1, 63, 64, 84, 85, 86, 127, 128, 255}, label+"Edge")
		}
	case "varchar":
		c.CS = genCS(t, label)
		c.Size = ints(t, 1, 60, label+"Size")
		if chance(t, 50, label+"EdgeSize") {
			c.Size = pick(t, []int{1, 63, 64, 85, 86, 127, 128, 255, 256, 257, 500, 1000, 4000}, label+"Edge")
		}
	case "text":
		c.CS = genCS(t, label)
		c.Size = ints(t, 1, 4, label+"Size")
	case "blob":
		c.Size = ints(t, 1, 4, label+"Size")
	case "binary":
		c.Size = ints(t, 1, 40, label+"Size")
		if chance(t, 20, label+"EdgeSize") {
			c.Size = pick(t, []int{1, 127, 128, 255}, label+"Edge")
		}
	case "varbinary":
		c.Size = ints(t, 1, 60, label+"Size")
		if chance(t, 50, label+"EdgeSize") {
			c.Size = pick(t, []int{1, 127, 128, 254, 255, 256, 257, 1000, 4000}, label+"Edge")
		}
	}
	return c
}

var plainNames = []string{"id", "a", "b", "name", "val", "c1", "col", "x", "data", "ts", "NULL", "set", "where", "PRIMARY", "N_COLS", "é", "v1",
	"DB_ID", "db_row", "DB_ROW_ID2", "XDB_TRX_ID", "DB_ROLL", "ROW_ID", "FTS_DOC_ID2", "FTS_DOC", "SPACE", "ID", "#sql", "PRIMARY_KEY"}
var oddNames = []string{"two words", "it's", "\"q\"", "semi;colon", "comma,", "back\\slash", "p%d", "中文", "a=b", "(x)", "--", "and", "`", "a.b", strings.Repeat("long", 16), strings.Repeat("\u5217", 64)}

func genName(t *rapid.T, used map[string]bool, odd bool, label string) string {
	var s string
	if odd && chance(t, 50, label+"Odd") {
		s = pick(t, oddNames[:], label+"OddName")
		if s == "`" {
			s = "a#b"
		}
	} else {
		s = pick(t, plainNames, label+"Name")
	}
	for i := 0; used[lower(s)]; i++ {
		s = fmt.Sprintf("%s%d", s, i)
	}
	used[lower(s)] = true
	return s
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

var keyKinds = map[string]bool{"int": true, "date": true, "time": true, "datetime": true, "timestamp": true, "year": true,
	"otime": true, "odatetime": true, "otimestamp": true,
	"varchar": true, "char": true, "binary": true, "varbinary": true, "enum": true, "set": true, "bit": true, "double": true, "float": true, "decimal": true}

func keyOK(c idb.Col) bool {
	if !keyKinds[c.Kind] {
		return false
	}
	switch c.Kind {
	case "varchar", "char", "binary", "varbinary":
		return c.Len() <= 767
	}
	return true
}

// genTable draws a table definition; ids are filled in by the caller.
func genTable(t *rapid.T, o TabOpt, label string) idb.Table {
	if o.MaxCols == 0 {
		o.MinCols, o.MaxCols = 1, 8
	}
	if o.Keys == nil {
		o.Keys = []string{"primary", "primary", "primary", "none", "unique"}
	}
	if o.MaxKey == 0 {
		o.MaxKey = 3
	}
	tb := idb.Table{Schema: "test", Name: "t"}
	n := ints(t, o.MinCols, o.MaxCols, label+"Cols")
	used := map[string]bool{}
	rowMin := 0
	for i := 0; i < n; i++ {
		c := genCol(t, o.Kinds, fmt.Sprintf("%sc%d", label, i))
		if c.Kind == "char" || c.Kind == "binary" { // declared lengths that always count in full
			if rowMin+c.Len() > 5000 {
				c = idb.Col{Kind: "int", Size: 4}
			}
			rowMin += c.Len()
		}
		c.Name = genName(t, used, o.OddNames, fmt.Sprintf("%sn%d", label, i))
		c.Null = chance(t, o.NullPct, fmt.Sprintf("%snull%d", label, i))
		tb.Cols = append(tb.Cols, c)
	}
	own := len(tb.Cols)
	if o.Wide > 0 && chance(t, o.Wide, label+"Wide") {
		widen(t, &tb, o, label)
		if at := ints(t, 0, len(tb.Cols)-own, label+"WideAt"); at > 0 { // the drawn columns anywhere among them
			w := append([]idb.Col(nil), tb.Cols[own:]...)
			mine := append([]idb.Col(nil), tb.Cols[:own]...)
			tb.Cols = append(append(append([]idb.Col(nil), w[:at]...), mine...), w[at:]...)
		}
	}
	tb.Key = pick(t, o.Keys, label+"Key")
	if tb.Key != "none" {
		var ok []int
		for i, c := range tb.Cols {
			if keyOK(c) && (!isWide(c) || len(c.Name) > 2 && c.Name[2] == '1') {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 {
			c := idb.Col{Name: genName(t, used, false, label+"keyname"), Kind: "int", Size: 4, Unsigned: true}
			at := ints(t, 0, len(tb.Cols), label+"keyat")
			tb.Cols = append(tb.Cols[:at], append([]idb.Col{c}, tb.Cols[at:]...)...)
			ok = []int{at}
		}
		most := o.MaxKey
		if most > 1 && chance(t, 3, label+"ManyKeys") { // up to the 16 columns that InnoDB allows
			most = ints(t, 4, 16, label+"ManyKeysN")
			for i := len(ok); i < most; i++ {
				c := idb.Col{Name: fmt.Sprintf("%s1k%d", wideName, i), Kind: "int", Size: 1 + i%4, Unsigned: i%3 == 0}
				at := len(tb.Cols) - i%min(3, len(tb.Cols))
				tb.Cols = append(tb.Cols[:at], append([]idb.Col{c}, tb.Cols[at:]...)...)
				for j := range ok {
					if ok[j] >= at {
						ok[j]++
					}
				}
				ok = append(ok, at)
			}
		}
		k := ints(t, 1, min(len(ok), most), label+"KeyN")
		if most > o.MaxKey {
			k = min(len(ok), most)
		}
		perm := rapid.Permutation(ok).Draw(t, label+"KeyCols")
		total := 0
		for _, i := range perm[:k] {
			if total += tb.Cols[i].Len(); total > 3000 && len(tb.KeyCols) > 0 {
				break
			}
			tb.KeyCols = append(tb.KeyCols, i)
			tb.Cols[i].Null = false
		}
		if o.Prefix > 0 && chance(t, o.Prefix, label+"Prefix") {
			genPrefixes(t, &tb, label)
		}
		if tb.Key == "unique" {
			tb.KeyName = pick(t, []string{"uk", "a_key", "GEN", "primary_", "zz", "GEN_CLUST_INDEX_1", "A_GEN_CLUST_INDEX", "GEN_CLUST"}, label+"KeyName")
		}
	}
	if o.Sec && chance(t, 50, label+"Sec") {
		for i := ints(t, 1, 2, label+"NSec"); i > 0; i-- {
			j := ints(t, 0, len(tb.Cols)-1, label+"SecCol")
			s := idb.SecIdx{Name: fmt.Sprintf("ix%d", i), Cols: []int{j}, Unique: rapid.Bool().Draw(t, label+"SecU")}
			if k := ints(t, 0, len(tb.Cols)-1, label+"SecCol2"); k != j {
				s.Cols = append(s.Cols, k)
			}
			if s.Unique && tb.Key != "primary" { // would have been the clustered index
				s.Unique = false
			}
			if chance(t, 25, label+"SecPre") {
				for _, k := range s.Cols {
					s.Pre = append(s.Pre, genPrefix(t, tb.Cols[k], label+"Sec"))
				}
			}
			tb.Sec = append(tb.Sec, s)
		}
	}
	if o.Fts > 0 && chance(t, o.Fts, label+"Fts") {
		c := idb.Col{Name: "FTS_DOC_ID", Kind: "int", Size: 8, Unsigned: true}
		if c.Hidden = chance(t, 70, label+"FtsHidden"); c.Hidden {
			tb.Cols = append(tb.Cols, c)
		} else { // one the user declared
			at := ints(t, 0, len(tb.Cols), label+"FtsAt")
			tb.Cols = append(tb.Cols[:at], append([]idb.Col{c}, tb.Cols[at:]...)...)
			move := func(xs []int) {
				for i := range xs {
					if xs[i] >= at {
						xs[i]++
					}
				}
			}
			move(tb.KeyCols)
			for i := range tb.Sec {
				move(tb.Sec[i].Cols)
			}
		}
	}
	switch o.Redundant {
	case 1:
		tb.Redundant = true
	case 2:
		tb.Redundant = chance(t, 35, label+"Redundant")
	}
	return tb
}

// genPrefix draws the length of a prefix of the column in bytes, 0 for none.
func genPrefix(t *rapid.T, c idb.Col, label string) int {
	chars := c.Size
	switch c.Kind {
	case "text", "blob":
		chars = 256
	case "char", "varchar", "binary", "varbinary":
	default:
		return 0
	}
	if chars < 2 || !c.UTF8() && c.Mbmax() > 1 {
		return 0
	}
	return ints(t, 1, min(chars-1, 700/c.Mbmax()), label+"Pre") * c.Mbmax()
}

// genPrefixes makes the primary key use prefixes of columns.
func genPrefixes(t *rapid.T, tb *idb.Table, label string) {
	tb.KeyPre = make([]int, len(tb.KeyCols))
	total, any := 0, false
	for i, k := range tb.KeyCols {
		if chance(t, 70, label+"PreCol") {
			tb.KeyPre[i] = genPrefix(t, tb.Cols[k], label)
		}
		any = any || tb.KeyPre[i] > 0
	}
	inKey := map[int]bool{}
	for i, k := range tb.KeyCols {
		inKey[k] = true
		total += tb.Cols[k].Len()
		_ = i
	}
	for k, c := range tb.Cols { // columns that can be in a key with a prefix only
		if inKey[k] || len(tb.KeyCols) >= 4 || total > 1500 || (c.Kind != "text" && c.Kind != "blob") || !chance(t, 60, label+"PreBlob") {
			continue
		}
		if n := genPrefix(t, c, label); n > 0 {
			at := ints(t, 0, len(tb.KeyCols), label+"PreAt")
			tb.KeyCols = append(tb.KeyCols[:at], append([]int{k}, tb.KeyCols[at:]...)...)
			tb.KeyPre = append(tb.KeyPre[:at], append([]int{n}, tb.KeyPre[at:]...)...)
			tb.Cols[k].Null = false
			total += n
			any = true
		}
	}
	if !any {
		tb.KeyPre = nil
	}
}

// genRow draws the values of a row that fits a page.
func genRow(t *rapid.T, tb *idb.Table, nullPct int, label string) []idb.Val {
	budget := 7000
	for _, n := range tb.KeyPre {
		budget -= n
	}
	for _, c := range tb.Cols {
		if isWide(c) {
			budget -= min(c.Len(), 8)
		} else if c.Fixed(tb.Redundant) > 0 || c.Kind == "char" || c.Kind == "binary" {
			budget -= c.Len()
		}
	}
	vals := make([]idb.Val, len(tb.Cols))
	var cheap *idb.Rng
	for i, c := range tb.Cols {
		l := fmt.Sprintf("%s.%d", label, i)
		if isWide(c) {
			if cheap == nil {
				r := idb.Rng(seed(t, label+"WideVals"))
				cheap = &r
			}
			if c.Null && cheap.Intn(100) < nullPct {
				vals[i] = idb.Val{Nul: true}
			} else {
				vals[i] = cheapVal(c, cheap)
			}
			continue
		}
		if c.Null && chance(t, nullPct, l+"Null") {
			vals[i] = idb.Val{Nul: true}
			continue
		}
		v := genVal(t, c, budget, l)
		if c.Fixed(tb.Redundant) == 0 && c.Kind != "char" {
			budget -= len(v.B)
		}
		vals[i] = v
	}
	return vals
}

// setIDs numbers tables and indexes.
func setIDs(tabs []idb.Table, base uint64) {
	id, ix := base, base*2+1
	for i := range tabs {
		t := &tabs[i]
		t.ID = id + uint64(i)*3
		t.Space = uint32(5+i) + uint32(map[uint64]int64{126: 250, 16380: 65530, 1 << 21: 0xfffff0, 1 << 28: 0x7ffffff0, 1 << 32: 0xffff0000, 20: 1 << 16}[base])
		t.ClustID = ix
		ix++
		for j := range t.Sec {
			t.Sec[j].ID = ix
			ix++
		}
	}
}

func genLayout(t *rapid.T, rich bool) idb.DictLayout {
	l := idb.DictLayout{Seed: seed(t, "layoutSeed")}
	if !rich {
		l.V57 = rapid.Bool().Draw(t, "v57")
		if chance(t, 20, "renamed") {
			l.Renames = ints(t, 1, 4, "renames")
		}
		return l
	}
	for i := range l.PerPage {
		if chance(t, 50, "split") {
			l.PerPage[i] = ints(t, 1, 8, "perPage")
		}
	}
	if chance(t, 30, "deep") {
		l.Fan = ints(t, 2, 6, "fan")
	}
	l.Shuffle = rapid.Bool().Draw(t, "shuffle")
	l.Heap = rapid.Bool().Draw(t, "heap")
	l.Ghosts = ints(t, 0, 4, "ghosts")
	l.Noise = ints(t, 0, 4, "noise")
	if chance(t, 50, "renamed") {
		l.Renames = ints(t, 1, 4, "renames")
	}
	l.Extras = rapid.Bool().Draw(t, "extras")
	l.V57 = rapid.Bool().Draw(t, "v57")
	if chance(t, 40, "dblwr") {
		l.Dblwr = ints(t, 0, 5, "dblwrN")
		l.DblLow = ints(t, 0, 3, "dblLow")
	}
	return l
}
