// Package idb encodes InnoDB (MySQL 5.6/5.7) structures: column values,
// COMPACT and REDUNDANT records, index pages, the data dictionary in the
// system tablespace, and redo logs. It is written from the MySQL formats and
// shares no code with the decoder under test.
package idb

import (
	"encoding/binary"
	"fmt"
	"math"
)

// Col is a column of a table.
type Col struct {
	Name     string `json:"name"`
	Kind     string `json:"kind"` // int float double year date time timestamp datetime bit enum set decimal char varchar text binary varbinary blob
	Size     int    `json:"size,omitempty"`
	Unsigned bool   `json:"unsigned,omitempty"`
	Null     bool   `json:"nullable,omitempty"`
	CS       int    `json:"cs,omitempty"`     // collation id: 8 latin1_swedish_ci, 33 utf8, 45 utf8mb4
	Hidden   bool   `json:"hidden,omitempty"` // the FTS_DOC_ID column InnoDB adds to tables with a FULLTEXT index
}

// Fsp is the number of decimal places of a temporal column.
func (c Col) Fsp() int {
	switch c.Kind {
	case "time", "datetime", "timestamp":
		return c.Size
	}
	return 0
}

// FracBytes is the size of the fractional seconds.
func (c Col) FracBytes() int { return (c.Fsp() + 1) / 2 }

// frac is what is stored of the microseconds.
func (c Col) frac(us uint64) uint64 {
	for i := c.FracBytes(); i < 3; i++ {
		us /= 100
	}
	return us
}

// Val is a logical value. A time with decimal places counts microseconds
// instead of seconds. N holds numbers (two's complement for signed ones,
// IEEE bits for floating point, see Encode for temporals), B bytes.
type Val struct {
	Nul bool   `json:"null,omitempty"`
	N   uint64 `json:"n,omitempty"`
	F   uint32 `json:"f,omitempty"` // microseconds of a datetime or timestamp
	B   []byte `json:"b,omitempty"`
}

// InnoDB main types and MySQL types.
const (
	mtVarchar   = 1
	mtChar      = 2
	mtFixBinary = 3
	mtBinary    = 4
	mtBlob      = 5
	mtInt       = 6
	mtFloat     = 9
	mtDouble    = 10
	mtVarMySQL  = 12
	mtMySQL     = 13

	prNotNull     = 256
	prUnsigned    = 512
	prBinary      = 1024
	prLongVarchar = 4096
)

// Mbmax is the maximal number of bytes per character.
func (c Col) Mbmax() int {
	switch cs := c.CS; {
	case cs >= 192 && cs <= 223:
		return 3
	case cs >= 224 && cs <= 247:
		return 4
	}
	switch c.CS {
	case 33, 76, 83, 12, 91, 97, 98:
		return 3
	case 45, 46, 248, 249, 250:
		return 4
	case 1, 84, 13, 88, 19, 85, 24, 86, 28, 87, 95, 96:
		return 2
	}
	return 1
}

// UTF8 tells whether texts of the column are UTF-8.
func (c Col) UTF8() bool {
	switch cs := c.CS; {
	case cs == 33, cs == 76, cs == 83, cs == 45, cs == 46, cs >= 192 && cs <= 247:
		return true
	}
	return false
}

// CharSets are the collations columns are drawn from: one and several bytes
// per character, the first three are the common ones.
var CharSets = []int{8, 33, 45, 47, 48, 5, 11, 65, 51, 7, 94, 15, 26, 41, 83, 192, 215, 223, 46, 224, 230, 247, 28, 87, 24, 86, 1, 84, 13, 88, 95, 96, 12, 91, 97, 98, 19, 85, 248, 250,
	249, 76, 3, 4, 6, 9, 10, 14, 16, 18, 20, 21, 22, 23, 25, 27, 29, 30, 31, 32, 34, 36, 37, 38, 39, 40, 42, 43, 44, 49, 50, 52, 53, 57, 58, 59,
	64, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 77, 78, 79, 80, 81, 82, 89, 92, 93, 99, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203,
	204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 225, 226, 227, 228, 229, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242,
	243, 244, 245, 246}

// MType is the InnoDB main type.
func (c Col) MType() uint32 {
	switch c.Kind {
	case "int", "year", "date", "enum", "set", "otime", "odatetime", "otimestamp":
		return mtInt
	case "float":
		return mtFloat
	case "double":
		return mtDouble
	case "time", "timestamp", "datetime", "bit", "binary", "decimal":
		return mtFixBinary
	case "char":
		if c.CS == 8 {
			return mtChar
		}
		return mtMySQL
	case "varchar":
		if c.CS == 8 {
			return mtVarchar
		}
		return mtVarMySQL
	case "varbinary":
		return mtBinary
	case "text", "blob":
		return mtBlob
	}
	panic("kind " + c.Kind)
}

// Len is SYS_COLUMNS.LEN.
func (c Col) Len() int {
	switch c.Kind {
	case "int", "enum", "set", "decimal":
		return c.Size
	case "float", "otimestamp":
		return 4
	case "timestamp":
		return 4 + c.FracBytes()
	case "double", "odatetime":
		return 8
	case "year":
		return 1
	case "date", "otime":
		return 3
	case "time":
		return 3 + c.FracBytes()
	case "datetime":
		return 5 + c.FracBytes()
	case "bit":
		return (c.Size + 7) / 8
	case "char", "varchar":
		return c.Size * c.Mbmax()
	case "binary", "varbinary":
		return c.Size
	case "text", "blob":
		return c.Size + 8
	}
	panic("kind " + c.Kind)
}

// PrType is SYS_COLUMNS.PRTYPE.
func (c Col) PrType() uint32 {
	var my, fl uint32
	cs := uint32(63)
	switch c.Kind {
	case "int":
		my = map[int]uint32{1: 1, 2: 2, 3: 9, 4: 3, 8: 8}[c.Size]
		fl = prBinary
		if c.Unsigned {
			fl |= prUnsigned
		}
	case "float":
		my, fl = 4, prBinary
	case "double":
		my, fl = 5, prBinary
	case "year":
		my, fl = 13, prBinary|prUnsigned
	case "date":
		my, fl = 10, prBinary
	case "time", "otime":
		my, fl = 11, prBinary
	case "timestamp":
		my, fl = 7, prBinary
	case "otimestamp":
		my, fl = 7, prBinary|prUnsigned
	case "datetime", "odatetime":
		my, fl = 12, prBinary
	case "bit":
		my, fl = 16, prBinary|prUnsigned
	case "decimal":
		my, fl = 246, prBinary
	case "enum", "set":
		my, fl = 254, prUnsigned
	case "char":
		my, cs = 254, uint32(c.CS)
	case "binary":
		my, fl = 254, prBinary
	case "varchar", "varbinary":
		my, cs = 15, uint32(c.CS)
		if c.Kind == "varbinary" {
			fl, cs = prBinary, 63
		}
		if c.Size*c.Mbmax() > 255 {
			fl |= prLongVarchar
		}
	case "text":
		my, cs = 252, uint32(c.CS)
	case "blob":
		my, fl = 252, prBinary
	}
	if c.Hidden {
		my = 3
	}
	if !c.Null {
		fl |= prNotNull
	}
	switch c.MType() { // only string types carry a collation
	case mtInt, mtFloat, mtDouble:
		cs = 0
	}
	return my | fl | cs<<16
}

// Fixed is the stored size of a fixed-length column, 0 for variable ones.
func (c Col) Fixed(redundant bool) int {
	switch c.MType() {
	case mtVarchar, mtBinary, mtBlob, mtVarMySQL:
		return 0
	case mtMySQL:
		if redundant || c.Mbmax() == 1 {
			return c.Len()
		}
		return 0 // characters of different sizes
	}
	return c.Len()
}

// Big says that a length above 127 takes two bytes in COMPACT.
func (c Col) Big() bool { return c.MType() == mtBlob || c.Len() > 255 }

// Encode gives the stored bytes of a non-NULL value.
func (c Col) Encode(v Val, redundant bool) []byte {
	be := func(n uint64, size int) []byte {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, n)
		return b[8-size:]
	}
	switch c.Kind {
	case "int":
		if !c.Unsigned {
			return be(v.N^1<<(uint(c.Size)*8-1), c.Size)
		}
		return be(v.N, c.Size)
	case "float":
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, uint32(v.N))
		return b
	case "double":
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, v.N)
		return b
	case "year":
		if v.N == 0 {
			return []byte{0}
		}
		return []byte{byte(v.N - 1900)}
	case "date":
		y, m, d := v.N/10000, v.N/100%100, v.N%100
		return be((y*16*32+m*32+d)|1<<23, 3)
	case "time":
		s, us := int64(v.N), int64(0)
		neg := s < 0
		if neg {
			s = -s
		}
		if c.Fsp() > 0 {
			s, us = s/1000000, s%1000000
		}
		bits := uint(8 * c.FracBytes())
		p := (s/3600<<12|s/60%60<<6|s%60)<<bits | int64(c.frac(uint64(us)))
		if neg {
			p = -p
		}
		return be(uint64(p+0x800000<<bits), c.Len())
	case "otime": // a number, HHMMSS
		s := int64(v.N)
		neg := s < 0
		if neg {
			s = -s
		}
		p := s/3600*10000 + s/60%60*100 + s%60
		if neg {
			p = -p
		}
		return be(uint64(p)^0x800000, 3)
	case "timestamp":
		return append(be(v.N, 4), be(c.frac(uint64(v.F)), c.FracBytes())...)
	case "otimestamp":
		return be(v.N, 4)
	case "odatetime": // a number, YYYYMMDDHHMMSS
		return be(v.N^1<<63, 8)
	case "datetime":
		n := v.N
		sec, n := n%100, n/100
		min, n := n%100, n/100
		hour, n := n%100, n/100
		day, n := n%100, n/100
		mon, n := n%100, n/100
		ymd := (n*13+mon)<<5 | day
		hms := hour<<12 | min<<6 | sec
		return append(be((ymd<<17|hms)+0x8000000000, 5), be(c.frac(uint64(v.F)), c.FracBytes())...)
	case "bit":
		return be(v.N, c.Len())
	case "enum", "set":
		return be(v.N, c.Size)
	case "char":
		b := append([]byte(nil), v.B...)
		min := c.Size // compact multi-byte: at least n bytes
		if redundant {
			min = c.Len()
		}
		for len(b) < min {
			b = append(b, ' ')
		}
		return b
	case "binary":
		b := append([]byte(nil), v.B...)
		for len(b) < c.Size {
			b = append(b, 0)
		}
		return b
	}
	return append([]byte(nil), v.B...)
}

// Show renders a value for humans (samples, messages).
func (c Col) Show(v Val) string {
	if v.Nul {
		return "NULL"
	}
	switch c.Kind {
	case "int":
		if c.Unsigned {
			return fmt.Sprint(v.N)
		}
		return fmt.Sprint(int64(v.N))
	case "float":
		return fmt.Sprint(math.Float32frombits(uint32(v.N)))
	case "double":
		return fmt.Sprint(math.Float64frombits(v.N))
	case "time":
		if c.Fsp() > 0 {
			return fmt.Sprintf("%dus", int64(v.N))
		}
		return fmt.Sprintf("%ds", int64(v.N))
	case "otime":
		return fmt.Sprintf("%ds", int64(v.N))
	case "datetime", "timestamp":
		if c.Fsp() > 0 {
			return fmt.Sprintf("%d.%06d", v.N, v.F)
		}
	case "char", "varchar", "text", "binary", "varbinary", "blob", "decimal":
		if len(v.B) > 48 {
			return fmt.Sprintf("%q...(%d bytes)", v.B[:40], len(v.B))
		}
		return fmt.Sprintf("%q", v.B)
	}
	return fmt.Sprint(v.N)
}

// TypeName renders the column type.
func (c Col) TypeName() string {
	s := c.Kind
	if c.Size != 0 {
		s += fmt.Sprintf("(%d)", c.Size)
	}
	if c.Unsigned {
		s += " unsigned"
	}
	if c.CS != 0 {
		s += fmt.Sprintf(" cs%d", c.CS)
	}
	if !c.Null {
		s += " not null"
	}
	return s
}

// SecIdx is a secondary index.
type SecIdx struct {
	ID     uint64 `json:"id"`
	Name   string `json:"name"`
	Unique bool   `json:"unique,omitempty"`
	Cols   []int  `json:"cols"`
	Pre    []int  `json:"pre,omitempty"` // prefix lengths in bytes, 0: whole column
}

// Table is a table definition.
type Table struct {
	ID        uint64   `json:"id"`
	Space     uint32   `json:"space"`
	Schema    string   `json:"schema"`
	Name      string   `json:"name"`
	Cols      []Col    `json:"cols"`
	Key       string   `json:"key"` // primary | unique | none
	KeyName   string   `json:"keyname,omitempty"`
	KeyCols   []int    `json:"keycols,omitempty"`
	KeyPre    []int    `json:"keypre,omitempty"` // prefix lengths in bytes, 0: whole column
	ClustID   uint64   `json:"clust"`
	Sec       []SecIdx `json:"sec,omitempty"`
	Redundant bool     `json:"redundant,omitempty"`
}

// IdxName is the name of the clustered index.
func (t *Table) IdxName() string {
	switch t.Key {
	case "primary":
		return "PRIMARY"
	case "unique":
		return t.KeyName
	}
	return "GEN_CLUST_INDEX"
}

// Prefix is the length of the prefix of the k-th key column in bytes, or 0.
func (t *Table) Prefix(k int) int {
	if k < len(t.KeyPre) {
		return t.KeyPre[k]
	}
	return 0
}

// CutPrefix cuts stored bytes to a prefix of so many bytes at most.
func (c Col) CutPrefix(b []byte, n int) []byte {
	if c.UTF8() && (c.Kind == "char" || c.Kind == "varchar" || c.Kind == "text") { // counts characters
		chars, at := n/c.Mbmax(), 0
		for at < len(b) && chars > 0 {
			at++
			for at < len(b) && b[at]&0xc0 == 0x80 {
				at++
			}
			chars--
		}
		return b[:at]
	}
	if len(b) > n {
		return b[:n]
	}
	return b
}

// KeyField is the k-th field of the clustered index: the stored bytes and
// whether their length is fixed in COMPACT.
func (t *Table) KeyField(k int, v Val) (b []byte, fixed bool) {
	c := t.Cols[t.KeyCols[k]]
	b = c.Encode(v, t.Redundant)
	if n := t.Prefix(k); n > 0 {
		b = c.CutPrefix(b, n)
	}
	return b, c.Fixed(false) > 0
}

// Phys is the clustered-index field order: >=0 a column, -1 ROW_ID, -2 TRX_ID,
// -3 ROLL_PTR, -10-k the prefix of the k-th key column.
func (t *Table) Phys() []int {
	var out []int
	inKey := map[int]bool{}
	if t.Key == "none" {
		out = append(out, -1)
	} else {
		for i, k := range t.KeyCols {
			if t.Prefix(i) > 0 {
				out = append(out, -10-i)
				continue
			}
			out = append(out, k)
			inKey[k] = true
		}
	}
	out = append(out, -2, -3)
	for i := range t.Cols {
		if !inKey[i] {
			out = append(out, i)
		}
	}
	return out
}

// Sys are the system columns of a row.
type Sys struct {
	RowID uint64 `json:"rowid,omitempty"`
	Trx   uint64 `json:"trx,omitempty"`
	Roll  uint64 `json:"roll,omitempty"`
}

func beN(n uint64, size int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, n)
	return b[8-size:]
}

// RField is one field of a record.
type RField struct {
	Data    []byte
	Null    bool
	NullLen int // bytes a NULL occupies (REDUNDANT fixed-length)
}

// EncOld lays out a REDUNDANT record: the field end offsets (stored before
// the header, in memory order) and the data.
func EncOld(fs []RField) (extra, data []byte, short bool) {
	ends := make([]int, len(fs))
	for i, f := range fs {
		if f.Null {
			data = append(data, make([]byte, f.NullLen)...)
		} else {
			data = append(data, f.Data...)
		}
		ends[i] = len(data)
	}
	short = len(data) <= 127
	for i := len(fs) - 1; i >= 0; i-- {
		if short {
			e := byte(ends[i])
			if fs[i].Null {
				e |= 0x80
			}
			extra = append(extra, e)
		} else {
			e := uint16(ends[i])
			if fs[i].Null {
				e |= 0x8000
			}
			extra = append(extra, byte(e>>8), byte(e))
		}
	}
	return
}

// Rec is an encoded record without its header.
type Rec struct {
	Extra   []byte // what precedes the header
	Data    []byte
	NFields int
	Short   bool
}

// Size is the number of bytes the record takes on the page.
func (r Rec) Size(redundant bool) int {
	if redundant {
		return len(r.Extra) + 6 + len(r.Data)
	}
	return len(r.Extra) + 5 + len(r.Data)
}

// Encode lays out a clustered leaf record.
func (t *Table) Encode(vals []Val, sys Sys) Rec {
	phys := t.Phys()
	if t.Redundant {
		var fs []RField
		for _, p := range phys {
			switch p {
			case -1:
				fs = append(fs, RField{Data: beN(sys.RowID, 6)})
			case -2:
				fs = append(fs, RField{Data: beN(sys.Trx, 6)})
			case -3:
				fs = append(fs, RField{Data: beN(sys.Roll, 7)})
			default:
				if p <= -10 {
					b, _ := t.KeyField(-10-p, vals[t.KeyCols[-10-p]])
					fs = append(fs, RField{Data: b})
					continue
				}
				c := t.Cols[p]
				if vals[p].Nul {
					fs = append(fs, RField{Null: true, NullLen: c.Fixed(true)})
				} else {
					fs = append(fs, RField{Data: c.Encode(vals[p], true)})
				}
			}
		}
		e, d, s := EncOld(fs)
		return Rec{Extra: e, Data: d, NFields: len(fs), Short: s}
	}
	var lens, data []byte
	nNull := 0
	for _, c := range t.Cols {
		if c.Null {
			nNull++
		}
	}
	nulls := make([]byte, (nNull+7)/8)
	bit := 0
	for _, p := range phys {
		switch p {
		case -1:
			data = append(data, beN(sys.RowID, 6)...)
			continue
		case -2:
			data = append(data, beN(sys.Trx, 6)...)
			continue
		case -3:
			data = append(data, beN(sys.Roll, 7)...)
			continue
		}
		pre := 0
		if p <= -10 {
			pre = t.Prefix(-10 - p)
			p = t.KeyCols[-10-p]
		}
		c := t.Cols[p]
		if c.Null {
			if vals[p].Nul {
				nulls[bit/8] |= 1 << (uint(bit) % 8)
			}
			bit++
		}
		if vals[p].Nul {
			continue
		}
		b := c.Encode(vals[p], false)
		if pre > 0 {
			b = c.CutPrefix(b, pre)
		}
		if c.Fixed(false) == 0 {
			if len(b) > 127 && c.Big() {
				lens = append(lens, byte(len(b)>>8)|0x80, byte(len(b)))
			} else {
				lens = append(lens, byte(len(b)))
			}
		}
		data = append(data, b...)
	}
	var extra []byte
	for i := len(lens) - 1; i >= 0; i-- {
		extra = append(extra, lens[i])
	}
	for i := len(nulls) - 1; i >= 0; i-- {
		extra = append(extra, nulls[i])
	}
	return Rec{Extra: extra, Data: data, NFields: len(phys)}
}
