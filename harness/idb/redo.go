package idb

import "hash/crc32"

// Comp writes InnoDB's compressed 32-bit form.
func Comp(n uint32) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x4000:
		return beN(uint64(n|0x8000), 2)
	case n < 0x200000:
		return beN(uint64(n|0xC00000), 3)
	case n < 0x10000000:
		return beN(uint64(n|0xE0000000), 4)
	}
	return append([]byte{0xF0}, beN(uint64(n), 4)...)
}

// Comp57 is the form MySQL 5.7 writes, shorter for values near 2^32 such as
// the NULL length.
func Comp57(n uint32) []byte {
	switch {
	case n < 0x10000000:
		return Comp(n)
	case n >= 0xFFFFFC00:
		return beN(uint64(n&0x3FF|0xF800), 2)
	case n >= 0xFFFE0000:
		return beN(uint64(n&0x1FFFF|0xFC0000), 3)
	case n >= 0xFF000000:
		return beN(uint64(n&0xFFFFFF|0xFE000000), 4)
	}
	return Comp(n)
}

// Comp64 is mach_u64_write_compressed.
func Comp64(n uint64) []byte {
	return append(Comp(uint32(n>>32)), beN(n&0xffffffff, 4)...)
}

// Much64 is mach_u64_write_much_compressed.
func Much64(n uint64) []byte {
	if n>>32 == 0 {
		return Comp(uint32(n))
	}
	return append(append([]byte{0xFF}, Comp(uint32(n>>32))...), Comp(uint32(n))...)
}

// Comp64v57 and Much64v57 are the forms of MySQL 5.7.
func Comp64v57(n uint64) []byte {
	return append(Comp57(uint32(n>>32)), beN(n&0xffffffff, 4)...)
}

// Much64v57 is the much compressed form.
func Much64v57(n uint64) []byte {
	if n>>32 == 0 {
		return Comp57(uint32(n))
	}
	return append(append([]byte{0xFF}, Comp57(uint32(n>>32))...), Comp57(uint32(n))...)
}

// Log record types (mtr0types.h).
const (
	Mlog1, Mlog2, Mlog4, Mlog8             = 1, 2, 4, 8
	MlogInsert, MlogClustMark, MlogSecMark = 9, 10, 11
	MlogUpdInPlace, MlogDelete             = 13, 14
	MlogListEndDel, MlogListStartDel       = 15, 16
	MlogListCopy, MlogReorg, MlogCreate    = 17, 18, 19
	MlogUndoInsert, MlogUndoErase          = 20, 21
	MlogUndoInit, MlogUndoDiscard          = 22, 23
	MlogUndoReuse, MlogUndoCreate          = 24, 25
	MlogMinMark, MlogIbufBmp               = 26, 27
	MlogInitPage, MlogString               = 29, 30
	MlogMultiEnd, MlogDummy                = 31, 32
	MlogFileCreate, MlogFileRename         = 33, 34
	MlogFileDelete, MlogCompMinMark        = 35, 36
	MlogCompCreate, MlogCompInsert         = 37, 38
	MlogCompClustMark, MlogCompSecMark     = 39, 40
	MlogCompUpd, MlogCompDelete            = 41, 42
	MlogCompListEndDel, MlogCompListStart  = 43, 44
	MlogCompListCopy, MlogCompReorg        = 45, 46
	MlogFileCreate2, MlogZipNodePtr        = 47, 48
	MlogZipBlobPtr, MlogZipHeader          = 49, 50
	MlogZipCompress, MlogZipCompressND     = 51, 52
	MlogZipReorg, MlogFileRename2          = 53, 54
	MlogFileName, MlogCheckpoint           = 55, 56
	MlogCreateRtree, MlogCompCreateRtree   = 57, 58
	MlogInitPage2, MlogTruncate            = 59, 60
	MlogIndexLoad                          = 61
)

// MlogTypes are all the record types other than UNDO_INSERT that the
// generator makes, with a name.
var MlogTypes = []struct {
	T    int
	Name string
}{
	{1, "1BYTE"}, {2, "2BYTES"}, {4, "4BYTES"}, {8, "8BYTES"}, {9, "REC_INSERT"}, {10, "REC_CLUST_DELETE_MARK"},
	{11, "REC_SEC_DELETE_MARK"}, {13, "REC_UPDATE_IN_PLACE"}, {14, "REC_DELETE"}, {15, "LIST_END_DELETE"},
	{16, "LIST_START_DELETE"}, {17, "LIST_END_COPY_CREATED"}, {18, "PAGE_REORGANIZE"}, {19, "PAGE_CREATE"},
	{21, "UNDO_ERASE_END"}, {22, "UNDO_INIT"}, {23, "UNDO_HDR_DISCARD"}, {24, "UNDO_HDR_REUSE"}, {25, "UNDO_HDR_CREATE"},
	{26, "REC_MIN_MARK"}, {27, "IBUF_BITMAP_INIT"}, {29, "INIT_FILE_PAGE"}, {30, "WRITE_STRING"}, {31, "MULTI_REC_END"},
	{32, "DUMMY_RECORD"}, {33, "FILE_CREATE"}, {34, "FILE_RENAME"}, {35, "FILE_DELETE"}, {36, "COMP_REC_MIN_MARK"},
	{37, "COMP_PAGE_CREATE"}, {38, "COMP_REC_INSERT"}, {39, "COMP_REC_CLUST_DELETE_MARK"}, {40, "COMP_REC_SEC_DELETE_MARK"},
	{41, "COMP_REC_UPDATE_IN_PLACE"}, {42, "COMP_REC_DELETE"}, {43, "COMP_LIST_END_DELETE"}, {44, "COMP_LIST_START_DELETE"},
	{45, "COMP_LIST_END_COPY_CREATED"}, {46, "COMP_PAGE_REORGANIZE"}, {47, "FILE_CREATE2"}, {48, "ZIP_WRITE_NODE_PTR"},
	{49, "ZIP_WRITE_BLOB_PTR"}, {50, "ZIP_WRITE_HEADER"}, {51, "ZIP_PAGE_COMPRESS"}, {52, "ZIP_PAGE_COMPRESS_NO_DATA"},
	{53, "ZIP_PAGE_REORGANIZE"}, {54, "FILE_RENAME2"}, {55, "FILE_NAME"}, {56, "CHECKPOINT"}, {57, "PAGE_CREATE_RTREE"},
	{58, "COMP_PAGE_CREATE_RTREE"}, {59, "INIT_FILE_PAGE2"}, {60, "TRUNCATE"}, {61, "INDEX_LOAD"},
}

// MlogName gives the name of a type.
func MlogName(t int) string {
	if t == MlogUndoInsert {
		return "UNDO_INSERT"
	}
	for _, m := range MlogTypes {
		if m.T == t {
			return m.Name
		}
	}
	return "?"
}

// externLen marks the length of a value that is stored on other pages
// (UNIV_EXTERN_STORAGE_FIELD).
const externLen = 0xFFFFFFFF - 16384

// UpdField is an entry of an update vector: the old value of a column.
type UpdField struct {
	Col int `json:"col"`
	Val Val `json:"val"`
	// Ext says that the value is stored on other pages: Val.B, what lies in
	// the record, is a prefix of it and a reference. 1: with the marked
	// length, 2: with the length in the row, Orig, and the logged one.
	Ext  int    `json:"ext,omitempty"`
	Orig uint32 `json:"orig,omitempty"`
}

// Undo is an undo log record.
type Undo struct {
	Type    int        `json:"type"`           // 11 insert, 12 update, 13 update of deleted, 14 delete mark
	Cmpl    int        `json:"cmpl,omitempty"` // compilation info 0..7
	Extern  bool       `json:"extern,omitempty"`
	UndoNo  uint64     `json:"undono"`
	Table   int        `json:"table"`             // index into the case's tables, -1: TableID is unknown to the dictionary
	TableID uint64     `json:"tableid,omitempty"` // only for Table == -1
	Info    byte       `json:"info,omitempty"`
	Trx     uint64     `json:"trx,omitempty"`
	Roll    uint64     `json:"roll,omitempty"`
	RowID   uint64     `json:"rowid,omitempty"`
	Key     []Val      `json:"key,omitempty"`
	Upd     []UpdField `json:"upd,omitempty"`
	Null57  bool       `json:"null57,omitempty"` // NULL length in the 5.7 short form
	Ord     []UpdField `json:"ord,omitempty"`    // ordering-field section after the vector
	Raw     []byte     `json:"raw,omitempty"`    // body for Table == -1 after the ids
}

// Body is the logged undo record.
func (u *Undo) Body(tabs []Table) []byte {
	ty := u.Type | u.Cmpl<<4
	if u.Extern {
		ty |= 128
	}
	b := []byte{byte(ty)}
	b = append(b, Much64(u.UndoNo)...)
	if u.Table < 0 {
		b = append(b, Much64(u.TableID)...)
		return append(b, u.Raw...)
	}
	t := &tabs[u.Table]
	b = append(b, Much64(t.ID)...)
	if u.Type != 11 {
		b = append(b, u.Info)
		b = append(b, Comp64(u.Trx)...)
		b = append(b, Comp64(u.Roll)...)
	}
	if t.Key == "none" {
		b = append(b, 6)
		b = append(b, beN(u.RowID, 6)...)
	} else {
		for i := range t.KeyCols {
			e, _ := t.KeyField(i, u.Key[i])
			b = append(b, Comp(uint32(len(e)))...)
			b = append(b, e...)
		}
	}
	length := Comp
	if u.Null57 {
		length = Comp57
	}
	field := func(f UpdField) {
		c := t.Cols[f.Col]
		for i, p := range t.Phys() {
			if p == f.Col {
				b = append(b, Comp(uint32(i))...)
			}
		}
		switch {
		case f.Val.Nul:
			b = append(b, length(0xFFFFFFFF)...)
			return
		case f.Ext == 1:
			b = append(b, length(externLen+uint32(len(f.Val.B)))...)
			b = append(b, f.Val.B...)
			return
		case f.Ext == 2:
			b = append(b, length(externLen)...)
			b = append(b, Comp(f.Orig)...)
			b = append(b, Comp(uint32(len(f.Val.B)))...)
			b = append(b, f.Val.B...)
			return
		}
		e := c.Encode(f.Val, t.Redundant)
		b = append(b, Comp(uint32(len(e)))...)
		b = append(b, e...)
	}
	if u.Type == 12 || u.Type == 13 {
		b = append(b, Comp(uint32(len(u.Upd)))...)
		for _, f := range u.Upd {
			field(f)
		}
	}
	if len(u.Ord) > 0 {
		at := len(b)
		b = append(b, 0, 0)
		for _, f := range u.Ord {
			field(f)
		}
		put2(b[at:], len(b)-at)
	}
	return b
}

// LogRec is a redo log record. What the parameters mean depends on T.
type LogRec struct {
	T      int    `json:"t"`
	Single bool   `json:"single,omitempty"`
	Space  uint32 `json:"space,omitempty"`
	Page   uint32 `json:"page,omitempty"`
	Seed   uint64 `json:"seed,omitempty"` // parameters of other records are expanded from it
	N      int    `json:"n,omitempty"`    // size of variable parts
	V57    bool   `json:"v57,omitempty"`  // numbers in the short forms of MySQL 5.7
	Undo   *Undo  `json:"undo,omitempty"`
}

// Bytes encodes the record.
func (l *LogRec) Bytes(tabs []Table) []byte {
	ty := byte(l.T)
	if l.T == MlogMultiEnd || l.T == MlogDummy {
		return []byte{ty}
	}
	if l.Single && l.T != MlogCheckpoint {
		ty |= 0x80
	}
	b := []byte{ty}
	r := Rng(l.Seed)
	Comp := Comp
	Comp64 := Comp64
	if l.V57 {
		Comp, Comp64 = Comp57, Comp64v57
	}
	// numbers of all encoded lengths, those near 2^32 included
	num := func() uint32 {
		v := uint32(r.Next()) >> (r.Next() % 32)
		if r.Intn(3) == 0 {
			v = ^v
		}
		return v
	}
	raw := func(n int) {
		x := make([]byte, n)
		r.Bytes(x)
		b = append(b, x...)
	}
	c32 := func() {
		b = append(b, Comp(num())...)
	}
	c64 := func() {
		hi := uint64(num())
		if r.Intn(2) == 0 {
			hi = 0
		}
		b = append(b, Comp64(hi<<32|uint64(num()))...)
	}
	off := func() { b = append(b, beN(uint64(r.Intn(16384)), 2)...) }
	index := func() {
		n := 2 + r.Intn(6)
		if r.Intn(6) == 0 {
			n += r.Intn(40)
			if r.Intn(4) == 0 { // a wide index
				n += r.Intn(1000)
			}
		}
		b = append(b, beN(uint64(n), 2)...)
		b = append(b, beN(uint64(1+r.Intn(n)), 2)...)
		for i := 0; i < n; i++ {
			v := uint64(r.Next() & 0x7fff)
			if r.Intn(2) == 0 {
				v |= 0x8000
			}
			b = append(b, beN(v, 2)...)
		}
	}
	sysVals := func() {
		b = append(b, Comp(uint32(r.Intn(20)))...)
		raw(7)
		c64()
	}
	insert := func(short bool, n int) {
		if !short {
			off()
		}
		if r.Intn(2) == 0 {
			b = append(b, Comp(uint32(n*2+1))...)
			raw(1)
			b = append(b, Comp(uint32(5+r.Intn(300)))...)
			b = append(b, Comp(uint32(r.Intn(300)))...)
		} else {
			b = append(b, Comp(uint32(n*2))...)
		}
		raw(n)
	}
	name := func() {
		n := 1 + l.N%4000
		x := make([]byte, n)
		for i := range x {
			x[i] = "abcdefghij/_.0123456789@"[r.Intn(24)]
		}
		x[n-1] = 0
		b = append(b, beN(uint64(n), 2)...)
		b = append(b, x...)
	}
	if l.T == MlogCheckpoint {
		raw(8)
		return b
	}
	b = append(b, Comp(l.Space)...)
	b = append(b, Comp(l.Page)...)
	comp := l.T == MlogCompInsert || l.T == MlogCompClustMark || l.T == MlogCompSecMark || l.T == MlogCompUpd ||
		l.T == MlogCompDelete || l.T == MlogCompListEndDel || l.T == MlogCompListStart || l.T == MlogCompListCopy ||
		l.T == MlogCompReorg || l.T == MlogZipReorg || l.T == MlogZipCompressND
	if comp {
		index()
	}
	switch l.T {
	case MlogUndoInsert:
		body := l.Undo.Body(tabs)
		b = append(b, beN(uint64(len(body)), 2)...)
		b = append(b, body...)
	case Mlog1:
		off()
		b = append(b, Comp(uint32(r.Intn(256)))...)
	case Mlog2:
		off()
		b = append(b, Comp(uint32(r.Intn(65536)))...)
	case Mlog4:
		off()
		c32()
	case Mlog8:
		off()
		c64()
	case MlogInsert, MlogCompInsert:
		insert(false, l.N)
	case MlogClustMark, MlogCompClustMark:
		raw(2)
		sysVals()
		off()
	case MlogSecMark, MlogCompSecMark:
		raw(1)
		off()
	case MlogUpdInPlace, MlogCompUpd:
		raw(1)
		sysVals()
		off()
		raw(1)
		n := r.Intn(4)
		if r.Intn(20) == 0 {
			n = r.Intn(300)
		}
		b = append(b, Comp(uint32(n))...)
		for i := 0; i < n; i++ {
			b = append(b, Comp(uint32(r.Intn(1017)))...)
			switch r.Intn(4) {
			case 0:
				b = append(b, Comp(0xFFFFFFFF)...)
			default:
				k := l.N
				if i > 0 {
					k = r.Intn(20)
				}
				b = append(b, Comp(uint32(k))...)
				raw(k)
			}
		}
	case MlogDelete, MlogCompDelete, MlogListEndDel, MlogListStartDel, MlogCompListEndDel, MlogCompListStart,
		MlogMinMark, MlogCompMinMark:
		off()
	case MlogListCopy, MlogCompListCopy:
		at := len(b)
		b = append(b, 0, 0, 0, 0)
		n := r.Intn(4)
		if r.Intn(20) == 0 {
			n = r.Intn(300)
		}
		for i := n; i > 0; i-- {
			insert(true, r.Intn(1+l.N)/(1+n/8))
		}
		put4(b[at:], uint32(len(b)-at-4))
	case MlogZipReorg, MlogZipCompressND:
		raw(1)
	case MlogUndoInit:
		b = append(b, Comp(uint32(1+r.Intn(2)))...)
	case MlogUndoReuse, MlogUndoCreate:
		c64()
	case MlogString:
		off()
		b = append(b, beN(uint64(l.N), 2)...)
		raw(l.N)
	case MlogFileCreate, MlogFileDelete, MlogFileName:
		name()
	case MlogFileCreate2:
		raw(4)
		name()
	case MlogFileRename, MlogFileRename2:
		name()
		name()
	case MlogZipNodePtr:
		off()
		off()
		raw(4)
	case MlogZipBlobPtr:
		off()
		off()
		raw(20)
	case MlogZipHeader:
		n := 1 + l.N%255
		b = append(b, byte(r.Intn(120)), byte(n))
		raw(n)
	case MlogZipCompress:
		n, t := l.N, r.Intn(40)
		if r.Intn(3) == 0 {
			t = r.Intn(1 + l.N)
		}
		b = append(b, beN(uint64(n), 2)...)
		b = append(b, beN(uint64(t), 2)...)
		raw(8 + n + t)
	case MlogTruncate, MlogIndexLoad:
		raw(8)
	}
	return b
}

// LogFile assembles one redo log file from block payloads (each at most 496
// bytes; a shorter one is a partially filled block).
func LogFile(payloads [][]byte, firstNo uint32, seed uint64, tailZero int) []byte {
	r := Rng(seed)
	sum := func(b []byte) []byte {
		put4(b[508:], crc32.Checksum(b[:508], crc32.MakeTable(crc32.Castagnoli)))
		return b
	}
	head := make([]byte, 512)
	lsn := uint64(firstNo) * 512
	if r.Intn(3) == 0 {
		lsn |= r.Next() >> uint(8+r.Intn(40)) &^ 511
	}
	old := r.Intn(3) == 0
	if old { // MySQL 5.6: group, LSN and number of the file, the backup's mark
		put8(head[4:], lsn)
		put4(head[12:], uint32(r.Intn(3)))
		copy(head[16:48], []string{"    ", "", "ibbackup 191120  1:05:12"}[r.Intn(3)])
	} else {
		put4(head[0:], 1)
		put8(head[8:], lsn)
		copy(head[16:48], []string{"MySQL 5.7.31", "MySQL 5.7.9", "MEB 4.1.4", "a creator of all of its 32 bytes"}[r.Intn(4)])
		sum(head)
	}
	cp := func(n uint64) []byte {
		b := make([]byte, 512)
		switch {
		case r.Intn(6) == 0: // not written yet
			return b
		case old:
			r.Bytes(b[:300])
			return b
		}
		put8(b[0:], n)
		put8(b[8:], lsn+12)
		put8(b[16:], 2048)
		put8(b[24:], 8<<20)
		if r.Intn(3) == 0 {
			put8(b[8:], r.Next()>>uint(r.Intn(40)))
			put8(b[16:], r.Next()>>uint(r.Intn(60)))
			put8(b[24:], r.Next()>>uint(r.Intn(60)))
		}
		return sum(b)
	}
	out := append([]byte(nil), head...)
	out = append(out, cp(r.Next()%1000)...)
	out = append(out, make([]byte, 512)...)
	out = append(out, cp(r.Next()%1000)...)
	for i, p := range payloads {
		b := make([]byte, 512)
		no := firstNo + uint32(i)
		if r.Intn(4) == 0 {
			no |= 0x80000000 // flush bit
		}
		put4(b[0:], no)
		n := 12 + len(p)
		if len(p) == 496 {
			n = 512
		}
		put2(b[4:], n)
		// the first group of records that starts in the block; a group that
		// covers the whole block leaves 0 here
		if r.Intn(3) > 0 {
			put2(b[6:], 12+r.Intn(1+len(p)))
		}
		put4(b[8:], uint32(r.Next()%100000))
		copy(b[12:], p)
		if len(p) < 496 {
			// stale bytes after the end of a partially filled block
			if r.Intn(2) == 0 {
				r.Bytes(b[12+len(p) : 508])
			}
		}
		out = append(out, sum(b)...)
	}
	for i := 0; i < tailZero; i++ {
		out = append(out, make([]byte, 512)...)
	}
	return out
}
