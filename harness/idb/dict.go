package idb

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// Rng is a splitmix64 stream expanded from a drawn seed.
type Rng uint64

func (r *Rng) Next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Intn is uniform enough below n.
func (r *Rng) Intn(n int) int { return int(r.Next() % uint64(n)) }

// Bytes fills b.
func (r *Rng) Bytes(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Next()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Perm is a random permutation.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// DictLayout says how the data dictionary lies in the system tablespace.
type DictLayout struct {
	Seed    uint64 `json:"seed,omitempty"`
	PerPage [4]int `json:"perpage"`           // rows per leaf of SYS_TABLES, COLUMNS, INDEXES, FIELDS; 0: as many as fit
	Fan     int    `json:"fan,omitempty"`     // pointers per non-leaf page; 0: as many as fit
	Shuffle bool   `json:"shuffle,omitempty"` // page numbers in arbitrary order
	Heap    bool   `json:"heap,omitempty"`    // heap order differs from key order
	Ghosts  int    `json:"ghosts,omitempty"`  // dictionary rows of dropped tables on free lists
	Noise   int    `json:"noise,omitempty"`   // further pages in the file
	Extras  bool   `json:"extras,omitempty"`  // InnoDB's own SYS_FOREIGN etc. tables
	V57     bool   `json:"v57,omitempty"`     // SYS_INDEXES with MERGE_THRESHOLD
	Dblwr   int    `json:"dblwr,omitempty"`   // stale copies of dictionary pages at the end of the file
	DblLow  int    `json:"dbllow,omitempty"`  // stale copies before the home positions
	Renames int    `json:"renames,omitempty"` // renamed, dropped and truncated tables and dropped indexes whose delete-marked rows purge has not removed yet
}

// DroppedID and up are the ids of dropped tables with rows in SYS_TABLES,
// TruncatedID and up the ids that tables had before they were truncated, and
// DroppedIdx and up the ids of dropped indexes.
const (
	DroppedID   = 930000
	TruncatedID = 940000
	DroppedIdx  = 950000
)

type dictRow struct {
	key    []byte
	fields []RField
	nkey   int
	mark   bool // delete-marked
}

func nameKey(s string) []byte { return append([]byte(s), 0) }

// FileName is the name of a database or table in SYS_TABLES and the file
// system, for names of letters, digits, ASCII punctuation and characters of
// the scripts (such as CJK) that always take four digits. Names of temporary
// tables and the marks of partitions stand as they are.
func FileName(s string) string {
	if strings.HasPrefix(s, "#sql") {
		return s
	}
	for _, m := range []string{"#P#", "#SP#", "#p#", "#sp#"} {
		if i := strings.Index(s, m); i >= 0 {
			return FileName(s[:i]) + m + FileName(s[i+len(m):])
		}
	}
	var b strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "@%04x", r)
		}
	}
	return b.String()
}

// FullName is SYS_TABLES.NAME.
func (t *Table) FullName() string {
	if t.Schema == "" {
		return t.Name
	}
	return FileName(t.Schema) + "/" + FileName(t.Name)
}

// sysRows are the dictionary rows of a table.
func sysRows(t *Table, r *Rng, v57 bool) (tab, cols, idx, fld []dictRow) {
	trx := func() []RField {
		return []RField{{Data: beN(r.Next()&0xffff, 6)}, {Data: beN(0x80000000000000|r.Next()&0xffffff, 7)}}
	}
	full := t.FullName()
	ncols := uint64(len(t.Cols))
	typ := uint64(1)
	if !t.Redundant {
		ncols |= 0x80000000
		if r.Intn(2) == 0 {
			typ = 33
		}
	}
	f := []RField{{Data: []byte(full)}}
	f = append(f, trx()...)
	f = append(f, RField{Data: beN(t.ID, 8)}, RField{Data: beN(ncols, 4)}, RField{Data: beN(typ, 4)},
		RField{Data: make([]byte, 8)}, RField{Data: beN(80, 4)}, RField{Null: true}, RField{Data: beN(uint64(t.Space), 4)})
	tab = append(tab, dictRow{nameKey(full), f, 1, false})
	for i, c := range t.Cols {
		f := []RField{{Data: beN(t.ID, 8)}, {Data: beN(uint64(i), 4)}}
		f = append(f, trx()...)
		f = append(f, RField{Data: []byte(c.Name)}, RField{Data: beN(uint64(c.MType()), 4)},
			RField{Data: beN(uint64(c.PrType()), 4)}, RField{Data: beN(uint64(c.Len()), 4)}, RField{Data: beN(0, 4)})
		cols = append(cols, dictRow{append(beN(t.ID, 8), beN(uint64(i), 4)...), f, 2, false})
	}
	index := func(id uint64, name string, typ int, keys, pre []int) {
		prefixed := false
		for _, n := range pre {
			prefixed = prefixed || n > 0
		}
		f := []RField{{Data: beN(t.ID, 8)}, {Data: beN(id, 8)}}
		f = append(f, trx()...)
		f = append(f, RField{Data: []byte(name)}, RField{Data: beN(uint64(len(keys)), 4)},
			RField{Data: beN(uint64(typ), 4)}, RField{Data: beN(uint64(t.Space), 4)}, RField{Data: beN(3+id%7, 4)})
		if v57 {
			f = append(f, RField{Data: beN(50, 4)})
		}
		idx = append(idx, dictRow{append(beN(t.ID, 8), beN(id, 8)...), f, 2, false})
		for pos, k := range keys {
			if prefixed {
				pos = pos<<16 | pre[pos]
			}
			f := []RField{{Data: beN(id, 8)}, {Data: beN(uint64(pos), 4)}}
			f = append(f, trx()...)
			f = append(f, RField{Data: []byte(t.Cols[k].Name)})
			fld = append(fld, dictRow{append(beN(id, 8), beN(uint64(pos), 4)...), f, 2, false})
		}
	}
	switch t.Key {
	case "none":
		index(t.ClustID, "GEN_CLUST_INDEX", 1, nil, nil)
	default:
		index(t.ClustID, t.IdxName(), 3, t.KeyCols, t.KeyPre)
	}
	for _, s := range t.Sec {
		typ := 0
		if s.Unique {
			typ = 2
		}
		index(s.ID, s.Name, typ, s.Cols, s.Pre)
	}
	return
}

// Extras are InnoDB's own tables outside any schema.
func Extras() []Table {
	vc := func(n string) Col { return Col{Name: n, Kind: "varchar", CS: 8, Size: 0, Null: true} }
	ic := func(n string) Col { return Col{Name: n, Kind: "int", Size: 4, Null: true} }
	return []Table{
		{ID: 11, Name: "SYS_FOREIGN", Cols: []Col{vc("ID"), vc("FOR_NAME"), vc("REF_NAME"), ic("N_COLS")},
			Key: "unique", KeyName: "ID_IND", KeyCols: []int{0}, ClustID: 11, Redundant: true,
			Sec: []SecIdx{{ID: 12, Name: "FOR_IND", Cols: []int{1}}, {ID: 13, Name: "REF_IND", Cols: []int{2}}}},
		{ID: 12, Name: "SYS_FOREIGN_COLS", Cols: []Col{vc("ID"), ic("POS"), vc("FOR_COL_NAME"), vc("REF_COL_NAME")},
			Key: "unique", KeyName: "ID_IND", KeyCols: []int{0, 1}, ClustID: 14, Redundant: true},
	}
}

// BuildDict makes the pages of a system tablespace that registers the tables.
func BuildDict(tables []Table, l DictLayout) [][]byte {
	r := Rng(l.Seed)
	var rows, ghosts [4][]dictRow
	add := func(dst *[4][]dictRow, t *Table) {
		a, b, c, d := sysRows(t, &r, l.V57)
		dst[0] = append(dst[0], a...)
		dst[1] = append(dst[1], b...)
		dst[2] = append(dst[2], c...)
		dst[3] = append(dst[3], d...)
	}
	all := append([]Table(nil), tables...)
	if l.Extras {
		all = append(all, Extras()...)
	}
	for i := range all {
		add(&rows, &all[i])
	}
	names := map[string]bool{}
	for i := range all {
		names[all[i].FullName()] = true
	}
	for g := 0; g < l.Renames; g++ {
		// RENAME TABLE leaves a delete-marked row with the old name, DROP TABLE
		// one with an id that is used no more
		t := tables[r.Intn(len(tables))]
		switch r.Intn(5) {
		case 0: // TRUNCATE TABLE gives the table a new id, its indexes keep theirs
			t.ID = TruncatedID + uint64(g)
			_, b, c, _ := sysRows(&t, &r, l.V57)
			for k, rs := range [][]dictRow{nil, b, c} {
				for i := range rs {
					rs[i].mark = true
				}
				if k == 2 || r.Intn(3) > 0 {
					rows[k] = append(rows[k], rs...)
				}
			}
			continue
		case 1: // DROP INDEX
			t.Sec = []SecIdx{{ID: DroppedIdx + uint64(g), Name: fmt.Sprintf("dropped_idx%d", g), Cols: r.Perm(len(t.Cols))[:1+r.Intn(min(len(t.Cols), 3))]}}
			_, _, c, d := sysRows(&t, &r, l.V57)
			for i, rs := range [][]dictRow{c[1:], d[len(t.KeyCols):]} {
				for j := range rs {
					rs[j].mark = true
				}
				if i == 0 || r.Intn(2) > 0 {
					rows[2+i] = append(rows[2+i], rs...)
				}
			}
			continue
		}
		if r.Intn(2) == 0 {
			t.Schema = []string{"aaa", "test", "zzz", "#"}[r.Intn(4)]
		}
		switch r.Intn(4) {
		case 0:
			t.Name = fmt.Sprintf("#sql-ib%d-%d", g, r.Intn(1000))
		case 1:
			t.Name = fmt.Sprintf("%s_%d", t.Name, g)
		case 2:
			t.Name = fmt.Sprintf("0old%d", g)
		default:
			t.Name = fmt.Sprintf("~%d", g)
		}
		left := 1
		if r.Intn(3) == 0 { // dropped; purge removes fields, indexes, columns and the table in this order
			t.ID, t.ClustID, t.Sec = DroppedID+uint64(g), DroppedID+uint64(g), nil
			left = 1 + r.Intn(4)
		}
		if names[t.FullName()] {
			continue
		}
		names[t.FullName()] = true
		a, b, c, d := sysRows(&t, &r, l.V57)
		for k, rs := range [][]dictRow{a, b, c, d} {
			for i := range rs {
				rs[i].mark = true
			}
			if k < left {
				rows[k] = append(rows[k], rs...)
			}
		}
	}
	for g := 0; g < l.Ghosts; g++ {
		// a dropped table: its dictionary rows are only on free lists
		t := tables[r.Intn(len(tables))]
		t.Cols = append([]Col(nil), t.Cols...)
		switch g % 3 {
		case 0: // dropped and re-created: same name, other id
			t.ID, t.ClustID, t.Sec = 900000+uint64(g), 900000+uint64(g), nil
			t.Space += 7000
			t.Cols = append([]Col{{Name: "ghost", Kind: "int", Size: 4}}, t.Cols...)
			for i := range t.KeyCols {
				t.KeyCols = append([]int(nil), t.KeyCols...)
				t.KeyCols[i]++
			}
		case 1: // an older version of the same table id (ALTER)
			t.Cols = append(t.Cols, Col{Name: "dropped_col", Kind: "int", Size: 8, Null: true})
			t.Sec = append(append([]SecIdx(nil), t.Sec...), SecIdx{ID: 910000 + uint64(g), Name: "dropped_idx", Cols: []int{0}})
		case 2:
			t.ID, t.ClustID, t.Sec = 920000+uint64(g), 920000+uint64(g), nil
			t.Name = "ghost" + t.Name
		}
		add(&ghosts, &t)
	}
	type leaf struct{ live, free []dictRow }
	var leaves [4][]leaf
	recSize := func(d dictRow) int {
		e, data, _ := EncOld(d.fields)
		return len(e) + 6 + len(data)
	}
	for k := 0; k < 4; k++ {
		sort.SliceStable(rows[k], func(i, j int) bool { return bytes.Compare(rows[k][i].key, rows[k][j].key) < 0 })
		cur := leaf{}
		used := 0
		for _, d := range rows[k] {
			sz := recSize(d)
			if (l.PerPage[k] > 0 && len(cur.live) >= l.PerPage[k]) || used+sz > Room(true, len(cur.live)+1) {
				leaves[k] = append(leaves[k], cur)
				cur, used = leaf{}, 0
			}
			cur.live = append(cur.live, d)
			used += sz
		}
		leaves[k] = append(leaves[k], cur)
		for _, g := range ghosts[k] {
			i := r.Intn(len(leaves[k]))
			lf := &leaves[k][i]
			tot := recSize(g)
			for _, d := range append(append([]dictRow(nil), lf.live...), lf.free...) {
				tot += recSize(d)
			}
			if tot <= Room(true, len(lf.live)+len(lf.free)+1) {
				lf.free = append(lf.free, g)
			}
		}
	}
	// the levels above the leaves, up to the root: sizes of the groups per level
	nodeRow := func(d dictRow, child uint32) dictRow {
		return dictRow{key: d.key, nkey: d.nkey, fields: append(append([]RField(nil), d.fields[:d.nkey]...), RField{Data: beN(uint64(child), 4)})}
	}
	var upper [4][][]int
	// page numbers: 0..6 system pages, 7 dictionary header
	need := 1 + l.Noise // SYS_TABLE_IDS root
	for k := 0; k < 4; k++ {
		need += len(leaves[k])
		var firsts []dictRow
		for _, lf := range leaves[k] {
			if len(leaves[k]) > 1 {
				firsts = append(firsts, lf.live[0])
			}
		}
		for len(firsts) > 1 {
			var sizes []int
			var next []dictRow
			n, used := 0, 0
			for i, d := range firsts {
				sz := recSize(nodeRow(d, 0))
				if n > 0 && (used+sz > Room(true, n+1) || l.Fan > 1 && n >= l.Fan) {
					sizes = append(sizes, n)
					n, used = 0, 0
				}
				if n == 0 {
					next = append(next, firsts[i])
				}
				n++
				used += sz
			}
			sizes = append(sizes, n)
			upper[k] = append(upper[k], sizes)
			need += len(sizes)
			firsts = next
		}
	}
	first := 8 + l.DblLow
	nums := make([]uint32, need)
	for i := range nums {
		nums[i] = uint32(first + i)
	}
	var rootNo [5]uint32 // TABLES TABLE_IDS COLUMNS INDEXES FIELDS
	next := 0
	take := func() uint32 { n := nums[next]; next++; return n }
	if l.Shuffle {
		sh := make([]uint32, need)
		for i, p := range r.Perm(need) {
			sh[i] = nums[p]
		}
		nums = sh
	}
	for i := range rootNo {
		rootNo[i] = take()
	}
	npages := first + need + l.Dblwr
	pages := make([][]byte, npages)
	sysTypes := []int{TypeFspHdr, TypeIbufBmp, TypeInode, TypeSys, TypeIndex, TypeTrxSys, TypeSys}
	for i, ty := range sysTypes {
		p := NewPage(uint32(i), 0, ty)
		if ty == TypeIndex { // insert buffer root: index id 0xFFFFFFFF00000000
			p = Index{No: uint32(i), IndexID: 0xFFFFFFFF00000000, Redundant: true}.Build()
		}
		pages[i] = Seal(p)
	}
	h := NewPage(7, 0, TypeSys)
	put8(h[38:], 0x200)
	put8(h[46:], 1000)
	put8(h[54:], 1000)
	put4(h[62:], 900)
	put4(h[66:], 0)
	for i, n := range rootNo {
		put4(h[70+4*i:], n)
	}
	pages[7] = Seal(h)
	slot := [4]int{0, 2, 3, 4}
	mkLeaf := func(no uint32, id uint64, lf leaf, prev, nx uint32) []byte {
		x := Index{No: no, IndexID: id, Redundant: true, Prev: prev, Next: nx}
		all := append(append([]dictRow(nil), lf.live...), lf.free...)
		order := make([]int, len(all))
		for i := range order {
			order[i] = i
		}
		if l.Heap || len(lf.free) > 0 {
			order = r.Perm(len(all))
		}
		at := make([]int, len(all))
		for hp, i := range order {
			at[i] = hp
			e, d, s := EncOld(all[i].fields)
			info := byte(0)
			if i >= len(lf.live) || all[i].mark {
				info = 0x20
			}
			x.Heap = append(x.Heap, Placed{Rec: Rec{Extra: e, Data: d, NFields: len(all[i].fields), Short: s}, Info: info})
		}
		for i := range all {
			if i < len(lf.live) {
				x.Live = append(x.Live, at[i])
			} else {
				x.Free = append(x.Free, at[i])
			}
		}
		return x.Build()
	}
	for k := 0; k < 4; k++ {
		id := uint64(k + 1)
		root := rootNo[slot[k]]
		if len(leaves[k]) == 1 {
			pages[root] = mkLeaf(root, id, leaves[k][0], 0, 0)
			continue
		}
		var ls []uint32
		var firsts []dictRow
		for _, lf := range leaves[k] {
			ls = append(ls, take())
			firsts = append(firsts, lf.live[0])
		}
		for i, n := range ls {
			var prev, nx uint32
			if i > 0 {
				prev = ls[i-1]
			}
			if i+1 < len(ls) {
				nx = ls[i+1]
			}
			pages[n] = mkLeaf(n, id, leaves[k][i], prev, nx)
		}
		for lv, sizes := range upper[k] {
			var nos []uint32
			var next []dictRow
			for range sizes {
				if lv == len(upper[k])-1 {
					nos = append(nos, root)
				} else {
					nos = append(nos, take())
				}
			}
			at := 0
			for g, size := range sizes {
				x := Index{No: nos[g], IndexID: id, Redundant: true, Level: lv + 1}
				if g > 0 {
					x.Prev = nos[g-1]
				}
				if g+1 < len(nos) {
					x.Next = nos[g+1]
				}
				next = append(next, firsts[at])
				for i := 0; i < size; i++ {
					e, data, s := EncOld(nodeRow(firsts[at], ls[at]).fields)
					info := byte(0)
					if at == 0 {
						info = 0x10
					}
					x.Heap = append(x.Heap, Placed{Rec: Rec{Extra: e, Data: data, NFields: firsts[at].nkey + 1, Short: s}, Info: info})
					x.Live = append(x.Live, i)
					at++
				}
				pages[nos[g]] = x.Build()
			}
			ls, firsts = nos, next
		}
	}
	// SYS_TABLES' secondary index ID_IND and other noise
	pages[rootNo[1]] = idIndPage(rootNo[1], all)
	for i := 0; i < l.Noise; i++ {
		n := take()
		pages[n] = dictNoise(n, &r, all)
	}
	home := []uint32{7}
	for n := range pages {
		if pages[n] != nil && n > 7 {
			home = append(home, uint32(n))
		}
	}
	stale := func(at int) {
		src := home[r.Intn(len(home))]
		p := append([]byte(nil), pages[src]...)
		staleMutate(p, &r)
		pages[at] = p
	}
	for i := 0; i < l.DblLow; i++ {
		stale(8 + i)
	}
	for i := 0; i < l.Dblwr; i++ {
		stale(first + need + i)
	}
	return pages
}

// staleMutate turns a copy of a page into an older or foreign version that
// still is a well-formed page.
func staleMutate(p []byte, r *Rng) {
	switch r.Intn(3) {
	case 0: // the page as it was when empty
		if p[24] == 0x45 && p[25] == 0xbf {
			no := uint32(p[4])<<24 | uint32(p[5])<<16 | uint32(p[6])<<8 | uint32(p[7])
			var id uint64
			for _, b := range p[66:74] {
				id = id<<8 | uint64(b)
			}
			copy(p, Index{No: no, IndexID: id, Redundant: p[42]&0x80 == 0}.Build())
		} else {
			for i := 38; i < PageSize-8; i++ {
				p[i] = 0
			}
			Seal(p)
		}
	case 1: // reused for something else
		p[24], p[25] = 0, TypeBlob
		r.Bytes(p[38 : PageSize-8])
		Seal(p)
	case 2: // an identical copy
	}
}

func idIndPage(no uint32, tables []Table) []byte {
	x := Index{No: no, IndexID: 5, Redundant: true, MaxTrx: 77}
	used := 0
	for _, t := range tables {
		full := t.FullName()
		e, d, s := EncOld([]RField{{Data: beN(t.ID, 8)}, {Data: []byte(full)}})
		used += len(e) + len(d) + 6
		if used > Room(true, len(x.Heap)+1) {
			break
		}
		x.Live = append(x.Live, len(x.Heap))
		x.Heap = append(x.Heap, Placed{Rec: Rec{Extra: e, Data: d, NFields: 2, Short: s}})
	}
	return x.Build()
}

func dictNoise(no uint32, r *Rng, tables []Table) []byte {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		p := NewPage(no, 0, TypeUndo)
		r.Bytes(p[38 : PageSize-8])
		// whatever lies where an index page has its index id: not a dictionary index
		p[66] |= 0x40
		return Seal(p)
	case 2:
		return Index{No: no, IndexID: 20 + uint64(r.Intn(100)), Redundant: r.Intn(2) == 0}.Build()
	case 3:
		return idIndPage(no, tables)
	}
	p := NewPage(no, 0, TypeAllocated)
	return Seal(p)
}
