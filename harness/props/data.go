package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"pgregory.net/rapid"

	"verif/idb"
)

// Row is a record of a clustered leaf page.
type Row struct {
	Vals  []idb.Val `json:"v"`
	Sys   idb.Sys   `json:"sys"`
	State string    `json:"st"` // live, free (on the free list), dead (space in no list), mark (live, delete-marked)
	Info  byte      `json:"info,omitempty"`
	Gap   int       `json:"gap,omitempty"`
}

// Page is a page of a table's data file.
type Page struct {
	Kind     string `json:"kind"` // leaf sec node alloc zero blob undo sys garbage
	Rows     []Row  `json:"rows,omitempty"`
	LiveSeed uint64 `json:"live,omitempty"` // 0: chain in heap order
	FreeSeed uint64 `json:"free,omitempty"`
	Hole     int    `json:"hole,omitempty"`
	Seed     uint64 `json:"seed,omitempty"`
	N        int    `json:"n,omitempty"`
}

// DataCase is a dictionary and the data file of one of its tables.
type DataCase struct {
	Tabs   []idb.Table    `json:"tabs"`
	Target int            `json:"target"`
	Layout idb.DictLayout `json:"layout"`
	Pages  []Page         `json:"pages"`
	TZ     string         `json:"tz,omitempty"`
}

func (c *DataCase) tab() *idb.Table { return &c.Tabs[c.Target] }

// Zones a process may run in.
var zones = []string{"UTC", "UTC", "America/New_York", "Europe/London", "Asia/Kolkata", "Asia/Shanghai", "Pacific/Apia", "Australia/Lord_Howe", "+5:45", "-12", "+14", "+0:01"}

var zoneCache = map[string]*time.Location{}

// setZone makes the process run in a time zone.
func setZone(name string) {
	if name == "" {
		name = "UTC"
	}
	l := zoneCache[name]
	if l == nil {
		if name[0] == '+' || name[0] == '-' {
			var h, m int
			fmt.Sscanf(name[1:], "%d:%d", &h, &m)
			s := h*3600 + m*60
			if name[0] == '-' {
				s = -s
			}
			l = time.FixedZone("X", s)
		} else {
			var err error
			if l, err = time.LoadLocation(name); err != nil {
				panic(err)
			}
		}
		zoneCache[name] = l
	}
	time.Local = l
}

// leafPage builds a clustered leaf page.
func leafPage(t *idb.Table, p *Page, no uint32, prev, next uint32) []byte {
	x := idb.Index{No: no, Space: t.Space, IndexID: t.ClustID, Redundant: t.Redundant, Prev: prev, Next: next, ReuseHole: p.Hole}
	for i, r := range p.Rows {
		info := r.Info
		if r.State == "mark" {
			info |= 0x20
		}
		x.Heap = append(x.Heap, idb.Placed{Rec: t.Encode(r.Vals, r.Sys), Info: info, Gap: r.Gap})
		switch r.State {
		case "live", "mark":
			x.Live = append(x.Live, i)
		case "free":
			x.Free = append(x.Free, i)
		}
	}
	shuffle(x.Live, p.LiveSeed)
	shuffle(x.Free, p.FreeSeed)
	return x.Build()
}

func shuffle(xs []int, seed uint64) {
	if seed == 0 {
		return
	}
	if seed == 1 { // the last one first, as records deleted in order
		for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
			xs[i], xs[j] = xs[j], xs[i]
		}
		return
	}
	r := idb.Rng(seed)
	for i := len(xs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// noisePage builds a page that holds no clustered leaf records.
func noisePage(c *DataCase, p *Page, no uint32) []byte {
	t := c.tab()
	r := idb.Rng(p.Seed)
	raw := func(typ int) []byte {
		b := idb.NewPage(no, t.Space, typ)
		if p.N > 0 {
			r.Bytes(b[38 : idb.PageSize-8])
		}
		return idb.Seal(b)
	}
	switch p.Kind {
	case "zero":
		return nil
	case "alloc":
		return raw(idb.TypeAllocated)
	case "blob":
		return raw(idb.TypeBlob)
	case "undo":
		return raw(idb.TypeUndo)
	case "sys":
		return raw(idb.TypeSys)
	case "xdes":
		return raw(idb.TypeXdes)
	case "bitmap":
		return raw(idb.TypeIbufBmp)
	case "inode":
		return raw(idb.TypeInode)
	case "ghost": // a leaf page that was freed: its type changed, its records still there
		b := leafPage(t, p, no, 0, 0)
		types := []int{idb.TypeAllocated, idb.TypeBlob, idb.TypeUndo, idb.TypeSys,
			0x45be, 0x45bd, // the other kinds of index page: spatial, dictionary (SDI)
			14, 15, 16, 17, // compressed, encrypted
			0x00bf, 0x4500, 0xbf45, 0x45ff} // half of an index page's type
		typ := types[r.Intn(len(types))]
		b[24], b[25] = byte(typ>>8), byte(typ)
		return idb.Seal(b)
	case "sec", "secmax":
		// A secondary leaf page; with kind secmax its records look exactly like rows.
		x := idb.Index{No: no, Space: t.Space, IndexID: t.ClustID + 1000, Redundant: t.Redundant, MaxTrx: 1 + r.Next()>>uint(16+r.Intn(48))}
		if r.Intn(2) == 0 { // only some of its bytes are set
			if x.MaxTrx = (x.MaxTrx & 0xffff) << uint(8*r.Intn(5)); x.MaxTrx == 0 {
				x.MaxTrx = 1 << uint(8*r.Intn(6))
			}
		}
		if len(t.Sec) > 0 {
			x.IndexID = t.Sec[r.Intn(len(t.Sec))].ID
		}
		for i, row := range p.Rows {
			rec := t.Encode(row.Vals, row.Sys)
			if p.Kind == "sec" {
				rec = secRec(t, row.Vals)
			}
			x.Heap = append(x.Heap, idb.Placed{Rec: rec, Info: row.Info})
			switch row.State {
			case "live", "mark":
				x.Live = append(x.Live, i)
			case "free":
				x.Free = append(x.Free, i)
			}
		}
		return x.Build()
	case "node":
		x := idb.Index{No: no, Space: t.Space, IndexID: t.ClustID, Redundant: t.Redundant, Level: nodeLevel(p)}
		for i, row := range p.Rows {
			x.Heap = append(x.Heap, idb.Placed{Rec: nodeRec(t, row, uint32(r.Intn(100))), Status: 1})
			if row.State == "free" {
				x.Free = append(x.Free, i)
			} else {
				x.Live = append(x.Live, i)
			}
		}
		if len(x.Live) > 0 {
			x.Heap[x.Live[0]].Info = 0x10
		}
		return x.Build()
	case "nodefull": // a non-leaf page whose records look exactly like rows
		b := leafPage(t, p, no, 0, 0)
		b[38+26], b[38+27] = 0, byte(nodeLevel(p))
		return idb.Seal(b)
	case "other": // a page of another table's clustered index cannot be in a file-per-table file; an empty one can
		return idb.Index{No: no, Space: t.Space, IndexID: t.ClustID, Redundant: t.Redundant}.Build()
	}
	panic("page kind " + p.Kind)
}

// nodeLevel is the level of a non-leaf page, at most BTR_MAX_NODE_LEVEL.
func nodeLevel(p *Page) int {
	return []int{1, 2, 3, 1, 2, 4, 8, 16, 32, 50}[(uint64(p.N)+p.Seed%7)%10]
}

// secRec is a record of an index over the table's key columns, as its leaf
// pages hold it.
func secRec(t *idb.Table, vals []idb.Val) idb.Rec {
	s := idb.Table{Cols: t.Cols, Key: "unique", Redundant: t.Redundant}
	k := append([]int(nil), t.KeyCols...)
	if len(k) == 0 {
		k = []int{0}
	}
	// only the fields, no system columns
	if t.Redundant {
		var fs []idb.RField
		for _, i := range k {
			if vals[i].Nul {
				fs = append(fs, idb.RField{Null: true, NullLen: t.Cols[i].Fixed(true)})
			} else {
				fs = append(fs, idb.RField{Data: t.Cols[i].Encode(vals[i], true)})
			}
		}
		e, d, sh := idb.EncOld(fs)
		return idb.Rec{Extra: e, Data: d, NFields: len(fs), Short: sh}
	}
	_ = s
	var extra, data []byte
	for n, i := range k {
		if vals[i].Nul {
			continue
		}
		b := t.Cols[i].Encode(vals[i], false)
		if p := t.Prefix(n); p > 0 {
			b = t.Cols[i].CutPrefix(b, p)
		}
		if t.Cols[i].Fixed(false) == 0 {
			if len(b) > 127 && t.Cols[i].Big() {
				extra = append([]byte{byte(len(b)), byte(len(b)>>8) | 0x80}, extra...)
			} else {
				extra = append([]byte{byte(len(b))}, extra...)
			}
		}
		data = append(data, b...)
	}
	return idb.Rec{Extra: extra, Data: data, NFields: len(k)}
}

// nodeRec is a node pointer: the key and a child page number.
func nodeRec(t *idb.Table, row Row, child uint32) idb.Rec {
	no := []byte{byte(child >> 24), byte(child >> 16), byte(child >> 8), byte(child)}
	if t.Key == "none" {
		id := row.Sys.RowID
		k := []byte{byte(id >> 40), byte(id >> 32), byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)}
		if t.Redundant {
			e, d, s := idb.EncOld([]idb.RField{{Data: k}, {Data: no}})
			return idb.Rec{Extra: e, Data: d, NFields: 2, Short: s}
		}
		return idb.Rec{Extra: make([]byte, nullBytes(t)), Data: append(k, no...), NFields: 2}
	}
	if t.Redundant {
		var fs []idb.RField
		for k, i := range t.KeyCols {
			b, _ := t.KeyField(k, row.Vals[i])
			fs = append(fs, idb.RField{Data: b})
		}
		fs = append(fs, idb.RField{Data: no})
		e, d, s := idb.EncOld(fs)
		return idb.Rec{Extra: e, Data: d, NFields: len(fs), Short: s}
	}
	r := secRec(t, row.Vals)
	r.Data = append(r.Data, no...)
	r.NFields++
	return r
}

func nullBytes(t *idb.Table) int {
	n := 0
	for _, c := range t.Cols {
		if c.Null {
			n++
		}
	}
	return (n + 7) / 8
}

// firstPage is the position of the first generated page.
const firstPage = 3

// dataPages builds the pages of the data file.
func dataPages(c *DataCase) [][]byte {
	t := c.tab()
	pages := [][]byte{
		idb.Seal(idb.NewPage(0, t.Space, idb.TypeFspHdr)),
		idb.Seal(idb.NewPage(1, t.Space, idb.TypeIbufBmp)),
		idb.Seal(idb.NewPage(2, t.Space, idb.TypeInode)),
	}
	var leaves []uint32
	for i := range c.Pages {
		if c.Pages[i].Kind == "leaf" {
			leaves = append(leaves, uint32(firstPage+i))
		}
	}
	k := 0
	for i := range c.Pages {
		no := uint32(firstPage + i)
		if c.Pages[i].Kind != "leaf" {
			pages = append(pages, noisePage(c, &c.Pages[i], no))
			continue
		}
		var prev, next uint32
		if k > 0 {
			prev = leaves[k-1]
		}
		if k+1 < len(leaves) {
			next = leaves[k+1]
		}
		k++
		pages = append(pages, leafPage(t, &c.Pages[i], no, prev, next))
	}
	return pages
}

// expected are the rows that have to be printed, and those that may be.
func expected(c *DataCase, recovery bool) (want, optional []string) {
	return expectedPages(c, recovery, func(int) bool { return true })
}

func expectedPages(c *DataCase, recovery bool, use func(i int) bool) (want, optional []string) {
	t := c.tab()
	for i, p := range c.Pages {
		if p.Kind != "leaf" || !use(i) {
			continue
		}
		for _, r := range p.Rows {
			switch {
			case r.State == "mark":
				optional = append(optional, canonRow(t, r.Vals))
			case r.State == "live" && !recovery, r.State == "free" && recovery:
				want = append(want, canonRow(t, r.Vals))
			}
		}
	}
	return
}

// runData performs a request with a fresh parser.
func runData(dict, data, schema, table string, recovery bool) Ran {
	return Exec(func() error {
		p := ibdata.NewParse()
		if err := p.ParseDictPage(dict); err != nil {
			return fmt.Errorf("dictionary: %v", err)
		}
		return p.ParseDataPage(data, schema, table, recovery)
	})
}

func modeName(recovery bool) string {
	if recovery {
		return "recovery mode"
	}
	return "print mode"
}

// ok turns an error or panic of a call that has to succeed into a failure.
func (r Ran) ok(what string) error {
	if r.Panic != "" {
		return fmt.Errorf("%s: panic: %s", what, r.Panic)
	}
	if r.Err != nil {
		return fmt.Errorf("%s: error: %v", what, r.Err)
	}
	return nil
}

// checkData compares what both modes print with the case's rows.
func checkData(c *DataCase, modes ...bool) error {
	setZone(c.TZ)
	dict := writeFile("ibdata1", idb.File(idb.BuildDict(c.Tabs, c.Layout)))
	data := writeFile("t.ibd", idb.File(dataPages(c)))
	t := c.tab()
	if len(modes) == 0 {
		modes = []bool{false, true}
	}
	for _, m := range modes {
		r := runData(dict, data, t.Schema, t.Name, m)
		if err := r.ok(modeName(m)); err != nil {
			return err
		}
		got, err := readReplace(t, r.Out)
		if err != nil {
			return fmt.Errorf("%s: %v", modeName(m), err)
		}
		want, opt := expected(c, m)
		if err := compareRows(want, opt, got); err != nil {
			return fmt.Errorf("%s: %v", modeName(m), err)
		}
	}
	return nil
}

// ---- generation ----

// PageOpt directs the page generator.
type PageOpt struct {
	MaxLeaf  int
	MaxRows  int
	States   []string
	NullPct  int
	Fill     bool // may fill pages to the limit
	Noise    int  // at most that many other pages
	Gaps     bool
	MinState string // at least one row of that state, if any row
}

var mixedStates = []string{"live", "free", "live", "free", "live", "free", "dead", "mark"}

func genSys(t *rapid.T, label string) idb.Sys {
	s := seed(t, label)
	r := idb.Rng(s)
	if s == 0 {
		return idb.Sys{RowID: 1, Trx: 1, Roll: 1 << 55}
	}
	sh := uint(r.Intn(48))
	return idb.Sys{RowID: r.Next() >> 16 >> sh, Trx: r.Next() >> 16 >> uint(r.Intn(48)), Roll: r.Next() >> 8 >> uint(r.Intn(56))}
}

// mutateRow makes a row that differs from vals in its fixed-size values.
func mutateRow(t *idb.Table, vals []idb.Val, r *idb.Rng) []idb.Val {
	out := append([]idb.Val(nil), vals...)
	for i, c := range t.Cols {
		if out[i].Nul {
			continue
		}
		switch c.Kind {
		case "int":
			bits := uint(c.Size) * 8
			n := r.Next() & (^uint64(0) >> (64 - bits))
			if !c.Unsigned && n>>(bits-1) == 1 {
				n |= ^(^uint64(0) >> (64 - bits))
			}
			out[i].N = n
		case "bit":
			out[i].N = r.Next() & (^uint64(0) >> (64 - uint(c.Size)))
		case "varchar", "text", "char":
			if c.Mbmax() > 1 || len(out[i].B) == 0 {
				continue
			}
			b := append([]byte(nil), out[i].B...)
			for k := range b {
				b[k] = 'a' + byte(r.Intn(26))
			}
			if c.Kind != "char" && r.Intn(3) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
			out[i].B = b
		case "varbinary", "blob":
			b := append([]byte(nil), out[i].B...)
			r.Bytes(b)
			out[i].B = b
		}
	}
	return out
}

func rowSize(t *idb.Table, r Row) int { return t.Encode(r.Vals, r.Sys).Size(t.Redundant) + r.Gap }

// genLeaf draws a clustered leaf page.
func genLeaf(t *rapid.T, tb *idb.Table, o PageOpt, label string) Page {
	p := Page{Kind: "leaf"}
	n := ints(t, 0, o.MaxRows, label+"Rows")
	used := 0
	states := o.States
	if chance(t, 20, label+"Mono") { // pages with a single kind of rows
		states = []string{pick(t, states, label+"MonoState")}
	}
	live, tight := 0, false
	put := func(r Row) bool {
		sz := rowSize(tb, r)
		n := live
		if r.State != "free" && r.State != "dead" {
			n++
		}
		room := idb.Room(tb.Redundant, len(p.Rows)+1)
		if tight {
			room = idb.Tight(tb.Redundant, n)
		}
		if used+sz > room {
			return false
		}
		used += sz
		live = n
		p.Rows = append(p.Rows, r)
		return true
	}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("%sr%d", label, i)
		r := Row{Vals: genRow(t, tb, o.NullPct, l), Sys: genSys(t, l+"Sys"), State: pick(t, states, l+"St")}
		if o.MinState != "" && i == 0 {
			r.State = o.MinState
		}
		if i > 0 && chance(t, 6, l+"Dup") { // a row like another one
			src := p.Rows[ints(t, 0, len(p.Rows)-1, l+"DupOf")]
			r.Vals = src.Vals
			if tb.Key != "none" && src.State != "free" && r.State != "free" && r.State != "dead" { // not two with the same key
				for _, st := range states {
					if st == "free" {
						r.State = st
					}
				}
			}
		}
		if r.State == "free" && chance(t, 70, l+"Mark") {
			r.Info = 0x20
		}
		if o.Gaps && chance(t, 20, l+"HasGap") {
			r.Gap = ints(t, 1, 60, l+"Gap")
		}
		if !put(r) {
			break
		}
	}
	if o.Fill && len(p.Rows) > 0 && chance(t, 15, label+"Fill") {
		s := idb.Rng(seed(t, label+"FillSeed"))
		max := ints(t, 1, 800, label+"FillN")
		tight = chance(t, 50, label+"Tight")
		base := len(p.Rows)
		for i := 0; i < max; i++ {
			src := p.Rows[i%base]
			r := Row{Vals: mutateRow(tb, src.Vals, &s), Sys: idb.Sys{RowID: s.Next() >> 16, Trx: s.Next() >> 20, Roll: s.Next() >> 8}, State: states[s.Intn(len(states))]}
			if r.State == "free" {
				r.Info = 0x20
			}
			if !put(r) {
				break
			}
		}
	}
	if k := len(p.Rows) - 1; o.Gaps && k >= 0 && chance(t, 10, label+"ToEnd") { // the last record ends where the directory starts
		if gap := idb.Tight(tb.Redundant, live) - used - ints(t, 0, 3, label+"ToEndBut"); gap > 0 {
			p.Rows[k].Gap += gap
		}
	}
	if chance(t, 70, label+"Perm") {
		p.LiveSeed, p.FreeSeed = seed(t, label+"LiveSeed"), seed(t, label+"FreeSeed")
		if chance(t, 20, label+"LastFirst") {
			p.FreeSeed = 1
		}
	}
	if o.Gaps && chance(t, 20, label+"HasHole") {
		p.Hole = ints(t, 1, 100, label+"Hole")
		free := false
		for _, r := range p.Rows {
			free = free || r.State == "free"
		}
		if !free && !chance(t, 50, label+"HoleAlone") {
			p.Hole = 0
		}
	}
	return p
}

var noiseKinds = []string{"zero", "alloc", "blob", "undo", "sys", "inode", "xdes", "bitmap", "sec", "secmax", "node", "nodefull", "ghost", "other"}

func genNoise(t *rapid.T, tb *idb.Table, label string) Page {
	p := Page{Kind: pick(t, noiseKinds, label+"Kind"), Seed: seed(t, label+"Seed"), N: ints(t, 0, 5, label+"N")}
	switch p.Kind {
	case "sec", "secmax", "node", "nodefull", "ghost":
		q := genLeaf(t, tb, PageOpt{MaxRows: 3, States: []string{"live", "free"}, NullPct: 20}, label)
		p.Rows, p.LiveSeed, p.FreeSeed = q.Rows, q.LiveSeed, q.FreeSeed
	}
	return p
}

func genPages(t *rapid.T, tb *idb.Table, o PageOpt) []Page {
	var pages []Page
	for i := ints(t, 1, o.MaxLeaf, "leaves"); i > 0; i-- {
		pages = append(pages, genLeaf(t, tb, o, fmt.Sprintf("p%d", len(pages))))
	}
	if o.Fill && chance(t, 5, "split") { // a page split moves rows and leaves deleted ones
		i := ints(t, 0, len(pages)-1, "splitAt")
		q := Page{Kind: "leaf"}
		p := &pages[i]
		for k := len(p.Rows) / 2; k < len(p.Rows); k++ {
			if p.Rows[k].State == "live" {
				r := p.Rows[k]
				r.Gap = 0
				q.Rows = append(q.Rows, r)
				p.Rows[k].State, p.Rows[k].Info = "free", 0
			}
		}
		pages = append(pages[:i+1], append([]Page{q}, pages[i+1:]...)...)
	}
	if o.Fill && chance(t, 2, "many") { // many small pages
		s := idb.Rng(seed(t, "manySeed"))
		n := pick(t, []int{20, 61, 62, 63, 64, 125, 126, 200, 253, 254, 255, 256, 260, 300, 520}, "manyN")
		base := len(pages)
		for i := 0; i < n; i++ {
			q := Page{Kind: "leaf"}
			for _, r := range pages[i%base].Rows {
				if len(q.Rows) < 2 {
					r.Vals = mutateRow(tb, r.Vals, &s)
					q.Rows = append(q.Rows, r)
				}
			}
			pages = append(pages, q)
		}
	}
	if o.Noise > 0 {
		for i := ints(t, 0, o.Noise, "noise"); i > 0; i-- {
			at := ints(t, 0, len(pages), "noiseAt")
			n := genNoise(t, tb, fmt.Sprintf("n%d", i))
			pages = append(pages[:at], append([]Page{n}, pages[at:]...)...)
		}
	}
	return pages
}

var schemaNames = []string{"test", "db1", "db2", "Test", "shop"}
var tableNames = []string{"t", "t1", "t2", "T", "users", "t1_bak"}

// Names that are written with codes in the file system.
var oddSchemas = []string{"mysql", "sys", "information_schema", "performance_schema", "innodb", "MYSQL", "my-db", "two words", "中文", "a.b", "x@y", "it's", "1st", "d/b", "#tmp", strings.Repeat("s", 64), strings.Repeat("\u4e2d", 64)}
var oddTables = []string{"my-table", "t 1", "it's", "中文表", "a/b", "t@1", "t#P#p0", "#sql-ib12-77", "$t", "t\\1", "a;b", "日本", "t@002d", "한글", "-", "%", "t.", "#sql2-1-2", "@", strings.Repeat("t", 64), strings.Repeat("\u6587", 64)}

func genSchema(t *rapid.T) string {
	if chance(t, 15, "oddSchema") {
		return pick(t, oddSchemas, "schemaOdd")
	}
	return pick(t, schemaNames, "schema")
}

// tableIn is genTableName for a table of the schema, sometimes one that looks
// qualified.
func tableIn(t *rapid.T, schema string) string {
	n := genTableName(t)
	if chance(t, 3, "qualified") && len(schema)+len(n) < 60 {
		return schema + "." + n
	}
	return n
}

func genTableName(t *rapid.T) string {
	if chance(t, 15, "oddTName") {
		return pick(t, oddTables, "tnameOdd")
	}
	return pick(t, tableNames, "tname")
}

// genTabs draws the target table among others, all with distinct names.
func genTabs(t *rapid.T, o TabOpt, decoys int) (tabs []idb.Table, target int) {
	n := 1
	if decoys > 0 {
		n += ints(t, 0, decoys, "decoys")
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		oo := o
		if i > 0 {
			oo = TabOpt{Kinds: plainKinds, MinCols: 1, MaxCols: 4, NullPct: 30, Redundant: 2, Sec: o.Sec}
		}
		tb := genTable(t, oo, fmt.Sprintf("tab%d", i))
		for k := 0; ; k++ {
			tb.Schema = genSchema(t)
			tb.Name = tableIn(t, tb.Schema)
			if k > 3 {
				tb.Name = fmt.Sprintf("%s_%d", tb.Name, i)
			}
			if !used[tb.Schema+"/"+tb.Name] {
				break
			}
		}
		used[tb.Schema+"/"+tb.Name] = true
		tabs = append(tabs, tb)
	}
	target = 0
	if n > 1 {
		target = ints(t, 0, n-1, "targetAt")
		tabs[0], tabs[target] = tabs[target], tabs[0]
	}
	setIDs(tabs, pick(t, []uint64{40, 20, 126, 250, 16380, 1 << 21, 1 << 28, 1<<32 - 2, 1 << 32, 1<<40 + 5}, "idBase"))
	shareSpaces(t, tabs, 6)
	return
}

// ---- summaries ----

func showTable(t *idb.Table) string {
	s := fmt.Sprintf("%s.%s(", t.Schema, t.Name)
	for i, c := range t.Cols {
		if i > 0 {
			s += ", "
		}
		if i == 10 {
			s += fmt.Sprintf("... %d columns", len(t.Cols))
			break
		}
		s += c.Name + " " + c.TypeName()
	}
	s += ") " + t.Key
	if len(t.KeyCols) > 0 {
		s += fmt.Sprint(t.KeyCols)
	}
	if t.Redundant {
		s += " redundant"
	}
	return s
}

func showRow(t *idb.Table, vals []idb.Val) string {
	s := ""
	for i, v := range vals {
		if i > 0 {
			s += ", "
		}
		if i == 10 {
			return s + "..."
		}
		s += t.Cols[i].Show(v)
	}
	return s
}

func summaryData(c *DataCase) interface{} {
	t := c.tab()
	m := map[string]interface{}{"table": showTable(t), "tables": len(c.Tabs)}
	if c.TZ != "" {
		m["zone"] = c.TZ
	}
	var ps []string
	for _, p := range c.Pages {
		n := map[string]int{}
		for _, r := range p.Rows {
			n[r.State]++
		}
		b, _ := json.Marshal(n)
		ps = append(ps, fmt.Sprintf("%s %s", p.Kind, b))
		if len(ps) > 8 {
			break
		}
	}
	m["pages"] = ps
	var rs []string
	for _, p := range c.Pages {
		for _, r := range p.Rows {
			if len(rs) < 3 {
				rs = append(rs, r.State+": "+showRow(t, r.Vals))
			}
		}
	}
	m["rows"] = rs
	return m
}

// observe counts what a data case exercises.
func observe(c *DataCase, o *Obs) (live, free int) {
	t := c.tab()
	for _, p := range c.Pages {
		o.Class("page %s", p.Kind)
		if p.Kind != "leaf" {
			continue
		}
		l, f := 0, 0
		for _, r := range p.Rows {
			switch r.State {
			case "live":
				l++
			case "free":
				f++
			}
		}
		live += l
		free += f
		switch {
		case len(p.Rows) == 0:
			o.Class("empty leaf page")
		case l == 0 && f > 0:
			o.Class("leaf page with deleted rows only")
		case f == 0:
			o.Class("leaf page without deleted rows")
		default:
			o.Class("leaf page with live and deleted rows")
		}
		o.ClassIf(len(p.Rows) > 50, "leaf page with more than 50 records")
	}
	o.ClassIf(len(c.Pages) > 60, "more than 60 pages")
	o.ClassIf(len(c.Pages) > 250, "more than 250 pages")
	o.ClassIf(t.Redundant, "REDUNDANT")
	o.ClassIf(!t.Redundant, "COMPACT")
	o.Class("key %s", t.Key)
	return
}
