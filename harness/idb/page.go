package idb

import (
	"encoding/binary"
	"hash/crc32"
)

// PageSize is the only page size the tool supports.
const PageSize = 16384

// Page types.
const (
	TypeIndex     = 17855
	TypeAllocated = 0
	TypeUndo      = 2
	TypeInode     = 3
	TypeIbufFree  = 4
	TypeIbufBmp   = 5
	TypeSys       = 6
	TypeTrxSys    = 7
	TypeFspHdr    = 8
	TypeXdes      = 9
	TypeBlob      = 10
)

func put2(b []byte, n int)    { binary.BigEndian.PutUint16(b, uint16(n)) }
func put4(b []byte, n uint32) { binary.BigEndian.PutUint32(b, n) }
func put8(b []byte, n uint64) { binary.BigEndian.PutUint64(b, n) }

// NewPage makes an empty page with a file header.
func NewPage(no, space uint32, typ int) []byte {
	p := make([]byte, PageSize)
	put4(p[4:], no)
	put4(p[8:], 0xffffffff)
	put4(p[12:], 0xffffffff)
	put8(p[16:], 1000000+uint64(no)*4096)
	put2(p[24:], typ)
	put4(p[34:], space)
	return p
}

// Seal writes the page checksums.
func Seal(p []byte) []byte {
	tab := crc32.MakeTable(crc32.Castagnoli)
	c := crc32.Checksum(p[4:26], tab) ^ crc32.Checksum(p[38:PageSize-8], tab)
	if c%4 == 0 { // innodb_checksum_algorithm=none
		c = 0xdeadbeef
	}
	put4(p[0:], c)
	put4(p[PageSize-8:], c)
	copy(p[PageSize-4:], p[20:24])
	return p
}

// Placed is a record on a page.
type Placed struct {
	Rec
	Info   byte // info bits, 0x20 = delete mark, 0x10 = min rec
	Status byte // COMPACT: 0 ordinary, 1 node pointer
	Gap    int  // unused bytes before the record
}

// Index describes an index page.
type Index struct {
	No, Space  uint32
	Prev, Next uint32
	IndexID    uint64
	Level      int
	MaxTrx     uint64
	Redundant  bool
	Heap       []Placed
	Live       []int // heap positions in chain order
	Free       []int // heap positions in free-list order
	ReuseHole  int   // bytes counted as garbage in addition (0 = none)
}

// HeapStart is where user records begin.
func HeapStart(redundant bool) int {
	if redundant {
		return 125
	}
	return 120
}

// Room is the number of bytes available to records on a page (leaving space
// for a full directory).
func Room(redundant bool, n int) int {
	return PageSize - 8 - HeapStart(redundant) - 2*(n+2) - 16
}

// Tight is the number of bytes records can take on a page with so many live
// ones at all.
func Tight(redundant bool, live int) int {
	return PageSize - 8 - HeapStart(redundant) - 2*(live/4+3)
}

// Build lays the page out.
func (x Index) Build() []byte {
	p := NewPage(x.No, x.Space, TypeIndex)
	if x.Prev != 0 {
		put4(p[8:], x.Prev)
	}
	if x.Next != 0 {
		put4(p[12:], x.Next)
	}
	inf, sup := 99, 112
	if x.Redundant {
		inf, sup = 101, 116
		copy(p[inf:], "infimum\x00")
		copy(p[sup:], "supremum\x00")
		p[inf-6-1] = 8 // field end offsets
		p[sup-6-1] = 9
	} else {
		copy(p[inf:], "infimum\x00")
		copy(p[sup:], "supremum")
	}
	pos := HeapStart(x.Redundant)
	org := make([]int, len(x.Heap))
	hdr := 5
	if x.Redundant {
		hdr = 6
	}
	garbage := x.ReuseHole
	isFree := map[int]bool{}
	for _, f := range x.Free {
		isFree[f] = true
	}
	for i, r := range x.Heap {
		pos += r.Gap
		copy(p[pos:], r.Extra)
		org[i] = pos + len(r.Extra) + hdr
		copy(p[org[i]:], r.Data)
		pos = org[i] + len(r.Data)
		if isFree[i] {
			garbage += r.Size(x.Redundant)
		}
	}
	if pos > PageSize-8-2*(len(x.Live)/4+3) {
		panic("page overflow")
	}
	setHdr := func(o int, info byte, owned, heapNo int, status byte, nf int, short bool, next int) {
		if x.Redundant {
			p[o-6] = info | byte(owned)
			s := 0
			if short {
				s = 1
			}
			v := heapNo<<11 | nf<<1 | s
			p[o-5], p[o-4], p[o-3] = byte(v>>16), byte(v>>8), byte(v)
			put2(p[o-2:], next)
			return
		}
		p[o-5] = info | byte(owned)
		put2(p[o-4:], heapNo<<3|int(status))
		if next != 0 {
			next = (next - o) & 0xffff
		}
		put2(p[o-2:], next)
	}
	// live chain and directory
	chain := []int{inf}
	for _, l := range x.Live {
		chain = append(chain, org[l])
	}
	chain = append(chain, sup)
	owned := make([]int, len(chain))
	slots := []int{inf}
	owned[0] = 1
	last := 0
	for i := 4; i < len(chain)-4; i += 4 {
		owned[i] = 4
		slots = append(slots, chain[i])
		last = i
	}
	owned[len(chain)-1] = len(chain) - 1 - last
	slots = append(slots, sup)
	for i, s := range slots {
		put2(p[PageSize-8-2*(i+1):], s)
	}
	setHdr(inf, 0, 1, 0, 2, 1, true, chain[1])
	setHdr(sup, 0, owned[len(chain)-1], 1, 3, 1, true, 0)
	for i, l := range x.Live {
		r := x.Heap[l]
		setHdr(org[l], r.Info, owned[i+1], l+2, r.Status, r.NFields, r.Short, chain[i+2])
	}
	live := map[int]bool{}
	for _, l := range x.Live {
		live[l] = true
	}
	free := 0
	for i, f := range x.Free {
		r := x.Heap[f]
		next := 0
		if i+1 < len(x.Free) {
			next = org[x.Free[i+1]]
		} else {
			next = 0
		}
		if i == 0 {
			free = org[f]
		}
		setHdr(org[f], r.Info, 0, f+2, r.Status, r.NFields, r.Short, next)
	}
	for i, r := range x.Heap {
		if !live[i] && !isFree[i] {
			setHdr(org[i], r.Info, 0, i+2, r.Status, r.NFields, r.Short, 0)
		}
	}
	// page header
	h := p[38:]
	put2(h[0:], len(slots))
	put2(h[2:], pos)
	nh := len(x.Heap) + 2
	if !x.Redundant {
		nh |= 0x8000
	}
	put2(h[4:], nh)
	put2(h[6:], free)
	put2(h[8:], garbage)
	// what says nothing about the records: LSN, last insert, segments
	vary := Rng(crc32.ChecksumIEEE(p))
	put8(p[16:], vary.Next()>>uint(8+vary.Intn(48)))
	if len(x.Live) > 0 && vary.Intn(3) > 0 {
		put2(h[10:], org[x.Live[vary.Intn(len(x.Live))]])
	}
	put2(h[12:], 1+vary.Intn(5))
	if vary.Intn(2) == 0 {
		put2(h[14:], vary.Intn(len(x.Heap)+1))
	}
	put2(h[16:], len(x.Live))
	put8(h[18:], x.MaxTrx)
	put2(h[26:], x.Level)
	put8(h[28:], x.IndexID)
	if x.Prev == 0 && x.Next == 0 || vary.Intn(8) == 0 { // only root pages have segment headers
		put4(h[36:], x.Space)
		put4(h[40:], 2)
		put2(h[44:], 50+192*vary.Intn(80))
		put4(h[46:], x.Space)
		put4(h[50:], uint32(2+vary.Intn(2)*vary.Intn(1<<20)))
		put2(h[54:], 50+192*vary.Intn(80))
	}
	return Seal(p)
}

// File puts pages at their positions; missing positions are zero pages.
func File(pages [][]byte) []byte {
	out := make([]byte, 0, len(pages)*PageSize)
	zero := make([]byte, PageSize)
	for _, p := range pages {
		if p == nil {
			p = zero
		}
		out = append(out, p...)
	}
	return out
}
