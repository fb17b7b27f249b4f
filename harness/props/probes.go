package props

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"verif/idb"
)

// The inputs behind the entries of KNOWN_FINDINGS.txt. Each probe gives "" when
// the tool does what it should.

// probe runs f with a time limit; the generated cases judge hangs and crashes.
func probe(f func() string) func() string {
	return func() string {
		ch := make(chan string, 1)
		go func() {
			defer func() {
				if recover() != nil {
					ch <- ""
				}
			}()
			ch <- f()
		}()
		select {
		case s := <-ch:
			return s
		case <-time.After(30 * time.Second):
			return ""
		}
	}
}

func probeTab(cols ...idb.Col) idb.Table {
	return idb.Table{Schema: "test", Name: "t", Cols: cols, Key: "primary", KeyCols: []int{0}, ID: 40, Space: 5, ClustID: 81}
}

func probePrint(tb idb.Table, pages ...[]byte) Ran {
	dict := writeFile("ibdata1", idb.File(idb.BuildDict([]idb.Table{tb}, idb.DictLayout{})))
	head := [][]byte{idb.Seal(idb.NewPage(0, tb.Space, idb.TypeFspHdr)), idb.Seal(idb.NewPage(1, tb.Space, idb.TypeIbufBmp)), idb.Seal(idb.NewPage(2, tb.Space, idb.TypeInode))}
	return runData(dict, writeFile("t.ibd", idb.File(append(head, pages...))), tb.Schema, tb.Name, false)
}

var idCol = idb.Col{Name: "id", Kind: "int", Size: 4}

// DECIMAL(10,2) 123.45
func probeDecimal() string {
	tb := probeTab(idCol, idb.Col{Name: "d", Kind: "decimal", Size: 5})
	p := Page{Kind: "leaf", Rows: []Row{{Vals: []idb.Val{{N: 1}, {B: []byte{0x80, 0, 0, 123, 45}}}, State: "live"}}}
	r := probePrint(tb, leafPage(&tb, &p, 3, 0, 0))
	if r.ok("") == nil && bytes.Contains(r.Out, []byte("123.45")) {
		return ""
	}
	return fmt.Sprintf("DECIMAL(10,2) 123.45 is printed as %.80q", strings.TrimSpace(string(r.Out)))
}

// a BLOB of 2000 bytes whose first 768 bytes are on the page of the row
func probeExternal() string {
	tb := probeTab(idCol, idb.Col{Name: "b", Kind: "blob", Size: 2})
	val := bytes.Repeat([]byte("0123456789"), 200)
	local := append([]byte(nil), val[:768]...)
	ref := make([]byte, 20)
	ref[3], ref[7], ref[11] = 5, 4, 38 // space, page, offset
	ref[18], ref[19] = byte((len(val)-768)>>8), byte((len(val)-768)&0xff)
	rec := tb.Encode([]idb.Val{{N: 1}, {B: append(local, ref...)}}, idb.Sys{RowID: 1, Trx: 5, Roll: 6})
	rec.Extra[1] |= 0x40 // the lengths lie in reverse order: low byte, then the byte with the flags
	x := idb.Index{No: 3, Space: 5, IndexID: tb.ClustID, Heap: []idb.Placed{{Rec: rec}}, Live: []int{0}}
	b := idb.NewPage(4, 5, idb.TypeBlob)
	copy(b[46:], val[768:])
	b[40], b[41] = byte((len(val)-768)>>8), byte((len(val)-768)&0xff)
	for i := 42; i < 46; i++ {
		b[i] = 0xff
	}
	r := probePrint(tb, x.Build(), idb.Seal(b))
	if r.ok("") == nil {
		if got, err := readReplace(&tb, r.Out); err == nil && len(got) == 1 && got[0] == canonRow(&tb, []idb.Val{{N: 1}, {B: val}}) {
			return ""
		}
	}
	return fmt.Sprintf("a BLOB of 2000 bytes, 768 of them in the row, is printed in %d bytes of output", len(r.Out))
}

func probeRedo(tb idb.Table, u *idb.Undo) Ran {
	dict := writeFile("ibdata1", idb.File(idb.BuildDict([]idb.Table{tb}, idb.DictLayout{})))
	b, _ := stream([]idb.Table{tb}, []idb.LogRec{{T: idb.MlogUndoInsert, Undo: u}})
	return runRedo(dict, writeLogs(logFiles(b, LogCut{})), "", "")
}

// an update of a table without a key
func probeNoKey() string {
	tb := probeTab(idCol)
	tb.Key, tb.KeyCols = "none", nil
	r := probeRedo(tb, &idb.Undo{Type: 12, UndoNo: 1, Trx: 5, Roll: 6, RowID: 7, Upd: []idb.UpdField{{Col: 0, Val: idb.Val{N: 3}}}})
	if len(r.Out) == 0 || !bytes.Contains(r.Out, []byte("DB_ROW_ID")) {
		return ""
	}
	return fmt.Sprintf("printed %.120q", strings.TrimSpace(string(r.Out)))
}

// an update of a table whose primary key is a prefix of two characters
func probePrefixKey() string {
	tb := probeTab(idb.Col{Name: "a", Kind: "varchar", Size: 20, CS: 8}, idb.Col{Name: "b", Kind: "int", Size: 4})
	tb.KeyPre = []int{2}
	r := probeRedo(tb, &idb.Undo{Type: 12, UndoNo: 1, Trx: 5, Roll: 6, Key: []idb.Val{{B: []byte("abcdef")}}, Upd: []idb.UpdField{{Col: 1, Val: idb.Val{N: 3}}}})
	if !bytes.Contains(r.Out, []byte("`a`='ab'")) {
		return ""
	}
	return fmt.Sprintf("printed %.120q", strings.TrimSpace(string(r.Out)))
}
