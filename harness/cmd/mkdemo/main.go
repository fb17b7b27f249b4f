// Command mkdemo writes the fixture files of a demonstration: a system
// tablespace, data files and redo logs made by hand for one planted change.
//
//	mkdemo NAME DIR     the files of scenario NAME, and DIR/cmds with the command lines
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/idb"
	"verif/props"
)

type scn struct {
	w     props.World
	cmds  []string
	tweak func(dir string)
}

// B is a byte-string value, N a number, NUL the NULL.
func B(s string) idb.Val { return idb.Val{B: []byte(s)} }
func N(n int64) idb.Val  { return idb.Val{N: uint64(n)} }

var NUL = idb.Val{Nul: true}

func col(name, kind string, size int) idb.Col { return idb.Col{Name: name, Kind: kind, Size: size} }
func ncol(name, kind string, size int) idb.Col {
	return idb.Col{Name: name, Kind: kind, Size: size, Null: true}
}
func ucol(name string, size int) idb.Col {
	return idb.Col{Name: name, Kind: "int", Size: size, Unsigned: true}
}
func cs(c idb.Col, id int) idb.Col { c.CS = id; return c }

// tab is a table with a primary key.
func tab(id int, schema, name string, key []int, cols ...idb.Col) idb.Table {
	t := idb.Table{ID: uint64(40 + id), Space: uint32(10 + id), Schema: schema, Name: name, Cols: cols, Key: "primary", KeyCols: key, ClustID: uint64(100 + 10*id)}
	if key == nil {
		t.Key = "none"
	}
	return t
}

var trx uint64 = 1000

// row in a state: live, free, dead, mark.
func row(st string, vals ...idb.Val) props.Row {
	trx++
	return props.Row{State: st, Vals: vals, Sys: idb.Sys{RowID: trx, Trx: trx, Roll: 0x80000001000000 + trx<<8}}
}
func leaf(rows ...props.Row) props.Page { return props.Page{Kind: "leaf", Rows: rows} }

// upd is the redo record of an update's undo record.
func upd(table int, key []idb.Val, set ...idb.UpdField) idb.LogRec {
	trx++
	return idb.LogRec{T: idb.MlogUndoInsert, Space: 0, Page: 300, Undo: &idb.Undo{Type: 12, UndoNo: trx % 7, Table: table, Trx: trx, Roll: 0x1000000 + trx, Key: key, Upd: set}}
}
func set(c int, v idb.Val) idb.UpdField { return idb.UpdField{Col: c, Val: v} }
func vals(v ...idb.Val) []idb.Val       { return v }

const (
	dataArgs = "recovery FromDataFile --SysDataFile ibdata1 --TableDataFile t%d.ibd --DBName %s --TableName %s --OpType %s"
)

func printCmd(i int, t idb.Table) string {
	return fmt.Sprintf(dataArgs, i, t.Schema, t.Name, "PrintData")
}
func recCmd(i int, t idb.Table) string {
	return fmt.Sprintf(dataArgs, i, t.Schema, t.Name, "RecoveryData")
}
func redoCmd(more string) string {
	return "recovery FromRedoFile --SysDataFile ibdata1 --RedoFile log0_0" + more
}

// one is a scenario with one table.
func one(t idb.Table, pages ...props.Page) scn {
	return scn{w: props.World{Tabs: []idb.Table{t}, Pages: [][]props.Page{pages}}, cmds: []string{printCmd(0, t), recCmd(0, t)}}
}

// logged is a scenario with a redo log.
func logged(tabs []idb.Table, recs ...idb.LogRec) scn {
	return scn{w: props.World{Tabs: tabs, Pages: make([][]props.Page, len(tabs)), Logs: [][]idb.LogRec{recs}, Cut: []props.LogCut{{}}}, cmds: []string{redoCmd("")}}
}

func edit(dir, file string, f func(b []byte) []byte) {
	p := filepath.Join(dir, file)
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, f(b), 0o644); err != nil {
		panic(err)
	}
}

func main() {
	if len(os.Args) < 3 {
		for n := range scns {
			fmt.Println(n)
		}
		return
	}
	f, ok := scns[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no scenario", os.Args[1])
		os.Exit(2)
	}
	dir := os.Args[2]
	s := f()
	props.WriteWorld(&s.w, dir)
	if s.tweak != nil {
		s.tweak(dir)
	}
	if err := os.WriteFile(filepath.Join(dir, "cmds"), []byte(strings.Join(s.cmds, "\n")+"\n"), 0o644); err != nil {
		panic(err)
	}
}
