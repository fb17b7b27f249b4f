package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/idb"
	"verif/props"
)

func rep(s string, n int) string { return strings.Repeat(s, n) }

// nullTab has a key and n nullable INT columns.
func nullTab(id, n int) idb.Table {
	cols := []idb.Col{col("id", "int", 4)}
	for i := 0; i < n; i++ {
		cols = append(cols, ncol("c"+string(rune('a'+i)), "int", 4))
	}
	return tab(id, "shop", "flags", []int{0}, cols...)
}

func people(id int) idb.Table {
	return tab(id, "shop", "people", []int{0}, col("id", "int", 4), cs(ncol("name", "varchar", 40), 33), ncol("age", "int", 2))
}

var scns = map[string]func() scn{
	// every row of the page is deleted
	"allfree": func() scn {
		return one(people(1),
			leaf(row("free", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)),
			leaf(row("live", N(3), B("cid"), N(7)), row("free", N(4), B("dee"), N(8))))
	},
	// rows larger than 4 KB, chained downwards
	"backlinks": func() scn {
		t := tab(1, "shop", "docs", []int{0}, col("id", "int", 4), cs(ncol("body", "text", 2), 33))
		p := leaf(row("live", N(3), B(rep("c", 4700))), row("live", N(2), B(rep("b", 4700))), row("live", N(1), B(rep("a", 4700))), row("free", N(9), B("x")))
		p.LiveSeed = 2
		return one(t, p, leaf(row("live", N(11), B("tail"))))
	},
	"emptyleaf": func() scn {
		return one(people(1),
			leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)),
			leaf(row("free", N(5), B("gone"), N(7))),
			leaf(row("live", N(6), B("eve"), N(7))),
			leaf(row("free", N(8), B("fay"), N(7)), row("live", N(9), B("gus"), N(7))))
	},
	"smallintmin": func() scn {
		t := tab(1, "shop", "nums", []int{0}, col("id", "int", 4), col("a", "int", 2), col("b", "int", 1))
		return one(t, leaf(row("live", N(1), N(-32768), N(-128)), row("live", N(2), N(-32767), N(-127)), row("live", N(3), N(32767), N(127)), row("free", N(4), N(-32768), N(0))))
	},
	"longtime": func() scn {
		t := tab(1, "shop", "spans", []int{0}, col("id", "int", 4), col("t", "time", 0), ncol("u", "int", 4))
		return one(t, leaf(row("live", N(1), N(838*3600+59*60+59), N(5)), row("live", N(2), N(-(512*3600+1)), NUL), row("live", N(3), N(511*3600), N(7)), row("free", N(4), N(700*3600), N(1))))
	},
	"leadblank": func() scn {
		t := tab(1, "shop", "codes", []int{0}, col("id", "int", 4), cs(col("code", "char", 10), 33), cs(col("note", "varchar", 20), 33))
		return one(t, leaf(row("live", N(1), B("ab"), B("x")), row("live", N(2), B("  cd"), B(" y ")), row("live", N(3), B("\tef\n"), B("z"))))
	},
	"longvalue": func() scn {
		t := tab(1, "shop", "docs", []int{0}, col("id", "int", 4), cs(ncol("body", "text", 2), 33), ncol("n", "int", 4))
		return one(t, leaf(row("live", N(1), B(rep("a", 4095)), N(1)), row("live", N(2), B(rep("b", 5000)), N(2)), row("free", N(3), B("c"), N(3))))
	},
	"eightnulls": func() scn {
		t := nullTab(1, 8)
		v := vals(N(1), N(10), NUL, N(12), NUL, N(14), N(15), NUL, N(17))
		w := vals(N(2), NUL, NUL, NUL, NUL, NUL, NUL, NUL, NUL)
		return one(t, leaf(row("live", v...), row("live", w...), row("free", append(vals(N(3)), v[1:]...)...)))
	},
	"ninenulls": func() scn {
		t := nullTab(1, 10)
		v := vals(N(1), N(10), NUL, N(12), NUL, N(14), N(15), NUL, N(17), NUL, N(19))
		w := vals(N(2), N(1), N(2), N(3), N(4), N(5), N(6), N(7), N(8), N(9), NUL)
		return one(t, leaf(row("live", v...), row("live", w...), row("free", append(vals(N(3)), v[1:]...)...)))
	},
	"eightvar": func() scn {
		t := nullTab(1, 7)
		t.Cols = append(t.Cols, cs(ncol("name", "varchar", 20), 33))
		v := vals(N(1), N(10), NUL, N(12), NUL, N(14), N(15), NUL, B("abc"))
		w := vals(N(2), NUL, NUL, NUL, NUL, NUL, NUL, NUL, B("defgh"))
		return one(t, leaf(row("live", v...), row("live", w...), row("free", append(vals(N(3)), v[1:]...)...)))
	},
	"upperhalf": func() scn {
		t := tab(1, "shop", "docs", []int{0}, col("id", "int", 4), cs(ncol("body", "text", 2), 33))
		return one(t, leaf(row("live", N(1), B(rep("a", 4500))), row("live", N(2), B(rep("b", 4500))), row("free", N(3), B("cc")), row("live", N(4), B("d"))))
	},
	// two dictionaries with different definitions of the same table
	"twodicts": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("ann"), N(31))))
		s.tweak = func(dir string) {
			t := tab(3, "shop", "people", []int{0}, col("id", "int", 4), cs(ncol("first", "varchar", 40), 33), cs(ncol("last", "varchar", 40), 33), ncol("n", "int", 8))
			o := one(t, leaf(row("live", N(1), B("x"), B("y"), N(7))))
			props.WriteWorldAs(&o.w, dir, "b_")
		}
		return s
	},
	// a composite key whose SYS_FIELDS rows lie on leaf pages in reverse order
	"splitfields": func() scn {
		t := tab(1, "shop", "grid", []int{2, 0, 1}, col("a", "int", 4), col("b", "int", 2), cs(col("c", "varchar", 10), 33), col("d", "int", 8))
		s := one(t, leaf(row("live", N(1), N(2), B("x"), N(4)), row("live", N(5), N(6), B("y"), N(8)), row("free", N(50), N(60), B("z"), N(80))))
		s.w.Layout = idb.DictLayout{PerPage: [4]int{0, 0, 0, 1}, Shuffle: true, Seed: 5}
		s.w.Logs = [][]idb.LogRec{{upd(0, vals(B("x"), N(1), N(2)), set(3, N(40)))}}
		s.w.Cut = []props.LogCut{{}}
		s.cmds = append(s.cmds, redoCmd(""))
		return s
	},
	"splitcolumns": func() scn {
		t := tab(1, "shop", "wide", []int{0}, col("a", "int", 4), cs(col("b", "varchar", 10), 33), col("c", "int", 8), col("d", "int", 2), cs(col("e", "varchar", 300), 33))
		s := one(t, leaf(row("live", N(1), B("two"), N(3), N(4), B("five")), row("free", N(9), B("ten"), N(30), N(40), B("fifty"))))
		s.w.Layout = idb.DictLayout{PerPage: [4]int{0, 2, 0, 0}, Shuffle: true, Seed: 5}
		return s
	},
	"redundant": func() scn {
		t := people(1)
		t.Redundant = true
		return one(t, leaf(row("live", N(1), B("ann"), N(31)), row("live", N(2), NUL, N(1)), row("free", N(3), B("cid"), NUL)))
	},
	// REDUNDANT records over 127 bytes use two-byte offsets
	"redundantlong": func() scn {
		t := people(1)
		t.Redundant = true
		t.Cols = append(t.Cols, cs(ncol("bio", "text", 2), 33))
		u := tab(2, "shop", "odd", []int{0}, col("id", "int", 4), cs(ncol("bio", "varchar", 200), 33), ncol("n", "int", 4))
		u.Redundant = true
		w := tab(3, "shop", "even", []int{0}, col("id", "int", 4), cs(ncol("bio", "varchar", 200), 33))
		w.Redundant = true
		s := one(t, leaf(row("live", N(1), B("ann"), N(31), B(rep("q", 300))), row("live", N(2), NUL, N(1), NUL), row("free", N(3), B("cid"), NUL, B(rep("r", 140)))))
		s.w.Tabs = append(s.w.Tabs, u, w)
		s.w.Pages = append(s.w.Pages, []props.Page{leaf(row("live", N(1), B(rep("q", 300)), N(7)), row("live", N(2), B("s"), NUL), row("free", N(3), B(rep("r", 140)), NUL))})
		s.w.Pages = append(s.w.Pages, []props.Page{leaf(row("live", N(1), B(rep("q", 300))), row("live", N(2), B("s")), row("free", N(3), B(rep("r", 140))))})
		s.cmds = append(s.cmds, printCmd(1, u), recCmd(1, u), printCmd(2, w), recCmd(2, w))
		return s
	},
	"backslash": func() scn {
		s := one(people(1), leaf(row("live", N(1), B(`C:\temp`), N(31)), row("live", N(2), B(`ends with \`), N(1)), row("live", N(3), B(`it's \ "both"`), N(1)), row("free", N(4), B(`\N`), NUL)))
		s.w.Logs = [][]idb.LogRec{{upd(0, vals(N(1)), set(1, B(`D:\`)))}}
		s.w.Cut = []props.LogCut{{}}
		s.cmds = append(s.cmds, redoCmd(""))
		return s
	},
	// a secondary index page whose records look like rows
	"secpage": func() scn {
		t := people(1)
		sec := leaf(row("live", N(1), B("ghost"), N(31)), row("free", N(2), B("ghost2"), NUL))
		sec.Kind = "secmax"
		s := one(t, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)), sec)
		s.tweak = func(dir string) {
			edit(dir, "t0.ibd", func(b []byte) []byte { // PAGE_MAX_TRX_ID = 0x30000
				p := b[4*16384:]
				copy(p[38+18:], []byte{0, 0, 0, 0, 0, 3, 0, 0})
				return b
			})
		}
		return s
	},
	// page numbers that agree in the low 16 bits
	"highpages": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)), leaf(row("live", N(3), B("cid"), N(31)), row("free", N(4), B("dee"), NUL)))
		s.tweak = func(dir string) {
			edit(dir, "t0.ibd", func(b []byte) []byte { // page 4 becomes page 0x10003
				copy(b[4*16384+4:], []byte{0, 1, 0, 3})
				return b
			})
		}
		return s
	},
	"namecase": func() scn {
		t := people(1)
		u := people(2)
		u.Name = "People"
		s := one(t, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
		s.cmds = append(s.cmds, printCmd(0, u), recCmd(0, u), strings.Replace(printCmd(0, t), "shop", "SHOP", 1))
		return s
	},
	// the page header of a middle page is damaged
	"badfree": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)), leaf(row("live", N(5), B("eve"), N(31)), row("free", N(6), B("fay"), NUL)), leaf(row("live", N(7), B("gus"), N(31)), row("free", N(8), B("hal"), N(3))))
		s.tweak = func(dir string) {
			edit(dir, "t0.ibd", func(b []byte) []byte {
				copy(b[4*16384+38+6:], []byte{0xe1, 0x17})
				return b
			})
		}
		return s
	},
	// columns behind position 127
	"widetable": func() scn {
		var cols []idb.Col
		for i := 0; i < 140; i++ {
			cols = append(cols, ncol("c"+string(rune('a'+i/26))+string(rune('a'+i%26)), "int", 4))
		}
		cols[0].Null = false
		t := tab(1, "shop", "wide", []int{0}, cols...)
		return logged([]idb.Table{t, people(2)}, upd(0, vals(N(1)), set(3, N(33)), set(126, N(1260)), set(139, N(1390))), upd(1, vals(N(2)), set(2, N(3))))
	},
	"zipreorg": func() scn {
		zip := func(seed int) idb.LogRec {
			return idb.LogRec{T: idb.MlogZipReorg, Space: 11, Page: 4, Seed: uint64(seed)}
		}
		t := people(1)
		return logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), zip(1), upd(0, vals(N(2)), set(2, N(4))), zip(2), upd(0, vals(N(3)), set(1, B("x"))), zip(3), upd(0, vals(N(4)), set(1, B("y"))), zip(4), zip(5), zip(6), zip(7), upd(0, vals(N(5)), set(1, NUL)))
	},
	// the undo record spans two log files
	"twofiles": func() scn {
		t := people(1)
		t.Cols[1].Size = 2000
		s := logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B(rep("long ", 300)))), upd(0, vals(N(3)), set(2, N(4))))
		s.w.Cut = []props.LogCut{{Files: []int{1, 1}}}
		s.cmds = []string{redoCmd(",log0_1")}
		return s
	},
	"twoschemas": func() scn {
		a, b := people(1), people(2)
		b.Schema = "shop_old"
		s := logged([]idb.Table{a, b}, upd(0, vals(N(1)), set(2, N(3))), upd(1, vals(N(2)), set(2, N(4))), upd(0, vals(N(3)), set(1, B("x"))))
		s.cmds = []string{redoCmd(""), redoCmd(" --DBName shop"), redoCmd(" --DBName shop_old"), redoCmd(" --DBName shop --TableName people"), redoCmd(" --TableName people"), redoCmd(" --DBName sho --TableName people"), redoCmd(" --DBName s")}
		return s
	},
	"logend": func() scn {
		t := people(1)
		s := logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(2, N(4))))
		s.tweak = func(dir string) { // the file ends with the record, not with its block
			edit(dir, "log0_0", func(b []byte) []byte {
				n := int(b[2048+4])<<8 | int(b[2048+5])
				return b[:2048+n]
			})
		}
		return s
	},
	// bytes that are no record between records, as after an overwritten range
	"damagedlog": func() scn {
		t := people(1)
		s := logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(2, N(4))), upd(0, vals(N(3)), set(2, N(5))))
		s.tweak = func(dir string) {
			edit(dir, "log0_0", func(b []byte) []byte {
				n := int(b[2048+4])<<8 | int(b[2048+5])
				for i := 2048 + n - 12; i < 2048+n; i++ {
					b[i] = 0xf7
				}
				return b
			})
		}
		return s
	},
	"compositewhere": func() scn {
		t := tab(1, "shop", "grid", []int{1, 0}, col("a", "int", 4), cs(col("b", "varchar", 10), 33), ncol("c", "int", 8), ncol("d", "int", 8))
		return logged([]idb.Table{t, people(2)}, upd(0, vals(B("x"), N(1)), set(2, N(40))), upd(0, vals(B("y"), N(2)), set(2, NUL), set(3, N(9))), upd(1, vals(N(2)), set(2, N(3)), set(1, B("z"))))
	},
	"optypes": func() scn {
		t := people(1)
		s := one(t, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
		s.cmds = append(s.cmds, strings.Replace(printCmd(0, t), "PrintData", "RecoveryStruct", 1), strings.Replace(printCmd(0, t), " --OpType PrintData", "", 1), "--OpType RecoveryData "+strings.Replace(printCmd(0, t), " --OpType PrintData", "", 1))
		return s
	},
	"years": func() scn {
		t := tab(1, "shop", "cars", []int{0}, col("id", "int", 4), col("built", "year", 1), ncol("sold", "year", 1))
		return one(t, leaf(row("live", N(1), N(1999), N(2027)), row("live", N(2), N(2028), NUL), row("live", N(3), N(1901), N(2155)), row("free", N(4), N(2100), N(0))))
	},
	"max255": func() scn {
		t := tab(1, "shop", "codes", []int{0}, col("id", "int", 4), cs(col("v", "varchar", 255), 8), cs(col("w", "varchar", 256), 8), ncol("n", "int", 4))
		return one(t, leaf(row("live", N(1), B(rep("a", 127)), B(rep("b", 127)), N(1)), row("live", N(2), B(rep("c", 200)), B(rep("d", 201)), NUL), row("free", N(3), B(rep("e", 255)), B(rep("f", 256)), N(7))))
	},
	"badutf8": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("caf\xe9"), N(31)), row("live", N(2), B("\xff'\xfe"), N(1)), row("free", N(4), B("\\\xc3"), NUL)))
		s.w.Logs = [][]idb.LogRec{{upd(0, vals(N(1)), set(1, B("\xe4'")))}}
		s.w.Cut = []props.LogCut{{}}
		s.cmds = append(s.cmds, redoCmd(""))
		return s
	},
	// the page format flag of the first page is damaged
	"badheader": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)), leaf(row("live", N(5), B("eve"), N(31)), row("free", N(6), B("fay"), NUL)), leaf(row("live", N(7), B("gus"), N(31)), row("free", N(8), B("hal"), N(3))))
		s.tweak = func(dir string) {
			edit(dir, "t0.ibd", func(b []byte) []byte {
				p := b[3*16384:]
				for i := 120; i < 16384-8; i++ { // what is left of the records does not print
					p[i] = 0
				}
				p[38+4] &= 0x7f
				p[99-2], p[99-1] = 0, 0
				return b
			})
		}
		return s
	},
	"undono": func() scn {
		t := people(1)
		a, b := upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B("x")))
		a.Undo.UndoNo, b.Undo.UndoNo = 1<<32+7, 1<<40
		return logged([]idb.Table{t}, upd(0, vals(N(9)), set(2, N(1))), a, b)
	},
	"cmplinfo": func() scn {
		t := people(1)
		a, b, c := upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B("x"))), upd(0, vals(N(3)), set(1, B("y")))
		a.Undo.Cmpl, b.Undo.Cmpl = 1, 3
		return logged([]idb.Table{t}, a, b, c)
	},
	"liststart": func() scn {
		del := func(seed, ty int) idb.LogRec {
			return idb.LogRec{T: ty, Space: 11, Page: 4, Seed: uint64(seed)}
		}
		t := people(1)
		return logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), del(1, 44), upd(0, vals(N(2)), set(2, N(4))), del(2, 44), del(3, 43), upd(0, vals(N(3)), set(1, B("x"))), del(3, 44), upd(0, vals(N(4)), set(1, B("y"))), del(4, 44), del(5, 44), del(6, 44), upd(0, vals(N(5)), set(1, NUL)))
	},
	"create2": func() scn {
		f := func(seed, n int) idb.LogRec {
			return idb.LogRec{T: 47, Space: 11, Page: 4, Seed: uint64(seed), N: n}
		}
		t := people(1)
		return logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), f(1, 20), upd(0, vals(N(2)), set(2, N(4))), f(2, 13), upd(0, vals(N(3)), set(1, B("x"))), f(3, 30), upd(0, vals(N(4)), set(1, B("y"))))
	},
	"twofiles1": func() scn {
		t := people(1)
		t.Cols[1].Size = 2000
		s := logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B(rep("long ", 300)))), upd(0, vals(N(3)), set(2, N(4))))
		// no group of records starts in the second and third block
		s.tweak = func(dir string) {
			edit(dir, "log0_0", func(b []byte) []byte {
				for i, o := range []int{19, 0, 0} {
					b[2048+512*i+6], b[2048+512*i+7] = 0, byte(o)
				}
				return b
			})
		}
		return s
	},
	"selectone": func() scn {
		a, b := people(1), people(2)
		b.Schema = "shop_old"
		g := tab(3, "shop", "grid", []int{1, 0}, col("a", "int", 4), cs(col("b", "varchar", 10), 33), ncol("c", "int", 8))
		s := logged([]idb.Table{a, b, g}, upd(0, vals(N(1)), set(2, N(3))), upd(1, vals(N(2)), set(2, N(4))), upd(2, vals(B("k"), N(3)), set(2, N(1))))
		s.cmds = []string{redoCmd(""), redoCmd(" --DBName shop"), redoCmd(" --TableName people"), redoCmd(" --TableName grid"), redoCmd(" --DBName shop --TableName people"), redoCmd(" --TableName none")}
		return s
	},
	"cutvalue": func() scn {
		t := people(1)
		s := logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B("abcdefghij"))))
		s.tweak = func(dir string) {
			edit(dir, "log0_0", func(b []byte) []byte {
				n := int(b[2048+4])<<8 | int(b[2048+5])
				return b[:2048+n-4]
			})
		}
		return s
	},
	// an insert record whose length field is damaged behind the updates
	"badinsert": func() scn {
		t := people(1)
		s := logged([]idb.Table{t}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(2, N(4))), idb.LogRec{T: 9, Space: 11, Page: 4, Seed: 1, N: 20}, upd(0, vals(N(3)), set(2, N(5))))
		s.tweak = func(dir string) {
			edit(dir, "log0_0", func(b []byte) []byte {
				p := bytes.Index(b[2048:], []byte{9, 11, 4})
				if p < 0 {
					p = bytes.Index(b[2048:], []byte{0x89, 11, 4})
				}
				for i := p + 3; i < p+30; i++ {
					b[2048+i] = 0xff
				}
				return b
			})
		}
		return s
	},
	"binkey": func() scn {
		t := tab(1, "shop", "tokens", []int{0}, col("token", "varbinary", 16), ncol("uses", "int", 4))
		u := tab(2, "shop", "hashes", []int{1, 0}, col("id", "int", 4), col("hash", "binary", 4), ncol("body", "blob", 2))
		return logged([]idb.Table{t, u}, upd(0, vals(B("\x00\xffab")), set(1, N(3))), upd(1, vals(B("\x01\x02'\x04"), N(7)), set(2, B("\x00\x01"))))
	},
	"bigids": func() scn {
		a, b := people(1), tab(2, "shop", "nums", []int{0}, col("id", "int", 4), col("n", "int", 8))
		b.ID = a.ID + 1<<32
		s := one(a, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
		s.w.Tabs = append(s.w.Tabs, b)
		s.w.Pages = append(s.w.Pages, []props.Page{leaf(row("live", N(1), N(-5)), row("free", N(2), N(6)))})
		s.cmds = append(s.cmds, printCmd(1, b), recCmd(1, b))
		return s
	},
	// a root page with two leaves behind a secondary index page
	"secfirst": func() scn {
		t := people(1)
		sec := leaf(row("live", N(1), B("ghost"), N(31)), row("free", N(2), B("ghost2"), NUL))
		sec.Kind = "secmax"
		return one(t, sec, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)), leaf(row("live", N(3), B("cid"), N(31)), row("free", N(4), B("dee"), NUL)))
	},
	"prefixfiles": func() scn {
		t := people(1)
		s := scn{w: props.World{Tabs: []idb.Table{t}, Pages: make([][]props.Page, 1), Logs: [][]idb.LogRec{{upd(0, vals(N(1)), set(2, N(3)))}, {upd(0, vals(N(2)), set(2, N(4)))}}, Cut: []props.LogCut{{}, {}}}}
		s.tweak = func(dir string) {
			for a, b := range map[string]string{"log0_0": "redo1.old", "log1_0": "redo1"} {
				if err := os.Rename(filepath.Join(dir, a), filepath.Join(dir, b)); err != nil {
					panic(err)
				}
			}
		}
		c := "recovery FromRedoFile --SysDataFile ibdata1 --RedoFile "
		s.cmds = []string{c + "redo1", c + "redo1.old,redo1", c + "redo1,redo1.old", c + "redo1,redo1"}
		return s
	},
	"samename": func() scn {
		a, b := people(1), people(2)
		b.Schema = "old"
		s := one(a, leaf(row("live", N(1), B("ann"), N(31))))
		s.w.Tabs = append(s.w.Tabs, b)
		s.w.Pages = append(s.w.Pages, []props.Page{leaf(row("live", N(1), B("zoe"), N(7)))})
		return s
	},
	// a page full of deleted rows, the last one was deleted last
	"lastbytes": func() scn {
		t := tab(1, "shop", "tiny", []int{0}, ucol("n", 2))
		p := props.Page{Kind: "leaf", FreeSeed: 1}
		for i := int64(0); i < 812; i++ {
			p.Rows = append(p.Rows, row("free", N(i)))
		}
		return one(t, p, leaf(row("live", N(2000)), row("free", N(2001))))
	},
	// the last row of a page lies just before the page directory
	"lastplace": func() scn {
		t := tab(1, "shop", "tiny", []int{0}, ucol("n", 2))
		a, b := row("live", N(1)), row("live", N(2))
		b.Gap = 16384 - 8 - 120 - 6 - 40
		return one(t, leaf(a, b), leaf(row("live", N(3)), row("free", N(4))))
	},
	"longnames": func() scn {
		f := func(seed, n int) idb.LogRec {
			return idb.LogRec{T: idb.MlogFileName, Space: 11, Page: 0, Seed: uint64(seed), N: n}
		}
		return logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(2, N(3))), f(1, 20), upd(0, vals(N(2)), set(2, N(4))), f(2, 254), upd(0, vals(N(3)), set(1, B("x"))), f(3, 300), upd(0, vals(N(4)), set(1, B("y"))))
	},
	// log files of MySQL 5.6 with an LSN of more than 4 GB
	"oldheader": func() scn {
		s := logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B("x"))))
		s.tweak = func(dir string) {
			edit(dir, "log0_0", func(b []byte) []byte {
				copy(b, []byte{0, 0, 0, 0, 0, 0, 0, 3, 0x40, 0, 0x20, 0, 0, 0, 0, 0})
				copy(b[16:512], make([]byte, 496))
				copy(b[16:], "    ")
				return b
			})
		}
		return s
	},
	"dbcols": func() scn {
		t := tab(1, "shop", "hosts", []int{0}, col("id", "int", 4), cs(ncol("DB_HOST", "varchar", 40), 33), ncol("db_trx_id_seen", "int", 4), ncol("n", "int", 2))
		return one(t, leaf(row("live", N(1), B("a"), N(5), N(6)), row("live", N(2), NUL, NUL, N(7)), row("free", N(3), B("c"), N(8), N(9))))
	},
	"longset": func() scn {
		t := nullTab(1, 80)
		for i := range t.Cols {
			t.Cols[i].Name = fmt.Sprintf("c%02d", i)
		}
		var f []idb.UpdField
		for i := 1; i <= 80; i++ {
			f = append(f, set(i, N(int64(i))))
		}
		return logged([]idb.Table{t}, upd(0, vals(N(1)), f[:20]...), upd(0, vals(N(2)), f...), upd(0, vals(N(3)), f[60:]...))
	},
	"reverselist": func() scn {
		s := logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B("x"))))
		s.tweak = func(dir string) {
			o := logged([]idb.Table{people(1)}, upd(0, vals(N(7)), set(2, N(8))))
			props.WriteWorldAs(&o.w, dir, "b_")
		}
		s.cmds = []string{redoCmd(",b_log0_0"), strings.Replace(redoCmd(""), "log0_0", "log0_0,b_log0_0", 1)}
		return s
	},
	"fullkey": func() scn {
		var cols []idb.Col
		var key []int
		var a, b []idb.Val
		for i := 0; i < 18; i++ {
			cols = append(cols, col(fmt.Sprintf("k%02d", i), "int", 2))
			a, b = append(a, N(int64(i))), append(b, N(int64(100+i)))
			if i < 16 {
				key = append(key, 15-i)
			}
		}
		return one(tab(1, "shop", "cube", key, cols...), leaf(row("live", a...), row("free", b...)))
	},
	"shortlast": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)), leaf(row("live", N(3), B("cid"), N(7)), row("free", N(4), B("dee"), N(8))))
		s.tweak = func(dir string) {
			edit(dir, "t0.ibd", func(b []byte) []byte { return append(b, make([]byte, 700)...) })
		}
		return s
	},
	"emptydb": func() scn {
		t, u := people(1), people(2)
		u.Name = "staff"
		s := one(t, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
		s.w.Tabs, s.w.Pages = append(s.w.Tabs, u), append(s.w.Pages, nil)
		s.cmds = append(s.cmds, strings.Replace(printCmd(0, t), "--DBName shop", "--DBName=", 1), strings.Replace(recCmd(0, t), "--DBName shop", "--DBName=", 1))
		return s
	},
	// a page of a spatial index, its records could be rows
	"spatial": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)), leaf(row("live", N(7), B("box"), N(0)), row("free", N(8), B("box"), NUL)))
		s.tweak = func(dir string) {
			edit(dir, "t0.ibd", func(b []byte) []byte {
				copy(b[4*16384+24:], []byte{0x45, 0xbe})
				return b
			})
		}
		return s
	},
	// a table of 64 indexes
	"manyindexes": func() scn {
		t := people(1)
		for i := 0; i < 63; i++ {
			t.Sec = append(t.Sec, idb.SecIdx{ID: t.ClustID + 100 + uint64(i), Name: fmt.Sprintf("ix%d", i), Cols: []int{i % 3}})
		}
		return one(t, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
	},
	"threelevels": func() scn {
		nf := leaf(row("live", N(1), B("ann"), N(31)), row("free", N(5), B("eve"), NUL))
		nf.Kind, nf.N = "nodefull", 1 // level 2
		return one(people(1), nf, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
	},
	"manynulls": func() scn {
		t := nullTab(1, 300)
		for i := range t.Cols {
			t.Cols[i].Name = fmt.Sprintf("c%03d", i)
		}
		v := func(k int) []idb.Val {
			out := vals(N(int64(k)))
			for i := 1; i <= 300; i++ {
				if (i+k)%3 == 0 {
					out = append(out, NUL)
				} else {
					out = append(out, N(int64(i)))
				}
			}
			return append(out, B("the end"))
		}
		t.Cols = append(t.Cols, cs(ncol("name", "varchar", 20), 33))
		return one(t, leaf(row("live", v(1)...), row("free", v(2)...)))
	},
	"medium": func() scn {
		t := tab(1, "shop", "nums", []int{0}, col("id", "int", 4), col("m", "int", 3))
		return one(t, leaf(row("live", N(1), N(1)), row("live", N(2), N(0)), row("live", N(3), N(-1)), row("live", N(4), N(-8388608)), row("free", N(5), N(0))))
	},
	// two tables with names of 64 characters that differ in the last one
	"longtwins": func() scn {
		a, b := people(1), tab(2, "shop", "", []int{0}, col("id", "int", 4), col("a", "int", 8), cs(ncol("b", "varchar", 10), 33))
		a.Name, b.Name = rep("n", 63)+"a", rep("n", 63)+"b"
		s := one(a, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
		s.w.Tabs, s.w.Pages = append(s.w.Tabs, b), append(s.w.Pages, []props.Page{leaf(row("live", N(1), N(2), B("x")), row("free", N(3), N(4), B("y")))})
		s.cmds = append(s.cmds, printCmd(1, b), recCmd(1, b), printCmd(0, a))
		return s
	},
	"missinglog": func() scn {
		s := logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(2, N(3))))
		s.cmds = []string{redoCmd(""), redoCmd(",nolog"), "recovery FromRedoFile --SysDataFile ibdata1 --RedoFile nolog,log0_0"}
		return s
	},
	// a copy with a newer or the same LSN in front of the page at home
	"newercopy": func() scn {
		s := one(people(1), leaf(row("live", N(1), B("old"), N(31)), row("free", N(2), B("older"), NUL)), leaf(row("live", N(3), B("cid"), N(31)), row("free", N(4), B("dee"), NUL)))
		s.tweak = func(dir string) {
			edit(dir, "t0.ibd", func(b []byte) []byte { // page 3 holds a stale copy of page 4
				copy(b[3*16384:4*16384], b[4*16384:5*16384])
				p := b[3*16384 : 4*16384]
				copy(p[bytes.Index(p, []byte("cid")):], "STA")
				return b
			})
		}
		return s
	},
	"farfuture": func() scn {
		t := tab(1, "shop", "events", []int{0}, col("id", "int", 4), col("at", "date", 3), ncol("n", "int", 4))
		d := func(y int64) idb.Val { return N((y*100+12)*100 + 31) }
		return one(t, leaf(row("live", N(1), d(2019), N(1)), row("live", N(2), d(8191), N(1)), row("live", N(3), d(8192), NUL), row("live", N(4), d(9999), N(2)), row("free", N(5), d(9000), N(3))))
	},
	"keyprefix": func() scn {
		t := tab(1, "shop", "parts", []int{0, 1}, cs(col("id_type", "varchar", 8), 33), col("id", "int", 4), ncol("n", "int", 4))
		return logged([]idb.Table{t}, upd(0, vals(B("bolt"), N(7)), set(2, N(3))), upd(0, vals(B(""), N(-1)), set(2, NUL)))
	},
	// a log of several updates of one schema
	"redoschema": func() scn {
		s := logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(2)), set(1, B("x"))))
		s.cmds = []string{redoCmd(" --DBName shop"), redoCmd("")}
		return s
	},
	// the last statement has more than 1024 bytes
	"bigout": func() scn {
		t := tab(1, "shop", "docs", []int{0}, col("id", "int", 4), cs(ncol("body", "text", 2), 33))
		return one(t, leaf(row("live", N(1), B("a")), row("live", N(2), B(rep("bc", 900))), row("live", N(3), B(rep("d", 1900)))))
	},
	// a log of many blocks, and another one
	"biglog": func() scn {
		long := func(c string) (recs []idb.LogRec) {
			for i := 0; i < 90; i++ {
				recs = append(recs, upd(0, vals(N(int64(i))), set(1, B(fmt.Sprintf("%s%d", rep(c, 20+i%10), i)))))
			}
			return
		}
		s := logged([]idb.Table{people(1)}, long("a")...)
		s.tweak = func(dir string) {
			o := logged([]idb.Table{people(1)}, long("b")...)
			props.WriteWorldAs(&o.w, dir, "b_")
		}
		return s
	},
	// two tables with BLOB columns
	"twoblobs": func() scn {
		w := props.World{}
		for i := 0; i < 2; i++ {
			t := tab(1+i, "shop", fmt.Sprintf("blobs%d", i), []int{0}, col("id", "int", 4), ncol("b", "blob", 2))
			p := leaf()
			for k := 0; k < 60; k++ {
				p.Rows = append(p.Rows, row("live", N(int64(k)), B(rep(string(rune('a'+13*i+k%13)), 50+7*k%90))))
			}
			w.Tabs = append(w.Tabs, t)
			w.Pages = append(w.Pages, []props.Page{p})
		}
		return scn{w: w, cmds: []string{printCmd(0, w.Tabs[0])}}
	},
	// one of several columns was NULL
	"nullback": func() scn {
		return logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(1, NUL), set(2, N(3))), upd(0, vals(N(2)), set(1, B("x")), set(2, N(5))))
	},
	// the update is of a table whose description lies late in the file
	"latedict": func() scn {
		s := logged([]idb.Table{people(1), tab(2, "shop", "second", []int{0}, col("id", "int", 4), ncol("a", "int", 4)), tab(3, "zoo", "third", []int{0}, col("id", "int", 4), ncol("a", "int", 4))},
			upd(0, vals(N(1)), set(1, B("x"))), upd(1, vals(N(1)), set(1, N(2))), upd(2, vals(N(1)), set(1, N(3))))
		s.w.Layout = idb.DictLayout{PerPage: [4]int{1, 3, 1, 1}, Noise: 2}
		return s
	},
	// one update
	"oneupd": func() scn { return logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(1, B("x")))) },
	// a column gets the same value again
	"thrice": func() scn {
		return logged([]idb.Table{people(1)}, upd(0, vals(N(1)), set(2, N(3))), upd(0, vals(N(1)), set(2, N(4))), upd(0, vals(N(1)), set(2, N(3))))
	},
	// 130 columns are updated at once
	"wideupd": func() scn {
		cols := []idb.Col{col("id", "int", 4)}
		sets := []idb.UpdField{}
		for i := 1; i <= 130; i++ {
			cols = append(cols, ncol(fmt.Sprintf("c%d", i), "int", 2))
			sets = append(sets, set(i, N(int64(i))))
		}
		return logged([]idb.Table{tab(1, "shop", "wide", []int{0}, cols...)}, upd(0, vals(N(1)), sets...))
	},
	// two tables in one tablespace
	"sharedspace": func() scn {
		a, b := people(1), people(2)
		b.Name, b.Space = "staff", a.Space
		s := logged([]idb.Table{a, b}, upd(0, vals(N(1)), set(2, N(3))), upd(1, vals(N(2)), set(1, B("x"))), upd(0, vals(N(4)), set(1, B("y"))))
		s.cmds = []string{redoCmd(" --TableName people"), redoCmd(" --TableName staff"), redoCmd(" --DBName shop --TableName staff"), redoCmd("")}
		return s
	},
	// a table with the name of its schema in front
	"dotname": func() scn {
		t := people(1)
		t.Name = "shop.people"
		return one(t, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
	},
	// a table of the server's own schema
	"ownschema": func() scn {
		t := people(1)
		t.Schema = "mysql"
		return one(t, leaf(row("live", N(1), B("ann"), N(31)), row("free", N(2), B("bob"), NUL)))
	},
	// large log files, the end of the first one within a record
	"bigfiles": func() scn {
		var recs []idb.LogRec
		for i := 0; i < 2500; i++ {
			recs = append(recs, upd(0, vals(N(int64(i))), set(1, B(rep(string(rune('a'+i%26)), 30+i%7)))))
		}
		s := logged([]idb.Table{people(1)}, recs...)
		s.w.Cut = []props.LogCut{{Files: []int{499, 501}}}
		s.cmds = []string{"recovery FromRedoFile --SysDataFile ibdata1 --RedoFile log0_0,log0_1"}
		return s
	},
}
