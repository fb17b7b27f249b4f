package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/idb"
	"verif/sqlp"
)

const nullMark = "NULL"

var (
	reInt      = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reDate     = regexp.MustCompile(`^([0-9]{4})-([0-9]{1,2})-([0-9]{1,2})$`)
	reZeroDate = regexp.MustCompile(`^0+-0+-0+( 0+:0+:0+)?(\.0+)?$`)
	reTime     = regexp.MustCompile(`^(-?)([0-9]{1,3}):([0-9]{1,2}):([0-9]{1,2})(\.[0-9]{1,6})?$`)
	reStamp    = regexp.MustCompile(`^([0-9]{4})-([0-9]{1,2})-([0-9]{1,2})[ T]([0-9]{1,2}):([0-9]{1,2}):([0-9]{1,2})(\.[0-9]{1,6})?$`)
)

// canonVal is the meaning of a stored value.
func canonVal(c idb.Col, v idb.Val) string {
	if v.Nul {
		return nullMark
	}
	switch c.Kind {
	case "int":
		if c.Unsigned {
			return "i" + strconv.FormatUint(v.N, 10)
		}
		return "i" + strconv.FormatInt(int64(v.N), 10)
	case "float":
		f := math.Float32frombits(uint32(v.N))
		if f == 0 {
			f = 0
		}
		return fmt.Sprintf("f%08x", math.Float32bits(f+0))
	case "double":
		f := math.Float64frombits(v.N)
		return fmt.Sprintf("d%016x", math.Float64bits(f+0))
	case "year":
		return fmt.Sprintf("y%d", v.N)
	case "date":
		return fmt.Sprintf("D%08d", v.N)
	case "time":
		if c.Fsp() > 0 {
			return fmt.Sprintf("t%d", int64(v.N))
		}
		return fmt.Sprintf("t%d", int64(v.N)*1000000)
	case "otime":
		return fmt.Sprintf("t%d", int64(v.N)*1000000)
	case "datetime", "odatetime":
		return fmt.Sprintf("S%014d.%06d", v.N, v.F)
	case "timestamp", "otimestamp":
		if v.N == 0 {
			return fmt.Sprintf("S%014d.%06d", 0, v.F)
		}
		return fmt.Sprintf("S%s.%06d", time.Unix(int64(v.N), 0).Format("20060102150405"), v.F)
	case "bit", "enum", "set":
		return "b" + strconv.FormatUint(v.N, 10)
	case "decimal":
		return "?" // printed as its stored bytes, a recorded finding
	case "char":
		return "s" + string(bytes.TrimRight(v.B, " "))
	}
	return "s" + string(v.B)
}

// canonLit is what a literal denotes when assigned to a column.
func canonLit(c idb.Col, l sqlp.Lit) (string, error) {
	bad := func() (string, error) { return "", fmt.Errorf("%s is no value for %s", l, c.TypeName()) }
	if l.Kind == "null" {
		return nullMark, nil
	}
	if c.Kind == "decimal" {
		return "?", nil
	}
	s := string(l.S)
	isText := l.Kind == "num" || l.Kind == "str"
	switch c.Kind {
	case "int":
		if !isText || !reInt.MatchString(s) {
			return bad()
		}
		b, _ := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
		return "i" + b.String(), nil
	case "float":
		if !isText {
			return bad()
		}
		f, err := strconv.ParseFloat(s, 32)
		if err != nil {
			return bad()
		}
		return fmt.Sprintf("f%08x", math.Float32bits(float32(f)+0)), nil
	case "double":
		if !isText {
			return bad()
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return bad()
		}
		return fmt.Sprintf("d%016x", math.Float64bits(f+0)), nil
	case "year":
		if !isText || !reInt.MatchString(s) {
			return bad()
		}
		n, err := strconv.Atoi(s)
		if err != nil || (l.Kind == "str" && len(s) != 4) || (n > 0 && n < 1000) {
			return bad()
		}
		return fmt.Sprintf("y%d", n), nil
	case "date":
		if l.Kind != "str" {
			return bad()
		}
		if reZeroDate.MatchString(s) {
			return fmt.Sprintf("D%08d", 0), nil
		}
		m := reDate.FindStringSubmatch(s)
		if m == nil {
			return bad()
		}
		return fmt.Sprintf("D%04d%02d%02d", atoi(m[1]), atoi(m[2]), atoi(m[3])), nil
	case "time", "otime":
		if isText && reInt.MatchString(s) { // HHMMSS
			n, err := strconv.Atoi(s)
			sign := 1
			if n < 0 {
				n, sign = -n, -1
			}
			if err != nil || n/100%100 > 59 || n%100 > 59 || n/10000 > 838 {
				return bad()
			}
			return fmt.Sprintf("t%d", sign*(n/10000*3600+n/100%100*60+n%100)*1000000), nil
		}
		m := reTime.FindStringSubmatch(s)
		if l.Kind != "str" || m == nil || atoi(m[3]) > 59 || atoi(m[4]) > 59 {
			return bad()
		}
		n := (atoi(m[2])*3600+atoi(m[3])*60+atoi(m[4]))*1000000 + micros(m[5])
		if m[1] == "-" {
			n = -n
		}
		return fmt.Sprintf("t%d", n), nil
	case "datetime", "timestamp", "odatetime", "otimestamp":
		if l.Kind != "str" {
			return bad()
		}
		if reZeroDate.MatchString(s) {
			return fmt.Sprintf("S%014d.%06d", 0, 0), nil
		}
		m := reStamp.FindStringSubmatch(s)
		if m == nil {
			return bad()
		}
		return fmt.Sprintf("S%04d%02d%02d%02d%02d%02d.%06d", atoi(m[1]), atoi(m[2]), atoi(m[3]), atoi(m[4]), atoi(m[5]), atoi(m[6]), micros(m[7])), nil
	case "bit":
		switch l.Kind {
		case "bits":
			b, ok := new(big.Int).SetString("0"+s, 2)
			if !ok {
				return bad()
			}
			return "b" + b.String(), nil
		case "num":
			if !reInt.MatchString(s) {
				return bad()
			}
			b, _ := new(big.Int).SetString(s, 10)
			return "b" + b.String(), nil
		}
		return "b" + new(big.Int).SetBytes(l.S).String(), nil
	case "enum", "set":
		if l.Kind == "bits" {
			b, ok := new(big.Int).SetString("0"+s, 2)
			if !ok {
				return bad()
			}
			return "b" + b.String(), nil
		}
		if !isText || !reInt.MatchString(s) {
			return bad()
		}
		b, _ := new(big.Int).SetString(s, 10)
		return "b" + b.String(), nil
	}
	if l.Kind == "bits" {
		return bad()
	}
	if c.Kind == "char" {
		return "s" + strings.TrimRight(s, " "), nil
	}
	return "s" + s, nil
}

// micros reads decimal places, ".5" or "".
func micros(s string) int {
	if s == "" {
		return 0
	}
	return atoi((s[1:] + "000000")[:6])
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

const sep = "\x01\x02"

func canonRow(t *idb.Table, vals []idb.Val) string {
	var p []string
	for i, v := range vals {
		if !t.Cols[i].Hidden {
			p = append(p, canonVal(t.Cols[i], v))
		}
	}
	return strings.Join(p, sep)
}

// readable makes a canonical row fit for a message.
func readable(s string) string {
	s = strings.ReplaceAll(s, sep, " | ")
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", s[:280], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func splitLines(out []byte) ([][]byte, error) {
	if len(out) == 0 {
		return nil, nil
	}
	if out[len(out)-1] != '\n' {
		return nil, fmt.Errorf("the output does not end with a newline: %q", tailOf(out))
	}
	return bytes.Split(out[:len(out)-1], []byte("\n")), nil
}

func tailOf(b []byte) []byte {
	if len(b) > 80 {
		return b[len(b)-80:]
	}
	return b
}

// readReplace parses the output as REPLACE statements into one table and
// returns the canonical rows in order.
func readReplace(t *idb.Table, out []byte) ([]string, error) {
	cells, err := readCells(t, out)
	var rows []string
	for _, c := range cells {
		rows = append(rows, strings.Join(c, sep))
	}
	return rows, err
}

// readCells is readReplace with the values apart.
func readCells(t *idb.Table, out []byte) ([][]string, error) {
	lines, err := splitLines(out)
	if err != nil {
		return nil, err
	}
	var rows [][]string
	for i, l := range lines {
		r, err := replaceRow(t, l)
		if err != nil {
			return nil, fmt.Errorf("line %d: %v\n  %.400q", i+1, err, l)
		}
		rows = append(rows, r)
	}
	return rows, nil
}

func replaceRow(t *idb.Table, line []byte) ([]string, error) {
	st, err := sqlp.Parse(line)
	if err != nil {
		return nil, err
	}
	if st.Kind != "replace" {
		return nil, fmt.Errorf("a %s statement", st.Kind)
	}
	if st.Schema != t.Schema || st.Table != t.Name {
		return nil, fmt.Errorf("statement for %s.%s instead of %s.%s", st.Schema, st.Table, t.Schema, t.Name)
	}
	cols := visible(t)
	if len(st.Vals) != len(cols) {
		return nil, fmt.Errorf("%d values for %d columns", len(st.Vals), len(cols))
	}
	at := make([]int, len(cols))
	for i := range at {
		at[i] = i
	}
	if st.Cols != nil {
		if len(st.Cols) != len(st.Vals) {
			return nil, fmt.Errorf("%d column names for %d values", len(st.Cols), len(st.Vals))
		}
		seen := map[string]bool{}
		for i, n := range st.Cols {
			at[i] = -1
			for j, c := range cols {
				if c.Name == n {
					at[i] = j
				}
			}
			if at[i] < 0 || seen[n] {
				return nil, fmt.Errorf("column list names %q", n)
			}
			seen[n] = true
		}
	}
	p := make([]string, len(cols))
	for i, l := range st.Vals {
		s, err := canonLit(cols[at[i]], l)
		if err != nil {
			return nil, fmt.Errorf("column %q: %v", cols[at[i]].Name, err)
		}
		p[at[i]] = s
	}
	return p, nil
}

// visible are the columns of a table for its users.
func visible(t *idb.Table) []idb.Col {
	var out []idb.Col
	for _, c := range t.Cols {
		if !c.Hidden {
			out = append(out, c)
		}
	}
	return out
}

// compareRows compares multisets; optional rows may be missing.
func compareRows(want, optional, got []string) error {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	opt := map[string]int{}
	for _, w := range optional {
		opt[w]++
	}
	var extra, missing []string
	for _, g := range got {
		switch {
		case n[g] > 0:
			n[g]--
		case opt[g] > 0:
			opt[g]--
		default:
			extra = append(extra, g)
		}
	}
	for w, k := range n {
		for ; k > 0; k-- {
			missing = append(missing, w)
		}
	}
	if len(extra) == 0 && len(missing) == 0 {
		return nil
	}
	sort.Strings(missing)
	msg := fmt.Sprintf("%d rows expected, %d printed", len(want), len(got))
	if len(missing) > 0 {
		msg += fmt.Sprintf("; %d missing, e.g. %s", len(missing), readable(missing[0]))
	}
	if len(extra) > 0 {
		msg += fmt.Sprintf("; %d not expected, e.g. %s", len(extra), readable(extra[0]))
	}
	return fmt.Errorf("%s", msg)
}
