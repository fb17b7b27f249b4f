// Package sqlp reads the SQL statements the tool prints: REPLACE ... VALUES
// and UPDATE ... SET ... WHERE, under MySQL's lexical rules (default sql_mode).
package sqlp

import (
	"encoding/hex"
	"fmt"
	"strings"
)

// Lit is a literal.
type Lit struct {
	Kind string // null num str bits hex
	S    []byte // num: its text; str: decoded bytes; bits: the 0/1 digits; hex: decoded bytes
}

func (l Lit) String() string {
	switch l.Kind {
	case "null":
		return "NULL"
	case "num":
		return string(l.S)
	case "bits":
		return "b'" + string(l.S) + "'"
	case "hex":
		if len(l.S) > 40 {
			return fmt.Sprintf("x'%x...'(%d bytes)", l.S[:32], len(l.S))
		}
		return fmt.Sprintf("x'%x'", l.S)
	}
	if len(l.S) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", l.S[:50], len(l.S))
	}
	return fmt.Sprintf("%q", l.S)
}

// Assign is `col`=literal.
type Assign struct {
	Col string
	Val Lit
}

// Stmt is a statement.
type Stmt struct {
	Kind   string // replace update
	Schema string
	Table  string
	Cols   []string // explicit column list of a REPLACE, if any
	Vals   []Lit
	Set    []Assign
	Where  []Assign
}

type lexer struct {
	s []byte
	p int
}

func (l *lexer) err(f string, a ...interface{}) error {
	lo, hi := l.p-20, l.p+20
	if lo < 0 {
		lo = 0
	}
	if hi > len(l.s) {
		hi = len(l.s)
	}
	return fmt.Errorf("%s at byte %d (near %q)", fmt.Sprintf(f, a...), l.p, l.s[lo:hi])
}

func (l *lexer) ws() {
	for l.p < len(l.s) && (l.s[l.p] == ' ' || l.s[l.p] == '\t') {
		l.p++
	}
}

func isWord(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func (l *lexer) word() string {
	l.ws()
	q := l.p
	for q < len(l.s) && isWord(l.s[q]) {
		q++
	}
	return strings.ToLower(string(l.s[l.p:q]))
}

func (l *lexer) kw(w string) bool {
	if l.word() == w {
		l.p += len(w)
		return true
	}
	return false
}

func (l *lexer) ch(c byte) bool {
	l.ws()
	if l.p < len(l.s) && l.s[l.p] == c {
		l.p++
		return true
	}
	return false
}

func (l *lexer) ident() (string, error) {
	if !l.ch('`') {
		return "", l.err("expected a quoted identifier")
	}
	var out []byte
	for l.p < len(l.s) {
		c := l.s[l.p]
		l.p++
		if c == '`' {
			if l.p < len(l.s) && l.s[l.p] == '`' {
				l.p++
			} else {
				if len(out) == 0 {
					return "", l.err("empty identifier")
				}
				return string(out), nil
			}
		}
		out = append(out, c)
	}
	return "", l.err("unterminated identifier")
}

// quoted reads a '...' or "..." string after its opening quote.
func (l *lexer) quoted(q byte) ([]byte, error) {
	out := []byte{}
	for l.p < len(l.s) {
		c := l.s[l.p]
		l.p++
		switch {
		case c == q:
			if l.p < len(l.s) && l.s[l.p] == q {
				l.p++
				out = append(out, q)
				continue
			}
			return out, nil
		case c == '\\':
			if l.p >= len(l.s) {
				return nil, l.err("unterminated string")
			}
			e := l.s[l.p]
			l.p++
			switch e {
			case '0':
				out = append(out, 0)
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'Z':
				out = append(out, 26)
			case '%', '_':
				out = append(out, '\\', e)
			default:
				out = append(out, e)
			}
		default:
			out = append(out, c)
		}
	}
	return nil, l.err("unterminated string")
}

func (l *lexer) lit() (Lit, error) {
	l.ws()
	if l.p >= len(l.s) {
		return Lit{}, l.err("literal expected")
	}
	c := l.s[l.p]
	nx := byte(0)
	if l.p+1 < len(l.s) {
		nx = l.s[l.p+1]
	}
	switch {
	case c == '\'' || c == '"':
		l.p++
		b, err := l.quoted(c)
		return Lit{"str", b}, err
	case (c == 'b' || c == 'B') && nx == '\'':
		l.p += 2
		b, err := l.quoted('\'')
		if err != nil {
			return Lit{}, err
		}
		for _, d := range b {
			if d != '0' && d != '1' {
				return Lit{}, l.err("bad bit literal b'%s'", b)
			}
		}
		return Lit{"bits", b}, nil
	case (c == 'x' || c == 'X') && nx == '\'':
		l.p += 2
		b, err := l.quoted('\'')
		if err != nil {
			return Lit{}, err
		}
		return l.hexLit(b)
	case c == '0' && nx == 'x':
		l.p += 2
		w := l.word()
		l.p += len(w)
		if len(w)%2 == 1 {
			w = "0" + w
		}
		return l.hexLit([]byte(w))
	case c == '-' || c == '+' || c == '.' || c >= '0' && c <= '9':
		q := l.p
		for l.p < len(l.s) && strings.IndexByte("+-.eE0123456789", l.s[l.p]) >= 0 {
			l.p++
		}
		return Lit{"num", append([]byte(nil), l.s[q:l.p]...)}, nil
	}
	w := l.word()
	switch w {
	case "null":
		l.p += 4
		return Lit{Kind: "null"}, nil
	case "_binary":
		l.p += 7
		v, err := l.lit()
		if err == nil && v.Kind != "str" && v.Kind != "hex" {
			err = l.err("_binary before a %s literal", v.Kind)
		}
		return v, err
	case "unhex":
		l.p += 5
		if !l.ch('(') {
			return Lit{}, l.err("unhex without (")
		}
		v, err := l.lit()
		if err != nil {
			return v, err
		}
		if !l.ch(')') {
			return v, l.err("unhex without )")
		}
		if v.Kind != "str" {
			return v, l.err("unhex of a %s literal", v.Kind)
		}
		return l.hexLit(v.S)
	}
	return Lit{}, l.err("not a literal")
}

func (l *lexer) hexLit(b []byte) (Lit, error) {
	d, err := hex.DecodeString(string(b))
	if err != nil {
		return Lit{}, l.err("bad hexadecimal literal: %v", err)
	}
	return Lit{"hex", d}, nil
}

// Parse reads one line.
func Parse(line []byte) (*Stmt, error) {
	l := &lexer{s: line}
	st := &Stmt{}
	switch {
	case l.kw("replace"):
		st.Kind = "replace"
		l.kw("into")
	case l.kw("update"):
		st.Kind = "update"
	default:
		return nil, l.err("not a REPLACE or UPDATE statement")
	}
	var err error
	if st.Schema, err = l.ident(); err != nil {
		return nil, err
	}
	if !l.ch('.') {
		return nil, l.err("expected .")
	}
	if st.Table, err = l.ident(); err != nil {
		return nil, err
	}
	if st.Kind == "replace" {
		if l.ch('(') {
			for {
				c, err := l.ident()
				if err != nil {
					return nil, err
				}
				st.Cols = append(st.Cols, c)
				if l.ch(')') {
					break
				}
				if !l.ch(',') {
					return nil, l.err("expected , or )")
				}
			}
		}
		if !l.kw("values") {
			return nil, l.err("expected VALUES")
		}
		if !l.ch('(') {
			return nil, l.err("expected (")
		}
		for {
			v, err := l.lit()
			if err != nil {
				return nil, err
			}
			st.Vals = append(st.Vals, v)
			if l.ch(')') {
				break
			}
			if !l.ch(',') {
				return nil, l.err("expected , or )")
			}
		}
	} else {
		if !l.kw("set") {
			return nil, l.err("expected SET")
		}
		asg := func() (Assign, error) {
			c, err := l.ident()
			if err != nil {
				return Assign{}, err
			}
			if !l.ch('=') {
				return Assign{}, l.err("expected =")
			}
			v, err := l.lit()
			return Assign{c, v}, err
		}
		for {
			a, err := asg()
			if err != nil {
				return nil, err
			}
			st.Set = append(st.Set, a)
			if !l.ch(',') {
				break
			}
		}
		if !l.kw("where") {
			return nil, l.err("expected WHERE")
		}
		for {
			a, err := asg()
			if err != nil {
				return nil, err
			}
			st.Where = append(st.Where, a)
			if !l.kw("and") {
				break
			}
		}
	}
	if !l.ch(';') {
		return nil, l.err("expected ;")
	}
	l.ws()
	if l.p != len(l.s) {
		return nil, l.err("trailing text")
	}
	return st, nil
}
