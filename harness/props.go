package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/kodaimura/ddlparse"
)

// Prop is one property: its generator and what is said about it.
type Prop struct {
	ID   string
	Rule string
	Gen  func(s *Src) *Case
	Enum func(yield func(mkCase) bool) // finite part, enumerated completely
	Slow bool
}

var props = map[string]*Prop{}

func reg(id, rule string, gen func(s *Src) *Case) *Prop {
	p := &Prop{ID: id, Rule: rule, Gen: gen}
	props[id] = p
	return p
}

var skipCase = &Case{skip: true}

func text(s *Src, d Dialect, toks []*Tok) Text {
	genCase(s, toks)
	l := genLayout(s, d)
	x, _ := l.Render(toks)
	return Text(x)
}

// lastText is text that nothing will be appended to.
func lastText(s *Src, d Dialect, toks []*Tok) Text {
	genCase(s, toks)
	l := genLayout(s, d)
	l.OpenEnd = true
	x, _ := l.Render(toks)
	return Text(x)
}

func dropOthers(sc *Script) {
	var out []*Stmt
	for _, st := range sc.Stmts {
		if st.Table != nil {
			out = append(out, st)
		}
	}
	sc.Stmts = out
}

func label(d Dialect, xs ...string) []string { return append([]string{d.String()}, xs...) }

// ---------- raw inputs (C01, C02, C22) ----------

var rawBits = []string{"'", "\"", "`", "--", "/*", "*/", "#", "(", ")", ",", ";", ".", "=", "\n", "\r\n", " ", "\t", "$$", "$a$", "　", "\x00", "\xff", "\\", "''", "\"\"",
	"CREATE", "TABLE", "create table t (", "IF NOT EXISTS", "id", "INT", "TEXT", "INTEGER", "PRIMARY KEY", "NOT NULL", "NOT", "NULL", "DEFAULT", "CHECK (", "CHECK", "REFERENCES t",
	"UNIQUE", "CONSTRAINT", "FOREIGN KEY (", "KEY", "INDEX", "VIEW", "BEGIN", "END", "CASE", "END IF", "TRIGGER", "FUNCTION", "AS", "GENERATED ALWAYS AS", "WITH (", "USING", "ON DELETE",
	"1", "-1", "1.5", ".", "..", "1e", "1e5", "0x", "-", "+", "*", "/", "é", "日本", "😀", "VARCHAR(", "DECIMAL(10,", "ENGINE=", "COMMENT '", "STRICT", "WITHOUT ROWID", "PARTITION BY RANGE (",
	"CREATE TABLE t (a INT);", "CREATE TABLE t (id INT, PRIMARY KEY (id));", "CREATE VIEW v AS SELECT 1;", "EXCLUDE (", "INHERITS (", "UNION (", "COLLATE", "AUTO_INCREMENT", "<EOF>", "EOF"}

func mutateBytes(s *Src, x string) string {
	b := []byte(x)
	for n := s.R(1, 4); n > 0 && len(b) > 0; n-- {
		i := s.N(len(b))
		switch s.N(6) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			j := i + s.R(1, 12)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 2:
			b = append(b[:i:i], append([]byte(s.Pick(rawBits)), b[i:]...)...)
		case 3:
			b[i] = byte(s.N(256))
		case 4:
			j := i + s.R(1, 20)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		default:
			b = append(b[:i:i], append([]byte{"()'\"`;,*/-#$.\n "[s.N(15)]}, b[i:]...)...)
		}
	}
	return string(b)
}

func smallProf() Prof {
	p := defProf()
	p.MaxT, p.MaxC, p.MaxTC = 2, 3, 2
	p.Tables, p.Cols, p.Others = 25, 45, 15
	return p
}

// genRaw draws any input text.
func genRaw(s *Src) (string, string) {
	switch s.W(30, 25, 15, 15, 8, 5, 2) {
	case 0: // truncated valid script
		d := genDialect(s)
		x := string(text(s, d, genScript(s, d, smallProf()).Toks(nil)))
		if s.P(50) {
			rs := []rune(x)
			return string(rs[:s.N(len(rs)+1)]), "truncated"
		}
		return x[:s.N(len(x)+1)], "truncated"
	case 1:
		d := genDialect(s)
		x := string(text(s, d, genScript(s, d, smallProf()).Toks(nil)))
		return mutateBytes(s, x), "mutated bytes"
	case 2:
		var b strings.Builder
		for n := s.R(0, 30); n > 0; n-- {
			b.WriteString(s.Pick(rawBits))
			if s.P(60) {
				b.WriteString(" ")
			}
		}
		return b.String(), "soup"
	case 3: // token edits
		d := genDialect(s)
		ts := cpToks(genScript(s, d, smallProf()).Toks(nil))
		for n := s.R(1, 4); n > 0; n-- {
			ts, _ = editToks(s, d, ts)
		}
		return string(text(s, d, ts)), "edited tokens"
	case 4:
		b := make([]byte, s.R(0, 60))
		for i := range b {
			b[i] = byte(s.N(256))
		}
		return string(b), "bytes"
	case 5:
		rs := make([]rune, s.R(0, 40))
		for i := range rs {
			if s.P(30) {
				rs[i] = rune(s.N(0x11000))
			} else {
				rs[i] = rune(s.R(1, 126))
			}
		}
		return string(rs), "runes"
	default: // many repetitions of one piece
		pre := s.Pick([]string{"", "CREATE TABLE t (c INT CHECK ", "CREATE TABLE t (c INT DEFAULT ", "CREATE TABLE t (", "CREATE VIEW v ", "CREATE TRIGGER x ", "CREATE TABLE t (c INT) WITH "})
		return pre + strings.Repeat(s.Pick(rawBits)+s.Pick([]string{"", " "}), s.R(1, 3000)), "repeated"
	}
}

// ---------- histories ----------

func genHistTexts(s *Src) []Text {
	var out []Text
	n := s.R(1, 4)
	for len(out) < n {
		d := genDialect(s)
		var x string
		switch s.W(45, 20, 35) {
		case 0:
			p := smallProf()
			x = string(text(s, d, genScript(s, d, p).Toks(nil)))
		case 1:
			x, _ = genRaw(s)
			if len(x) > 3000 {
				x = x[:3000]
			}
		default: // near copy of an earlier text
			if len(out) == 0 {
				continue
			}
			b := []byte(out[s.N(len(out))])
			switch s.N(4) {
			case 0: // one letter changed, same length
				for i, k := 0, s.N(len(b)+1); i < len(b); i++ {
					j := (i + k) % len(b)
					if b[j] >= 'a' && b[j] <= 'z' {
						b[j] = 'a' + byte(s.N(26))
						break
					}
				}
			case 1:
				b = append(b, []byte(s.Pick([]string{" ", "\n", ";", " -- x", "CREATE TABLE more (id INTEGER);"}))...)
			case 2:
				b = append([]byte(s.Pick([]string{" ", "\n\n", "/* c */"})), b...)
			default:
				b = []byte(mutateBytes(s, string(b)))
			}
			x = string(b)
		}
		out = append(out, Text(x))
	}
	return out
}

func genOps(s *Src, texts int, par bool) []Op {
	var ops []Op
	for n := s.R(2, 10); n > 0; n-- {
		o := Op{Text: s.N(texts), Mutate: s.P(35)}
		if k := s.N(4); k < 3 {
			o.Dialect = dialectNames[k]
		}
		if par && s.P(25) {
			o.Par = s.R(2, 8)
		}
		ops = append(ops, o)
	}
	return ops
}

// ---------- invalid scripts ----------

// invalidToks draws a token list that the max grammar rejects.
func invalidToks(s *Src, d Dialect) (ts []*Tok, how string, at int, sure bool, ok bool) {
	for try := 0; try < 6; try++ {
		p := smallProf()
		p.Others = 10
		if s.P(4) {
			p = defProf()
		}
		sc := genScript(s, d, p)
		how = ""
		if s.P(35) {
			how = breakScript(s, sc)
		}
		ts = cpToks(sc.Toks(nil))
		if how == "" || s.P(10) {
			var h string
			for n := 1 + s.W(80, 15, 5); n > 0; n-- {
				ts, h = editToks(s, d, ts)
				if how != "" {
					how += "+"
				}
				how += h
			}
		}
		good, mx := recognise(d, spell(ts), true)
		if good || !portable(d, ts) {
			continue
		}
		_, mn := recognise(d, spell(ts), false)
		return ts, how, mx, mn == mx, true
	}
	return nil, "", 0, false, false
}

func renderEdited(s *Src, d Dialect, ts []*Tok) (string, []Pos) {
	genCase(s, ts)
	l := genLayout(s, d)
	l.Always = true
	return l.Render(ts)
}

func lines(x string) int { return 1 + strings.Count(x, "\n") }

// lexFault puts one lexical fault into a valid script.
func lexFault(s *Src, d Dialect) *Case {
	p := smallProf()
	sc := genScript(s, d, p)
	ts := sc.Toks(nil)
	l := genLayout(s, d)
	genCase(s, ts)
	cut := s.N(len(ts) + 1)
	for cut < len(ts) && ts[cut].Glue {
		cut++
	}
	// text before, fault, text after
	a, _ := l.Render(ts[:cut])
	bl := genLayout(s, d)
	bl.Comments = false // comments could close or hide the fault
	b, _ := bl.Render(ts[cut:])
	sep := s.Pick([]string{" ", "\n", "\n\n ", "\t"})
	a += sep
	c := &Case{Kind: "errpos", Dialect: d.String()}
	at := lines(a)
	k := s.N(5)
	switch {
	case k == 0: // unterminated quote
		q := s.Pick([]string{"'", "\"", "`"})
		if d == PG && q == "`" {
			q = "'"
		}
		b = strings.ReplaceAll(b, q, "")
		b = strings.ReplaceAll(b, "\\", "")
		x := a + q + s.Pick([]string{"", "abc", " ; ", "--", "/*"}) + b
		c.Texts, c.Near, c.LineLo, c.LineHi = []Text{Text(x)}, "<EOF>", lines(x), lines(x)
		c.Labels = label(d, "unterminated quote")
	case k == 1: // unterminated comment
		b = strings.ReplaceAll(b, "*/", "  ")
		x := a + "/*" + s.Pick([]string{"", "*", " note ", "/", " '"}) + " " + b
		c.Texts, c.Near, c.LineLo, c.LineHi = []Text{Text(x)}, "<EOF>", lines(x), lines(x)
		c.Labels = label(d, "unterminated comment")
	case k == 2:
		x := a + "*/" + s.Pick([]string{" ", "\n"}) + b
		c.Texts, c.Near, c.LineLo, c.LineHi = []Text{Text(x)}, "*", at, at
		c.Labels = label(d, "stray comment end")
	case k == 3 && d == PG:
		x := a + "`" + s.Pick([]string{"id`", "", "x"}) + " " + b
		c.Texts, c.Near, c.LineLo, c.LineHi = []Text{Text(x)}, "`", at, at
		c.Labels = label(d, "backtick")
	default:
		x := a + "\u3000" + s.Pick([]string{"", " "}) + b
		c.Texts, c.Near, c.LineLo, c.LineHi = []Text{Text(x)}, "\u3000", at, at
		c.Labels = label(d, "full-width space")
	}
	return c
}

// ---------- model properties ----------

func modelGen(asp int, prof func(*Src) Prof) func(s *Src) *Case {
	return func(s *Src) *Case {
		d := genDialect(s)
		sc := genScript(s, d, prof(s))
		ts := sc.Toks(nil)
		x := lastText(s, d, ts)
		return &Case{Kind: "model", Dialect: d.String(), Texts: []Text{x}, Model: sc.Tables(), Aspect: asp, Labels: label(d)}
	}
}

// ---------- size ----------

// enumHuge yields a few texts of several megabytes that are deep or long
// enough to exhaust a goroutine's stack if something recurses over them.
func enumHuge(yield func(*Case) bool) {
	put := func(d Dialect, tables int, what string, rs ...Rep) bool {
		return yield(&Case{Kind: "huge", Dialect: d.String(), Reps: rs, Count: tables, Labels: label(d, "huge: "+what)})
	}
	for d := SQLITE; d <= MYSQL; d++ {
		n := 3000000
		if !put(d, 1, "nested brackets", Rep{"CREATE TABLE t (x INTEGER CHECK ", 1}, Rep{"(", n}, Rep{"1", 1}, Rep{")", n}, Rep{");", 1}) {
			return
		}
		if !put(d, 0, "unclosed brackets", Rep{"CREATE TABLE t (x INTEGER CHECK ", 1}, Rep{"(", n}) {
			return
		}
		if !put(d, 0, "nested comments", Rep{"CREATE TABLE t (x INTEGER", 1}, Rep{"/*", n}, Rep{"*/", n}, Rep{");", 1}) {
			return
		}
	}
	if os.Getenv("VERIF_TIER") != "thorough" {
		return
	}
	for d := SQLITE; d <= MYSQL; d++ {
		if !put(d, 1, "key columns", Rep{"CREATE TABLE t (x INTEGER, UNIQUE (x", 1}, Rep{",y", 6000000}, Rep{"));", 1}) {
			return
		}
		if !put(d, 1, "columns", Rep{"CREATE TABLE t (x INTEGER", 1}, Rep{",y INTEGER", 5000000}, Rep{");", 1}) {
			return
		}
		if !put(d, 2000000, "tables", Rep{"CREATE TABLE t (x INTEGER);", 2000000}) {
			return
		}
		if !put(d, 0, "other statements", Rep{"CREATE VIEW v AS SELECT 1;", 2000000}) {
			return
		}
	}
}

// enumLarge yields texts ten times larger than those of genSize, judged by the
// number of tables, columns, constraints and key columns (C23).
func enumLarge(yield func(*Case) bool) {
	for d := SQLITE; d <= MYSQL; d++ {
		put := func(tables, parts int, what string, rs ...Rep) bool {
			if !yield(&Case{Kind: "huge", Dialect: d.String(), Reps: rs, Count: tables, Parts: parts, Labels: label(d, "large: "+what)}) {
				return false
			}
			// the same with an error two lines after it
			c := &Case{Kind: "huge", Dialect: d.String(), Reps: append(append([]Rep{}, rs...), Rep{"\n\nBOGUS;", 1}), Near: "BOGUS", LineLo: 3, Labels: label(d, "large, then an error: "+what)}
			for _, r := range rs {
				c.LineLo += r.N * strings.Count(r.S, "\n")
			}
			return yield(c)
		}
		for _, n := range []int{20000, 40000, 100000} {
			last := Rep{"CREATE TABLE t (x INTEGER);", 1}
			ok := put(1, 1, "nested brackets", Rep{"CREATE TABLE t (x INTEGER CHECK ", 1}, Rep{"(", n}, Rep{"1", 1}, Rep{")", n}, Rep{");", 1}) &&
				put(1, 1, "nested brackets in a default", Rep{"CREATE TABLE t (x INTEGER DEFAULT ", 1}, Rep{"( ", n}, Rep{"1", 1}, Rep{" )", n}, Rep{");", 1}) &&
				put(1, 1, "expression", Rep{"CREATE TABLE t (x INTEGER CHECK (1", 1}, Rep{" + 1", n}, Rep{"));", 1}) &&
				put(n, 1, "tables", Rep{"CREATE TABLE t (x INTEGER);\n", n}) &&
				put(1, n+1, "columns", Rep{"CREATE TABLE t (x INTEGER", 1}, Rep{",y\nINTEGER", n}, Rep{");", 1}) &&
				put(1, n+3, "key columns", Rep{"CREATE TABLE t (x INTEGER, UNIQUE (x", 1}, Rep{",y", n}, Rep{"));", 1}) &&
				put(1, n+1, "checks", Rep{"CREATE TABLE t (x INTEGER", 1}, Rep{",CHECK (x)", n}, Rep{");", 1}) &&
				put(1, n+1, "primary keys", Rep{"CREATE TABLE t (x INTEGER", 1}, Rep{",PRIMARY KEY (x)", n}, Rep{");", 1}) &&
				put(1, n+1, "foreign keys", Rep{"CREATE TABLE t (x INTEGER", 1}, Rep{",FOREIGN KEY (x) REFERENCES u (y)", n}, Rep{");", 1}) &&
				put(1, 1, "other statements", Rep{"CREATE VIEW v AS SELECT 1;", n}, last) &&
				put(1, 1, "one other statement", Rep{"CREATE VIEW v AS SELECT 1", 1}, Rep{",2\n", n}, Rep{";", 1}, last) &&
				put(1, 1, "BEGIN ... END", Rep{"CREATE TRIGGER v AFTER INSERT ON t BEGIN ", 1}, Rep{"SELECT 1;", n}, Rep{"END;", 1}, last) &&
				put(1, 1, "nested CASE", Rep{"CREATE VIEW v AS SELECT ", 1}, Rep{"CASE WHEN x THEN ", n}, Rep{"1", 1}, Rep{" END", n}, Rep{";", 1}, last) &&
				put(1, 1, "blank lines", Rep{"\n", 10 * n}, last) &&
				put(1, 1, "blank lines inside", Rep{"CREATE TABLE t (x", 1}, Rep{" \n", 10 * n}, Rep{"INTEGER);", 1}) &&
				put(1, 1, "a block comment", Rep{"/*", 1}, Rep{"x;'(", 10 * n}, Rep{"*/", 1}, last) &&
				put(1, 1, "a line comment", Rep{"--", 1}, Rep{" x;'(", 10 * n}, Rep{"\n", 1}, last) &&
				put(1, 1, "block comments", Rep{"/* ; */", n}, last) &&
				put(1, 1, "line comments", Rep{"-- '\n", n}, last)
			if !ok {
				return
			}
		}
	}
}

func genSize(s *Src) *Case {
	d := genDialect(s)
	ty := []string{"TEXT", "INTEGER", "INT"}[d]
	c := &Case{Kind: "sizemodel", Dialect: d.String(), Aspect: aAll}
	var build func(n int) (string, []ddlparse.Table)
	kind := s.N(17)
	var n int
	sz := func(xs ...int) int {
		v := xs[s.N(len(xs))]
		return v + s.R(-2, 2)
	}
	dt := ddlparse.DataType{Name: ty}
	name := "columns"
	switch kind {
	case 0: // columns
		n = sz(50, 101, 130, 257, 300, 513, 1001, 1025, 2050, 5000, 10001)
		nn := s.P(50)
		build = func(n int) (string, []ddlparse.Table) {
			var b strings.Builder
			t := ddlparse.Table{Name: "t"}
			b.WriteString("CREATE TABLE t (")
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteString(",\n")
				}
				nm := "col" + strconv.Itoa(i)
				b.WriteString(nm + " " + ty)
				col := ddlparse.Column{Name: nm, DataType: dt}
				if nn && i%3 == 1 {
					b.WriteString(" NOT NULL DEFAULT " + strconv.Itoa(i))
					col.Constraint.IsNotNull = true
					col.Constraint.Default = float64(i)
				}
				t.Columns = append(t.Columns, col)
			}
			b.WriteString(");")
			return b.String(), []ddlparse.Table{t}
		}
	case 1: // tables
		name = "tables"
		n = sz(50, 101, 130, 257, 300, 1001, 1025, 3000, 10001)
		build = func(n int) (string, []ddlparse.Table) {
			var b strings.Builder
			ts := []ddlparse.Table{}
			for i := 0; i < n; i++ {
				nm := "tbl" + strconv.Itoa(i)
				b.WriteString("CREATE TABLE " + nm + " (id " + ty + " UNIQUE);\n")
				t := ddlparse.Table{Name: nm, Columns: []ddlparse.Column{{Name: "id", DataType: dt}}}
				t.Columns[0].Constraint.IsUnique = true
				ts = append(ts, t)
			}
			return b.String(), ts
		}
	case 2: // table constraints
		name = "table constraints"
		n = sz(50, 101, 257, 1001, 3000, 6200)
		build = func(n int) (string, []ddlparse.Table) {
			var b strings.Builder
			t := ddlparse.Table{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}}}
			b.WriteString("CREATE TABLE t (id " + ty)
			for i := 0; i < n; i++ {
				k := "k" + strconv.Itoa(i)
				switch i % 3 {
				case 0:
					b.WriteString(", CONSTRAINT " + k + " UNIQUE (id, " + k + ")")
					t.Constraints.Unique = append(t.Constraints.Unique, ddlparse.Unique{Name: k, ColumnNames: []string{"id", k}})
				case 1:
					b.WriteString(", CHECK (" + k + " > 0)")
					t.Constraints.Check = append(t.Constraints.Check, ddlparse.Check{Expr: "(" + k + " > 0)"})
				default:
					b.WriteString(", FOREIGN KEY (id) REFERENCES " + k + " (x)")
					t.Constraints.ForeignKey = append(t.Constraints.ForeignKey, ddlparse.ForeignKey{ColumnNames: []string{"id"}, References: ddlparse.Reference{TableName: k, ColumnNames: []string{"x"}}})
				}
			}
			b.WriteString(");")
			return b.String(), []ddlparse.Table{t}
		}
	case 3: // key columns
		name = "key columns"
		n = sz(20, 33, 65, 130, 257, 1001, 3000)
		build = func(n int) (string, []ddlparse.Table) {
			var cols, rcols []string
			for i := 0; i < n; i++ {
				cols = append(cols, "c"+strconv.Itoa(i))
				rcols = append(rcols, "r"+strconv.Itoa(i))
			}
			l, rl := strings.Join(cols, ", "), strings.Join(rcols, ", ")
			t := ddlparse.Table{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}}}
			t.Constraints.PrimaryKey = []ddlparse.PrimaryKey{{ColumnNames: cols}}
			t.Constraints.ForeignKey = []ddlparse.ForeignKey{{ColumnNames: cols, References: ddlparse.Reference{TableName: "o", ColumnNames: rcols}}}
			return "CREATE TABLE t (id " + ty + ", PRIMARY KEY (" + l + "), FOREIGN KEY (" + l + ") REFERENCES o (" + rl + "));", []ddlparse.Table{t}
		}
	case 4, 5: // expression tokens / nesting
		name = "expression"
		def := s.P(40)
		if kind == 4 {
			n = sz(50, 101, 257, 1001, 3000, 10001)
			build = func(n int) (string, []ddlparse.Table) {
				var b strings.Builder
				b.WriteString("(x")
				for i := 0; i < n; i++ {
					b.WriteString([]string{" + ", " AND ", " <> ", " || "}[i%4] + []string{"y", "'s'", "3.5", "f(z, 1)"}[i%4] + strconv.Itoa(i)[:0])
				}
				b.WriteString(")")
				return exprScript(ty, dt, b.String(), def)
			}
		} else {
			name = "nesting"
			n = sz(20, 33, 65, 101, 130, 257, 300, 513, 1001, 1025, 3000, 5000)
			build = func(n int) (string, []ddlparse.Table) {
				return exprScript(ty, dt, strings.Repeat("(", n+1)+"x > 1"+strings.Repeat(")", n+1), def)
			}
		}
	case 6: // long names
		name = "name"
		n = sz(31, 33, 63, 64, 65, 127, 129, 256, 257, 1024, 1025, 4097, 10000)
		quoted := s.P(50)
		build = func(n int) (string, []ddlparse.Table) {
			nm := "n" + strings.Repeat("abcdefghi_", n/10+1)[:n]
			w := nm
			if quoted {
				w = quote(identQuotes(d)[0], nm)
			}
			t := ddlparse.Table{Schema: nm, Name: nm, Columns: []ddlparse.Column{{Name: nm, DataType: dt}}}
			t.Columns[0].Constraint.References = ddlparse.Reference{TableName: nm, ColumnNames: []string{w}}
			t.Constraints.Unique = []ddlparse.Unique{{Name: nm, ColumnNames: []string{w}}}
			return "CREATE TABLE " + w + "." + w + " (" + w + " " + ty + " REFERENCES " + w + " (" + w + "), CONSTRAINT " + w + " UNIQUE (" + w + "));", []ddlparse.Table{t}
		}
	case 7: // long strings
		name = "string"
		n = sz(63, 65, 127, 255, 257, 1024, 4097, 10000, 20000)
		if s.P(5) {
			n = 66000
		}
		unit := s.Pick([]string{"x", "a b", "日", "''", ";", "\n", "--"})
		build = func(n int) (string, []ddlparse.Table) {
			v := strings.Repeat(unit, n/len(unit)+1)
			t := ddlparse.Table{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}, {Name: "b1", DataType: dt}}}
			t.Columns[0].Constraint.Default = strings.ReplaceAll(v, "''", "'")
			t.Columns[0].Constraint.IsNotNull = true
			return "CREATE TABLE t (id " + ty + " DEFAULT '" + v + "' NOT NULL, b1 " + ty + ");", []ddlparse.Table{t}
		}
	case 8: // long comments, much white space
		name = "comments"
		n = sz(127, 255, 257, 1025, 4097, 65537, 70000, 140000)
		unit := s.Pick([]string{"x", " ", "* ", "\n", "' ", "; ", "-"})
		mode := s.N(4)
		build = func(n int) (string, []ddlparse.Table) {
			v := strings.Repeat(unit, n/len(unit)+1)
			switch mode {
			case 0:
				v = "/*" + v + "*/"
			case 1:
				v = "-- " + strings.ReplaceAll(v, "\n", " ") + "\n"
			case 2:
				v = strings.Repeat(s0(unit), n)
			default:
				v = strings.Repeat("-- x\n", n/5+1)
			}
			t := ddlparse.Table{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}}}
			t.Columns[0].Constraint.IsNotNull = true
			return v + "CREATE TABLE t (id" + v + " " + ty + " NOT" + v + " NULL)" + v + ";" + v, []ddlparse.Table{t}
		}
	case 9, 10: // line numbers
		name = "error line"
		n = sz(50, 127, 255, 257, 1001, 4097, 9999, 32769, 65537, 70001)
		where := s.N(4)
		c.Kind = "sizeerr"
		c.Near = "BOGUS"
		mk := func(n int) (string, int) {
			var b strings.Builder
			switch where {
			case 0:
				b.WriteString(strings.Repeat("\n", n))
			case 1:
				for i := 0; i < n; i++ {
					b.WriteString("CREATE TABLE t (id " + ty + ");\n")
				}
			case 2:
				b.WriteString("CREATE TABLE u (id " + ty + " DEFAULT '" + strings.Repeat("\n", n/4+1) + "');")
			default:
				b.WriteString("/*" + strings.Repeat(" line\n", n) + "*/")
			}
			line := 1 + strings.Count(b.String(), "\n")
			b.WriteString("CREATE TABLE t (id BOGUS);\n\n")
			return b.String(), line
		}
		if where == 1 && n > 20000 {
			n = 20000
		}
		var sl int
		var st, bt string
		bt, c.LineLo = mk(n)
		st, sl = mk(3)
		c.LineHi, c.Count = c.LineLo, sl
		c.Texts = []Text{Text(bt), Text(st)}
		c.Labels = label(d, name)
		return c
	case 11: // column constraints and other statements
		name = "other statements"
		n = sz(50, 130, 257, 1001, 3000)
		build = func(n int) (string, []ddlparse.Table) {
			var b strings.Builder
			b.WriteString("CREATE VIEW v AS SELECT ")
			for i := 0; i < n; i++ {
				b.WriteString("(c" + strconv.Itoa(i) + "), 'x;' ,")
			}
			b.WriteString(" 1;\nCREATE TRIGGER g AFTER INSERT ON t BEGIN\n")
			for i := 0; i < n; i++ {
				b.WriteString("SELECT CASE WHEN x THEN 1 END;\n")
			}
			b.WriteString("END;\nCREATE TABLE t (id " + ty + ");")
			return b.String(), []ddlparse.Table{{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}}}}
		}
	case 13: // nested blocks, CASE and comments
		name = "nested blocks"
		n = sz(9, 17, 33, 65, 101, 129, 257, 513, 1025, 3000)
		mode := s.N(3)
		build = func(n int) (string, []ddlparse.Table) {
			var o string
			switch {
			case mode == 0 && d != SQLITE:
				o = "CREATE TRIGGER g AFTER INSERT ON t " + strings.Repeat("BEGIN SELECT 1; ", n) + strings.Repeat("END; ", n)
			case mode == 1 && d == PG:
				o = strings.Repeat("/* x ", n) + strings.Repeat("*/", n)
			default:
				o = "CREATE VIEW v AS SELECT " + strings.Repeat("CASE WHEN x THEN ", n) + "1" + strings.Repeat(" END", n) + ";"
			}
			return o + "CREATE TABLE t (id " + ty + ");" + o, []ddlparse.Table{{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}}}}
		}
	case 14: // one kind of constraint many times
		name = "constraints of one kind"
		n = sz(130, 257, 513, 1025, 2049, 4097)
		which := s.N(5)
		named := s.P(50)
		build = func(n int) (string, []ddlparse.Table) {
			var b strings.Builder
			t := ddlparse.Table{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}}}
			b.WriteString("CREATE TABLE t (id " + ty)
			for i := 0; i < n; i++ {
				k := "k" + strconv.Itoa(i)
				nm := ""
				b.WriteString(", ")
				if named && which < 4 {
					nm = "n" + k
					b.WriteString("CONSTRAINT " + nm + " ")
				}
				switch which {
				case 0:
					b.WriteString("UNIQUE (" + k + ")")
					t.Constraints.Unique = append(t.Constraints.Unique, ddlparse.Unique{Name: nm, ColumnNames: []string{k}})
				case 1:
					b.WriteString("CHECK (" + k + ")")
					t.Constraints.Check = append(t.Constraints.Check, ddlparse.Check{Name: nm, Expr: "(" + k + ")"})
				case 2:
					b.WriteString("FOREIGN KEY (" + k + ") REFERENCES o (x" + k + ")")
					t.Constraints.ForeignKey = append(t.Constraints.ForeignKey, ddlparse.ForeignKey{Name: nm, ColumnNames: []string{k}, References: ddlparse.Reference{TableName: "o", ColumnNames: []string{"x" + k}}})
				case 3:
					b.WriteString("PRIMARY KEY (" + k + ")")
					t.Constraints.PrimaryKey = append(t.Constraints.PrimaryKey, ddlparse.PrimaryKey{Name: nm, ColumnNames: []string{k}})
				default:
					switch d {
					case MYSQL:
						b.WriteString("INDEX (" + k + ") , c" + k + " " + ty)
						t.Columns = append(t.Columns, ddlparse.Column{Name: "c" + k, DataType: dt})
					case PG:
						b.WriteString("EXCLUDE (" + k + " WITH =) , c" + k + " " + ty)
						t.Columns = append(t.Columns, ddlparse.Column{Name: "c" + k, DataType: dt})
					default:
						b.WriteString("c" + k + " " + ty + " COLLATE NOCASE")
						t.Columns = append(t.Columns, ddlparse.Column{Name: "c" + k, DataType: dt, Constraint: ddlparse.Constraint{Collate: "NOCASE"}})
					}
				}
			}
			b.WriteString(");")
			return b.String(), []ddlparse.Table{t}
		}
	case 15: // tables with columns
		name = "tables x columns"
		n = sz(20, 50, 101, 130)
		build = func(n int) (string, []ddlparse.Table) {
			var b strings.Builder
			ts := []ddlparse.Table{}
			for i := 0; i < n; i++ {
				t := ddlparse.Table{Name: "t" + strconv.Itoa(i), Schema: "s1"}
				b.WriteString("CREATE TABLE s1." + t.Name + " (")
				for j := 0; j < n; j++ {
					nm := "c" + strconv.Itoa(i*j)
					b.WriteString(nm + " " + ty + " CHECK (" + nm + " > 1 OR " + nm + " IS NULL),\n")
					t.Columns = append(t.Columns, ddlparse.Column{Name: nm, DataType: dt, Constraint: ddlparse.Constraint{Check: "(" + nm + " > 1 OR " + nm + " IS NULL)"}})
				}
				b.WriteString("UNIQUE (c0, c1));\n")
				t.Constraints.Unique = []ddlparse.Unique{{ColumnNames: []string{"c0", "c1"}}}
				ts = append(ts, t)
			}
			return b.String(), ts
		}
	case 16: // everything on one line, error at the end
		name = "error after many tokens"
		n = sz(50, 257, 1001, 4097, 10001)
		c.Kind = "sizeerr"
		c.Near = "BOGUS"
		mk := func(n int) string {
			var b strings.Builder
			b.WriteString("\n\nCREATE TABLE t (id " + ty)
			for i := 0; i < n; i++ {
				b.WriteString(", c" + strconv.Itoa(i) + " " + ty + " DEFAULT " + strconv.Itoa(i))
			}
			b.WriteString(", x1 BOGUS);\n\n")
			return b.String()
		}
		c.LineLo, c.LineHi, c.Count = 3, 3, 3
		c.Texts = []Text{Text(mk(n)), Text(mk(3))}
		c.Labels = label(d, name)
		return c
	default: // numbers
		name = "digits"
		n = sz(9, 17, 20, 40, 100, 300)
		build = func(n int) (string, []ddlparse.Table) {
			num := "1" + strings.Repeat("0", n)
			f, _ := strconv.ParseFloat(num, 64)
			fr := "0." + strings.Repeat("0", n) + "25"
			g, _ := strconv.ParseFloat(fr, 64)
			t := ddlparse.Table{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}, {Name: "x1", DataType: dt}}}
			t.Columns[0].Constraint.Default = f
			t.Columns[1].Constraint.Default = g
			return "CREATE TABLE t (id " + ty + " DEFAULT " + num + ", x1 " + ty + " DEFAULT " + fr + ");", []ddlparse.Table{t}
		}
	}
	if n < 1 {
		n = 1
	}
	var big, small string
	big, c.Model = build(n)
	small, _ = build(2)
	c.Texts = []Text{Text(big), Text(small)}
	c.Labels = label(d, name)
	return c
}

func s0(unit string) string {
	if strings.TrimSpace(unit) == "" {
		return unit
	}
	return " \n"
}

func exprScript(ty string, dt ddlparse.DataType, e string, def bool) (string, []ddlparse.Table) {
	t := ddlparse.Table{Name: "t", Columns: []ddlparse.Column{{Name: "id", DataType: dt}, {Name: "z", DataType: dt}}}
	k := &t.Columns[0].Constraint
	kwd := "CHECK"
	if def {
		kwd = "DEFAULT"
		k.Default = exprString(e)
	} else {
		k.Check = e
	}
	k.IsUnique = true
	t.Constraints.Check = []ddlparse.Check{{Name: "ck", Expr: e}}
	return "CREATE TABLE t (id " + ty + " " + kwd + " " + e + " UNIQUE, z " + ty + ", CONSTRAINT ck CHECK " + e + ");", []ddlparse.Table{t}
}

// ---------- names ----------

// nameScript is a fixed script with a slot for every kind of name.
func nameScript(d Dialect) *Script {
	nm := func(x string) *Tok { return &Tok{K: NM, S: x} }
	ty := []string{"TEXT", "INTEGER", "INT"}[d]
	col := &ColDef{Name: nm("col_1"), Type: one(kw(ty)), TName: ty}
	r := &Ref{Schema: nm("rs_1"), Table: nm("rt_1"), Cols: []*Tok{nm("rc_1")}}
	if d != MYSQL {
		col.Cons = append(col.Cons, &Con{Named: true, Name: nm("con_1"), Kind: "NOTNULL", Toks: kws("NOT NULL")})
	} else {
		ck := kws("( x > 1 )")
		col.Cons = append(col.Cons, &Con{Named: true, Name: nm("con_1"), Kind: "CHECK", Check: ck, Toks: cat(kws("CHECK"), ck)})
		cl := nm("coll_1")
		col.Cons = append(col.Cons, &Con{Kind: "COLLATE", Coll: cl, Toks: []*Tok{kw("COLLATE"), cl}})
	}
	col.Cons = append(col.Cons, &Con{Kind: "REFERENCES", Ref: r, Toks: []*Tok{kw("REFERENCES"), r.Schema, sym("."), r.Table, sym("("), r.Cols[0], sym(")")}})
	col2 := &ColDef{Name: nm("col_2"), Type: one(kw(ty)), TName: ty}
	pk := &TCon{Named: true, Name: nm("pk_1"), Kind: "PRIMARY", Cols: []*Tok{nm("pc_1"), nm("pc_2")}}
	pk.Toks = []*Tok{kw("PRIMARY"), kw("KEY"), sym("("), pk.Cols[0], sym(","), pk.Cols[1], sym(")")}
	uq := &TCon{Named: true, Name: nm("uq_1"), Kind: "UNIQUE", Cols: []*Tok{nm("uc_1")}}
	uq.Toks = []*Tok{kw("UNIQUE"), sym("("), uq.Cols[0], sym(")")}
	if d == MYSQL {
		uq.Toks = insertAt(uq.Toks, 1, nm("ux_1"))
	}
	ck := &TCon{Named: true, Name: nm("ck_1"), Kind: "CHECK", Check: kws("( 1 )")}
	ck.Toks = cat(kws("CHECK"), ck.Check)
	fr := &Ref{Schema: nm("fs_1"), Table: nm("ft_1"), Cols: []*Tok{nm("fr_1"), nm("fr_2")}}
	fk := &TCon{Named: true, Name: nm("fk_1"), Kind: "FOREIGN", Cols: []*Tok{nm("fc_1"), nm("fc_2")}, Ref: fr}
	fk.Toks = []*Tok{kw("FOREIGN"), kw("KEY"), sym("("), fk.Cols[0], sym(","), fk.Cols[1], sym(")"), kw("REFERENCES"), fr.Schema, sym("."), fr.Table,
		sym("("), fr.Cols[0], sym(","), fr.Cols[1], sym(")")}
	td := &TableDef{Head: kws("CREATE TABLE"), Schema: nm("sch_1"), Name: nm("tbl_1"),
		Items: []*Item{{Col: col}, {Col: col2}, {TC: pk}, {TC: uq}, {TC: ck}, {TC: fk}}}
	if d == MYSQL {
		ix := &TCon{Toks: []*Tok{kw("INDEX"), nm("ix_1"), sym("("), nm("ic_1"), sym(")")}}
		td.Items = append(td.Items, &Item{TC: ix})
		td.Opts = append(td.Opts, &Opt{Toks: []*Tok{kw("ENGINE"), sym("="), nm("eng_1")}})
	}
	if d == PG {
		td.Opts = append(td.Opts, &Opt{Toks: []*Tok{kw("TABLESPACE"), nm("tsp_1")}})
	}
	return &Script{D: d, Stmts: []*Stmt{{Table: td}}}
}

func nameSlots(ts []*Tok) []*Tok {
	var out []*Tok
	for _, t := range ts {
		if t.K == NM {
			out = append(out, t)
		}
	}
	return out
}

// nameCase puts one spelling into a slot and says what must happen.
func nameCase(d Dialect, sc *Script, slot *Tok, k Kind, w string) *Case {
	ok, os := slot.K, slot.S
	slot.K, slot.S = k, w
	defer func() { slot.K, slot.S = ok, os }()
	ts := sc.Toks(nil)
	c := &Case{Prop: "C19", Dialect: d.String(), Texts: []Text{Text(plain(d, ts))}}
	if good, _ := recognise(d, spell(ts), false); good {
		c.Kind, c.Model, c.Aspect = "model", sc.Tables(), aAll
		c.Labels = label(d, "name accepted in slot "+os)
		return c
	}
	if good, _ := recognise(d, spell(ts), true); !good {
		c.Kind = "reject"
		c.Labels = label(d, "name rejected in slot "+os)
		return c
	}
	return nil
}

func cases3(w string) []string {
	u, l := strings.ToUpper(w), strings.ToLower(w)
	out := []string{u}
	if l != u {
		out = append(out, l, u[:1]+l[1:])
	}
	return out
}

var allWords = func() []string {
	seen := map[string]bool{}
	var out []string
	for _, l := range [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL, grammarWords, keywordish, commonNames, {"t$", "$t", "1a", "a-b", "é", "aé", "名", "a.b.c", "a b", "x'", "９", "_9", "A1_b", "9_", "ｔ"}} {
		for _, w := range l {
			if strings.ContainsAny(w, ". '") || seen[w] {
				continue
			}
			seen[w] = true
			out = append(out, w)
		}
	}
	return out
}()

func enumNames(yield func(mkCase) bool) {
	for d := SQLITE; d <= MYSQL; d++ {
		sc := nameScript(d)
		for _, slot := range nameSlots(sc.Toks(nil)) {
			for _, w := range allWords {
				for _, v := range cases3(w) {
					if !yield(func() *Case { return nameCase(d, sc, slot, NM, v) }) {
						return
					}
				}
				for _, q := range identQuotes(d) {
					if !yield(func() *Case { return nameCase(d, sc, slot, QT, quote(byte(q), w)) }) {
						return
					}
				}
			}
			for _, q := range "'\"`" {
				if !yield(func() *Case { return nameCase(d, sc, slot, QT, quote(byte(q), "abc")) }) {
					return
				}
			}
		}
	}
}

// enumTypes enumerates every documented type with every digit form.
func enumTypes(yield func(*Case) bool) {
	emit := func(d Dialect, toks []*Tok, nm string, n, m int) bool {
		for _, after := range []string{"", "NOT NULL", "UNIQUE", "DEFAULT 5", "PRIMARY KEY"} {
			for cs := 0; cs < 3; cs++ {
				c1 := &ColDef{Name: &Tok{K: NM, S: "c1"}, Type: cpToks(toks), TName: nm, N: n, M: m}
				if after != "" {
					x := &Con{Kind: map[string]string{"NOT NULL": "NOTNULL", "UNIQUE": "UNIQUE", "DEFAULT 5": "DEFAULT", "PRIMARY KEY": "PRIMARY"}[after]}
					x.Toks = kws(after)
					if x.Kind == "DEFAULT" {
						x.DefLit = float64(5)
						x.Toks[1].K = NUM
					}
					c1.Cons = append(c1.Cons, x)
				}
				ty := []string{"TEXT", "INTEGER", "INT"}[d]
				c0 := &ColDef{Name: &Tok{K: NM, S: "c0"}, Type: one(kw(ty)), TName: ty}
				c2 := &ColDef{Name: &Tok{K: NM, S: "c2"}, Type: one(kw(ty)), TName: ty}
				sc := &Script{D: d, Stmts: []*Stmt{{Table: &TableDef{Head: kws("CREATE TABLE"), Name: &Tok{K: NM, S: "t"}, Items: []*Item{{Col: c0}, {Col: c1}, {Col: c2}}}}}}
				ts := sc.Toks(nil)
				applyCase(ts, cs, 0)
				if !yield(&Case{Kind: "model", Dialect: d.String(), Texts: []Text{Text(plain(d, ts))}, Model: sc.Tables(), Aspect: aTypes | aNames | aFlags | aLits, Labels: label(d, "type enumeration")}) {
					return false
				}
			}
		}
		return true
	}
	digits := func(max int) [][]int {
		out := [][]int{{}}
		for _, n := range []int{1, 2, 9, 10, 100, 255, 256, 65535, 65536, 2147483647} {
			if max >= 1 {
				out = append(out, []int{n})
			}
			if max >= 2 {
				for _, m := range []int{1, 2, 10, 30, 255, 1000} {
					out = append(out, []int{n, m})
				}
			}
		}
		return out
	}
	with := func(d Dialect, base string, nm string, max int, tail string) bool {
		for _, ds := range digits(max) {
			ts := kws(base)
			n, m := 0, 0
			for i, v := range ds {
				if i == 0 {
					ts = append(ts, sym("("))
					n = v
				} else {
					ts = append(ts, sym(","))
					m = v
				}
				ts = append(ts, num(strconv.Itoa(v)))
			}
			if len(ds) > 0 {
				ts = append(ts, sym(")"))
			}
			ts = append(ts, kws(tail)...)
			if !emit(d, ts, nm, n, m) {
				return false
			}
		}
		return true
	}
	ok := true
	each := func(d Dialect, ws []string, max int) {
		for _, w := range ws {
			ok = ok && with(d, w, w, max, "")
		}
	}
	each(SQLITE, sqliteTypes, 0)
	each(PG, pgTypes, 0)
	each(PG, pgTypesN, 1)
	each(PG, pgTypesPS, 2)
	for _, w := range pgTypesT {
		for _, tail := range []string{"", "WITH TIME ZONE", "WITHOUT TIME ZONE"} {
			ok = ok && with(PG, w, w, 1, tail)
		}
	}
	ok = ok && with(PG, "BIT VARYING", "VARBIT", 1, "") && with(PG, "CHARACTER VARYING", "VARCHAR", 1, "") && with(PG, "DOUBLE PRECISION", "DOUBLE", 0, "")
	each(MYSQL, myTypes, 0)
	each(MYSQL, myTypesN, 1)
	each(MYSQL, myTypesPS, 2)
}

// enumTypeMistakes: every word that is a type of some dialect, bare, in every
// dialect, accepted or rejected as the reference grammar says (C21).
func enumForeign(yield func(*Case) bool) {
	seen := map[string]bool{}
	for d := SQLITE; d <= MYSQL; d++ {
		for _, l := range [][]string{sqliteTypes, pgTypes, pgTypesN, pgTypesPS, pgTypesT, myTypes, myTypesN, myTypesPS, {"DOUBLE PRECISION", "BIT VARYING", "CHARACTER VARYING", "ENUM", "STRING", "NVARCHAR", "UNSIGNED", "TINYTEXT", "LONGTEXT", "INTERVAL", "CLOB", "NUMBER", "DOUBLE"}} {
			for _, w := range l {
				for _, dg := range []string{"", "( 5 )", "( 5 , 2 )", "WITH TIME ZONE", "( 3 ) WITHOUT TIME ZONE"} {
					key := d.String() + w + dg
					if seen[key] {
						continue
					}
					seen[key] = true
					ts := cat(kws("CREATE TABLE"), one(&Tok{K: NM, S: "t"}), kws("("), one(&Tok{K: NM, S: "c1"}), kws(w), kws(dg), kws(") ;"))
					if c := verdict(d, ts); c != nil {
						c.Labels = label(d, "type in every dialect")
						if !yield(c) {
							return
						}
					}
				}
			}
		}
		ty := []string{"TEXT", "INTEGER", "INT"}[d]
		for _, cl := range clauseList {
			for _, table := range []bool{false, true} {
				ts := cat(kws("CREATE TABLE"), one(&Tok{K: NM, S: "t"}), kws("("), one(&Tok{K: NM, S: "c1"}), kws(ty))
				if table {
					ts = append(ts, sym(","))
				}
				for _, w := range strings.Fields(cl) {
					ts = append(ts, spellTok(w))
				}
				ts = append(ts, kws(") ;")...)
				if c := verdict(d, ts); c != nil {
					c.Labels = label(d, "clause in every dialect")
					if !yield(c) {
						return
					}
				}
			}
		}
		for _, cl := range optionList {
			ts := cat(kws("CREATE TABLE"), one(&Tok{K: NM, S: "t"}), kws("("), one(&Tok{K: NM, S: "c1"}), kws(ty), kws(")"))
			for _, w := range strings.Fields(cl) {
				ts = append(ts, spellTok(w))
			}
			ts = append(ts, sym(";"))
			if c := verdict(d, ts); c != nil {
				c.Labels = label(d, "option in every dialect")
				if !yield(c) {
					return
				}
			}
		}
		for e := SQLITE; e <= MYSQL; e++ {
			for _, h := range append(append([]string{}, otherHeads[e]...), "TEMP TABLE", "TEMPORARY TABLE", "OR REPLACE VIEW", "PACKAGE", "UNLOGGED TABLE", "GLOBAL TEMPORARY TABLE", "FULLTEXT INDEX", "TEMP") {
				ts := cat(kws("CREATE"), kws(h), one(&Tok{K: NM, S: "v1"}), kws("( c1 "+ty+" ) ;"))
				if c := verdict(d, ts); c != nil {
					c.Labels = label(d, "statement in every dialect")
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func spellTok(w string) *Tok {
	switch {
	case strings.Contains("(),.;=", w):
		return sym(w)
	case strings.ContainsAny(w[:1], "'\"`") || w[0] == '$' && len(w) > 3 && strings.HasSuffix(w, "$"):
		return &Tok{K: QT, S: w}
	case w[0] >= '0' && w[0] <= '9' || w[0] == '-' && len(w) > 1:
		return num(w)
	case w[0] >= 'a' && w[0] <= 'z':
		return &Tok{K: NM, S: w}
	case w[0] >= 'A' && w[0] <= 'Z':
		return kw(w)
	}
	return op(w)
}

// clauses of all dialects, tried after a column type and as a table item
var clauseList = strings.Split(`PRIMARY KEY|KEY|PRIMARY|PRIMARY KEY ASC|PRIMARY KEY DESC AUTOINCREMENT|PRIMARY KEY ON CONFLICT ABORT|AUTOINCREMENT|AUTO_INCREMENT|UNIQUE|UNIQUE KEY|UNIQUE INDEX|UNIQUE ON CONFLICT FAIL|NOT NULL|NULL|NOT NULL ON CONFLICT IGNORE
DEFAULT 1|DEFAULT -1.5|DEFAULT 'x'|DEFAULT "x"|DEFAULT abc|DEFAULT inf|DEFAULT NULL|DEFAULT TRUE|DEFAULT CURRENT_TIMESTAMP|DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP|DEFAULT ( 1 + 2 )|DEFAULT|DEFAULT ( )|DEFAULT 1 2
CHECK ( x > 1 )|CHECK x > 1|CHECK ( x ) NO INHERIT|CHECK ( x ) ENFORCED|CHECK ( x ) NOT ENFORCED|COLLATE NOCASE|COLLATE utf8|COLLATE "de_DE"|COLLATE BINARY|REFERENCES o|REFERENCES o ( id )|REFERENCES o ( id , k )|REFERENCES s . o ( id )
REFERENCES o ( id ) ON DELETE CASCADE|REFERENCES o ( id ) ON UPDATE SET NULL|REFERENCES o ( id ) ON DELETE|REFERENCES o ( id ) MATCH FULL|REFERENCES o ( id ) MATCH foo|REFERENCES o ( id ) DEFERRABLE INITIALLY DEFERRED|REFERENCES o ( id ) NOT DEFERRABLE
GENERATED ALWAYS AS ( x )|GENERATED ALWAYS AS ( x ) STORED|GENERATED ALWAYS AS ( x ) VIRTUAL|GENERATED ALWAYS AS IDENTITY|GENERATED BY DEFAULT AS IDENTITY|GENERATED BY DEFAULT AS IDENTITY ( START WITH 10 )|AS ( x )|AS ( x ) STORED|GENERATED ALWAYS|GENERATED BY DEFAULT AS ( x )
COMMENT 'x'|COMMENT x|COMMENT "x"|COLUMN_FORMAT FIXED|COLUMN_FORMAT BAD|STORAGE DISK|STORAGE x|VISIBLE|INVISIBLE|ENGINE_ATTRIBUTE 'x'|ENGINE_ATTRIBUTE = 'x'|SECONDARY_ENGINE_ATTRIBUTE = 'x'|VIRTUAL|STORED|UNSIGNED|ZEROFILL|CHARACTER SET utf8
PRIMARY KEY WITH ( fillfactor = 70 )|UNIQUE INCLUDE ( k )|UNIQUE USING INDEX TABLESPACE ts|UNIQUE USING BTREE
CONSTRAINT n NOT NULL|CONSTRAINT n CHECK ( x )|CONSTRAINT CHECK ( x )|CONSTRAINT n|CONSTRAINT n n NOT NULL|CONSTRAINT 'n' NOT NULL|CONSTRAINT n PRIMARY KEY
PRIMARY KEY ( k )|PRIMARY KEY ( k , l )|PRIMARY KEY ( )|PRIMARY KEY ( k , )|PRIMARY KEY ( k l )|PRIMARY KEY ( k ASC )|PRIMARY KEY ( k ( 10 ) DESC )|PRIMARY KEY USING BTREE ( k )|PRIMARY KEY ( k ) ON CONFLICT REPLACE|PRIMARY KEY ( k ) INCLUDE ( l )|PRIMARY KEY ( k ) USING HASH
UNIQUE ( k )|UNIQUE KEY u ( k )|UNIQUE INDEX ( k )|UNIQUE u ( k )|UNIQUE ( k ) ON CONFLICT FAIL|UNIQUE ( ( k + 1 ) )|UNIQUE ( k ) WITH ( f = 1 )|UNIQUE ( k ) KEY_BLOCK_SIZE = 8|UNIQUE ( k ) COMMENT 'x' VISIBLE
CHECK ( )|CHECK ( ( x )|CHECK ( x ) )|CHECK|FOREIGN KEY ( k ) REFERENCES o|FOREIGN KEY ( k ) REFERENCES o ( id )|FOREIGN KEY f ( k ) REFERENCES o ( id )|FOREIGN KEY ( k , l ) REFERENCES o ( id , m ) ON DELETE NO ACTION|FOREIGN KEY ( k )|FOREIGN KEY REFERENCES o ( id )|FOREIGN KEY ( k ) REFERENCES o ( id ) DEFERRABLE|FOREIGN ( k ) REFERENCES o ( id )
INDEX ( k )|INDEX i ( k )|KEY i ( k )|KEY i USING HASH ( k )|FULLTEXT ( k )|FULLTEXT INDEX i ( k )|SPATIAL KEY ( k )|INDEX i|EXCLUDE ( k WITH && )|EXCLUDE USING gist ( k WITH && )|EXCLUDE USING gist ( k WITH && ) WHERE ( x )|LIKE o|LIKE o INCLUDING ALL
CONSTRAINT n PRIMARY KEY ( k )|CONSTRAINT PRIMARY KEY ( k )|CONSTRAINT n UNIQUE ( k )|CONSTRAINT n FOREIGN KEY ( k ) REFERENCES o ( id )|CONSTRAINT n CONSTRAINT m UNIQUE ( k )|CONSTRAINT n EXCLUDE ( k WITH && )`, "|")

func init() {
	var out []string
	for _, x := range clauseList {
		out = append(out, strings.Split(x, "\n")...)
	}
	clauseList = out
}

var optionList = strings.Split(`WITHOUT ROWID|STRICT|WITHOUT ROWID , STRICT|STRICT , WITHOUT ROWID|WITHOUT|ROWID|STRICT , STRICT|STRICT ,|WITHOUT OIDS|WITH ( fillfactor = 70 )|WITH|TABLESPACE ts|INHERITS ( p )|PARTITION BY RANGE ( k )|PARTITION BY LIST ( k )|PARTITION BY BAD ( k )|USING heap|ON COMMIT DROP|ENGINE = InnoDB|ENGINE InnoDB|ENGINE = innodb|ENGINE|AUTO_INCREMENT = 10|AUTO_INCREMENT 10|AUTO_INCREMENT = x|DEFAULT CHARSET = utf8|DEFAULT CHARACTER SET = utf8|CHARACTER SET utf8|COLLATE = utf8_bin|COLLATE utf8_bin|DEFAULT COLLATE utf8_bin|COMMENT = 'x'|COMMENT 'x'|COMMENT = x|ROW_FORMAT = COMPACT|ROW_FORMAT = BAD|CHECKSUM = 1|CHECKSUM = 2|PACK_KEYS = DEFAULT|INSERT_METHOD = FIRST|INSERT_METHOD = MIDDLE|UNION = ( a1 , b1 )|UNION = ( )|DATA DIRECTORY = '/x'|INDEX DIRECTORY '/x'|TABLESPACE ts STORAGE DISK|ENCRYPTION = 'Y'|COMPRESSION = 'ZLIB'|STATS_PERSISTENT = 1|MAX_ROWS = 5 , MIN_ROWS = 2|MAX_ROWS 5 MIN_ROWS 2|KEY_BLOCK_SIZE = 8|AS SELECT 1|( x )|x|1|'x'|, STRICT`, "|")

// verdict makes an accept / reject case from the reference grammars.
func verdict(d Dialect, ts []*Tok) *Case {
	c := &Case{Dialect: d.String(), Texts: []Text{Text(plain(d, ts))}}
	if good, _ := recognise(d, spell(ts), false); good {
		c.Kind = "accept"
		return c
	}
	if good, _ := recognise(d, spell(ts), true); !good {
		c.Kind = "reject"
		return c
	}
	return nil
}

// portable: every token, possibly made for another dialect, is one token in b.
func portable(b Dialect, ts []*Tok) bool {
	for _, t := range ts {
		if b == MYSQL && t.K != QT && strings.Contains(t.S, "#") {
			return false
		}
		if b != PG && strings.HasPrefix(t.S, "$") {
			return false
		}
		if t.K == QT && !wholeQuoted(b, t.S) {
			return false
		}
	}
	return true
}

// wholeQuoted: the quoted text ends exactly at its last character.
func wholeQuoted(d Dialect, x string) bool {
	rs := []rune(x)
	if len(rs) < 2 || !strings.ContainsRune("'\"`", rs[0]) {
		return true
	}
	for i := 1; i < len(rs); i++ {
		if d == MYSQL && rs[0] != '`' && rs[i] == '\\' {
			i++
		} else if rs[i] == rs[0] {
			if i+1 < len(rs) && rs[i+1] == rs[0] {
				i++
			} else {
				return i == len(rs)-1
			}
		}
	}
	return false
}

func init() {
	raw := "inputs: valid scripts of the three dialects truncated at any character or byte, byte- and token-mutated scripts, token soup, random bytes and runes, one piece repeated up to 3000 times; "

	reg("C01", raw+"first a few texts of several megabytes (3 million nested or unclosed brackets, nested comments; thorough also 2 million tables and statements, 5 million columns, 6 million key columns); non-trivial: the text is not empty and was not judged before", func(s *Src) *Case {
		x, how := genRaw(s)
		return &Case{Kind: "returns", Texts: []Text{Text(x)}, Labels: []string{how}, Trivial: x == ""}
	}).Enum = eager(enumHuge)

	reg("C02", raw+"also valid scripts with a known number of tables and valid scripts followed by an incomplete statement; non-trivial: not empty and distinct", func(s *Src) *Case {
		switch s.W(50, 20, 30) {
		case 0:
			x, how := genRaw(s)
			return &Case{Kind: "outcome", Texts: []Text{Text(x)}, Labels: []string{how}, Trivial: x == ""}
		case 1:
			d := genDialect(s)
			p := smallProf()
			p.MaxT, p.Tables = 8, 70
			sc := genScript(s, d, p)
			return &Case{Kind: "count", Dialect: d.String(), Texts: []Text{text(s, d, sc.Toks(nil))}, Count: len(sc.Tables()), Labels: label(d, "valid")}
		default:
			d := genDialect(s)
			p := smallProf()
			p.MaxT, p.Tables, p.NoSemi = 5, 70, 0
			ts := cpToks(genScript(s, d, p).Toks(nil))
			tail := cpToks(genScript(s, d, smallProf()).Toks(nil))
			if s.P(60) {
				tail = tail[:s.N(len(tail))]
			} else {
				tail, _ = editToks(s, d, tail)
			}
			ts = append(ts, tail...)
			if ok, _ := recognise(d, spell(ts), true); ok {
				return skipCase
			}
			x, _ := renderEdited(s, d, ts)
			return &Case{Kind: "nopartial", Dialect: d.String(), Texts: []Text{Text(x)}, Labels: label(d, "valid then invalid")}
		}
	})

	reg("C03", "histories of 2 to 10 calls over 1 to 4 related texts (near copies, valid and invalid), with concurrent calls, scribbling over returned tables, and, for part of the cases, each history and each single call in a process of its own as reference; non-trivial: at least one (text, dialect) pair is parsed more than once or in a process of its own", func(s *Src) *Case {
		c := &Case{Kind: "history", Texts: genHistTexts(s)}
		if s.P(1) {
			c.Kind = "fresh"
			c.Ops = genOps(s, len(c.Texts), false)
			c.Labels = []string{"reference from a fresh process"}
			return c
		}
		c.Ops = genOps(s, len(c.Texts), true)
		seen := map[string]bool{}
		c.Trivial = true
		for _, o := range c.Ops {
			k := fmt.Sprint(o.Text, o.Dialect)
			if seen[k] || o.Par > 1 {
				c.Trivial = false
			}
			seen[k] = true
			if o.Par > 1 {
				c.Labels = append(c.Labels, "concurrent")
			}
			if o.Mutate {
				c.Labels = append(c.Labels, "result overwritten")
			}
		}
		return c
	})

	reg("C04", "scripts derived from the documented grammar (all clauses, orders, names, literals), and edited scripts that the reference recogniser (min grammar) still derives; all layouts and letter cases; non-trivial: distinct text", func(s *Src) *Case {
		d := genDialect(s)
		p := defProf()
		p.NoCols = 0 // not documented
		if s.P(30) {
			p.Con, p.Ign, p.TC, p.Opts = 45, 45, 65, 60
		}
		if s.P(25) {
			p.Ign = 60
			p.MaxC, p.MaxTC = 3, 3
		}
		if s.P(25) {
			// edited, still valid
			p := smallProf()
			for try := 0; try < 4; try++ {
				sc := genScript(s, d, p)
				if s.P(30) {
					breakScript(s, sc)
				}
				ts := cpToks(sc.Toks(nil))
				for n := s.R(0, 2); n > 0; n-- {
					ts, _ = editToks(s, d, ts)
				}
				if ok, _ := recognise(d, spell(ts), false); ok && len(ts) > 0 && portable(d, ts) {
					x, _ := renderEdited(s, d, ts)
					return &Case{Kind: "accept", Dialect: d.String(), Texts: []Text{Text(x)}, Labels: label(d, "edited")}
				}
			}
		}
		sc := genScript(s, d, p)
		ts := sc.Toks(nil)
		if ok, at := recognise(d, spell(ts), false); !ok {
			panic(fmt.Sprintf("harness: generated script not in the min grammar at token %d: %s", at, plain(d, ts)))
		}
		return &Case{Kind: "accept", Dialect: d.String(), Texts: []Text{lastText(s, d, ts)}, Labels: label(d, "derived")}
	}).Enum = eager(enumForeignKind("accept"))

	reg("C05", "valid scripts after 1 to 3 token edits (delete, duplicate, insert, replace, swap, misspell, truncate, reserved word / string / number for a name) or a structural mistake (repeated constraint, NULL with NOT NULL, clause of another dialect, digits, options) that the reference recogniser (max grammar) does not derive; non-trivial: distinct text", func(s *Src) *Case {
		d := genDialect(s)
		ts, how, _, _, ok := invalidToks(s, d)
		if !ok {
			return skipCase
		}
		x, _ := renderEdited(s, d, ts)
		return &Case{Kind: "reject", Dialect: d.String(), Texts: []Text{Text(x)}, Labels: label(d, strings.SplitN(how, "+", 2)[0])}
	}).Enum = eager(enumForeignKind("reject"))

	reg("C06", "invalid scripts as for C05 for which both reference grammars agree on the first token that cannot continue, and valid scripts with one lexical fault (unterminated quote or comment, stray */, illegal character), in layouts with comments, blank lines and multi-line quoted text; non-trivial: distinct text", func(s *Src) *Case {
		d := genDialect(s)
		if s.P(20) {
			return lexFault(s, d)
		}
		ts, how, at, sure, ok := invalidToks(s, d)
		if !ok || !sure {
			return skipCase
		}
		if at < len(ts) && at > 0 && strings.EqualFold(ts[at].S, "NULL") && strings.EqualFold(ts[at-1].S, "NOT") {
			return skipCase
		}
		for _, t := range ts {
			// the lexer reports a backtick before anything else
			if d == PG && strings.HasPrefix(t.S, "`") {
				return skipCase
			}
		}
		x, pos := renderEdited(s, d, ts)
		c := &Case{Kind: "errpos", Dialect: d.String(), Texts: []Text{Text(x)}, Labels: label(d, strings.SplitN(how, "+", 2)[0])}
		if at >= len(ts) {
			c.Near, c.LineLo, c.LineHi = "<EOF>", lines(x), lines(x)
			c.Labels = append(c.Labels, "at end")
		} else {
			c.Near, c.LineLo, c.LineHi = ts[at].S, pos[at].First, pos[at].Last
			if pos[at].First > 1 {
				c.Labels = append(c.Labels, "not on line 1")
			}
		}
		return c
	})

	reg("C07", "scripts of up to 40 tables and 90 columns with table constraints and indexes before, between and after the columns and other statements between the tables, against the generator's model (tables, schema, names, flags, columns); non-trivial: distinct text", modelGen(aNames, func(s *Src) Prof {
		p := defProf()
		p.Tables, p.MidTC, p.Cols, p.Con, p.Expr, p.Ign = 55, 30, 70, 10, 2, 25
		p.Schema, p.Quoted, p.Kwish = 40, 30, 35
		if s.P(15) {
			p.OnlyTC = []string{s.Pick([]string{"PRIMARY", "UNIQUE", "CHECK", "FOREIGN"})}
		}
		return p
	}))

	reg("C08", "random columns of every documented type with and without digits between other columns and constraints, plus the complete enumeration of type x digits x following constraint x letter case; non-trivial: distinct text", modelGen(aTypes, func(s *Src) Prof {
		p := defProf()
		p.Cols, p.MaxC, p.Con, p.TC, p.Expr = 75, 10, 12, 15, 2
		p.Digits = 70
		return p
	})).Enum = eager(enumTypes)

	reg("C09", "columns with random sets and orders of constraints, named and unnamed, with ignored clauses between them and keyword-like names, against the model (flags, name, collation); non-trivial: distinct text", modelGen(aFlags, func(s *Src) Prof {
		p := defProf()
		p.Con, p.Ign, p.Kwish, p.ConNames, p.TC, p.Expr = s.R(15, 60), s.R(5, 60), 45, 35, 20, 3
		p.Cols = 65
		return p
	}))

	c10 := modelGen(aLits, func(s *Src) Prof {
		p := defProf()
		p.OnlyCon = []string{"DEFAULT"}
		p.DefW = [2]int{85, 15}
		p.TC, p.Cols = 15, 70
		return p
	})
	reg("C10", "DEFAULT with generated numbers (sign, fraction, exponent, many digits), strings, TRUE, FALSE, NULL, current-time keywords among other constraints, against the model; and DEFAULT with words and malformed numbers that must be rejected; non-trivial: distinct text", func(s *Src) *Case {
		if s.P(15) {
			d := genDialect(s)
			ty := []string{"TEXT", "INTEGER", "INT"}[d]
			bad := s.Pick([]string{"inf", "nan", "Infinity", "-inf", "+Inf", "NaN", "infinity", "abc", "foo", "1abc", "--", "1.2.3", "e5", "TRUEE", "NUL", "NULLS", "CURRENT", "CURRENT_TIMESTAMPS", "now", "é", ",", ")", "=", "1e", "-", "+", ".", "\"x", "`a`", "INF", "iNf", "nAn", "x1", "yes", "on", "ſ", "1e5x", "12a", "_1", "t", "f", "USER", "ROW", "current", "-infinity", "-nan", "+nan", "1_", "1e+", "$1"})
			if bad == "--" || bad == "\"x" {
				bad = "foo"
			}
			tk := wd(bad)
			if strings.ContainsAny(bad, ",)=") {
				tk = sym(bad)
			} else if bad[0] == '`' {
				tk.K = QT
			}
			pre, post := []*Tok{}, []*Tok{}
			if s.P(40) {
				pre = kws(s.Pick([]string{"UNIQUE", "NOT NULL", "PRIMARY KEY"}))
			} else if s.P(40) {
				post = kws(s.Pick([]string{"UNIQUE", "NOT NULL", "PRIMARY KEY"}))
			}
			ts := cat(kws("CREATE TABLE"), one(&Tok{K: NM, S: "t1"}), kws("("), one(&Tok{K: NM, S: "c1"}), kws(ty), pre, kws("DEFAULT"), one(tk), post, kws(") ;"))
			if ok, _ := recognise(d, spell(ts), true); ok {
				return skipCase
			}
			x, _ := renderEdited(s, d, ts)
			return &Case{Kind: "reject", Dialect: d.String(), Texts: []Text{Text(x)}, Labels: label(d, "not a literal")}
		}
		return c10(s)
	})

	reg("C11", "CHECK (column and table) and parenthesised DEFAULT with generated expressions (nested parentheses, functions, lists, CASE, operators, prefixed and multi-line strings, quoted names) in all layouts; the reported text is split by an independent tokenizer and compared token by token; non-trivial: distinct text", modelGen(aExprs, func(s *Src) Prof {
		p := defProf()
		p.OnlyCon = []string{"CHECK", "DEFAULT"}
		p.OnlyTC = []string{"CHECK"}
		p.DefW = [2]int{10, 90}
		p.Expr = s.R(2, 8)
		p.TC, p.Cols, p.MaxC, p.Tables = 60, 45, 3, 20
		return p
	}))

	reg("C12", "tables with many table-level constraints of every kind in every order, named and unnamed, MySQL key parts with lengths, orders and expressions, index definitions between them, against the model; non-trivial: distinct text", modelGen(aTCons, func(s *Src) Prof {
		p := defProf()
		p.TC, p.MaxTC, p.MidTC, p.Cols, p.MaxC, p.Con = 80, 8, 25, 40, 4, 10
		p.ConNames, p.Expr, p.Ign = 40, 2, 30
		return p
	}))

	reg("C13", "column REFERENCES and table FOREIGN KEY with and without schema, columns, actions, MATCH, DEFERRABLE, followed by other constraints, against the model (reference targets and flags of the same column); non-trivial: distinct text", modelGen(aRefs|aFlags, func(s *Src) Prof {
		p := defProf()
		p.OnlyCon = []string{"REFERENCES", "NOTNULL"}
		p.OnlyTC = []string{"FOREIGN"}
		p.Ign, p.Schema, p.TC, p.Expr, p.Kwish = s.R(10, 60), 35, 60, 2, 35
		return p
	}))

	reg("C14", "scripts full of clauses that the Table object does not represent; the same script with all, some and none of them is parsed and the tables compared; non-trivial: at least one clause was removed", func(s *Src) *Case {
		d := genDialect(s)
		p := defProf()
		p.Ign, p.Opts, p.Others, p.Con = s.R(25, 80), 70, 0, 35
		p.MaxC, p.MaxT = 4, 2
		p.NoCols = 0 // a table may not lose its last item
		sc := genScript(s, d, p)
		genCase(s, sc.Toks(nil))
		l := genLayout(s, d)
		render := func(drop map[int]bool) Text {
			l2 := l
			x, _ := l2.Render(sc.Toks(drop))
			return Text(x)
		}
		all := map[int]bool{}
		for i := 1; i <= sc.NGrp; i++ {
			all[i] = true
		}
		c := &Case{Kind: "same", Dialect: d.String(), Model: sc.Tables(), Labels: label(d), Trivial: sc.NGrp == 0}
		c.Texts = []Text{render(all), render(nil)}
		for k := 0; k < 2 && sc.NGrp > 1; k++ {
			drop := map[int]bool{}
			for i := 1; i <= sc.NGrp; i++ {
				if s.P(50) {
					drop[i] = true
				}
			}
			c.Texts = append(c.Texts, render(drop))
		}
		return c
	})

	reg("C15", "scripts with generated views, triggers, indexes, functions, sequences ... (BEGIN ... END with nested blocks, CASE, END IF, loops, dollar quotes, hostile strings) before, between and after the tables, compared with the same script without them; non-trivial: at least one other statement", func(s *Src) *Case {
		d := genDialect(s)
		p := smallProf()
		p.Others, p.MaxT, p.Tables, p.Con, p.NoSemi = 60, 4, 50, 12, 10
		sc := genScript(s, d, p)
		n := len(sc.Stmts)
		ts := sc.Toks(nil)
		genCase(s, ts)
		l := genLayout(s, d)
		x, _ := l.Render(ts)
		model := sc.Tables()
		dropOthers(sc)
		c := &Case{Kind: "same", Dialect: d.String(), Model: model, Trivial: len(sc.Stmts) == n, Labels: label(d, fmt.Sprintf("%d other", min(n-len(sc.Stmts), 5)))}
		c.Texts = []Text{Text(plain(d, sc.Toks(nil))), Text(x)}
		if s.P(8) { // no table at all
			g := &G{s: s, d: d, p: p}
			ts := g.other()
			genCase(s, ts)
			y, _ := l.Render(ts)
			c.Texts = []Text{"", Text(y)}
			c.Model = nil
			c.Trivial = false
		}
		return c
	})

	reg("C16", "each script in plain layout and in three other layouts (minimal, pretty, wild: every separator any mix of blanks, tabs, LF, CRLF, line, block, nested and # comments with hostile content), and invalid scripts (as for C05) in three layouts; non-trivial: the texts differ", func(s *Src) *Case {
		d := genDialect(s)
		if s.P(25) {
			ts, _, _, _, ok := invalidToks(s, d)
			if !ok {
				return skipCase
			}
			c := &Case{Kind: "relayout", Dialect: d.String(), Labels: label(d, "invalid")}
			for _, l := range []Layout{{D: d}, {D: d, Mode: 3, Comments: true, Rng: uint64(s.next())}, {D: d, Mode: 2 + s.N(2), Comments: s.P(60), Rng: uint64(s.next())}} {
				l.Always = true
				x, _ := l.Render(ts)
				c.Texts = append(c.Texts, Text(x))
			}
			return c
		}
		p := smallProf()
		p.Con = 30
		sc := genScript(s, d, p)
		ts := sc.Toks(nil)
		genCase(s, ts)
		c := &Case{Kind: "same", Dialect: d.String(), Model: sc.Tables(), Labels: label(d)}
		pl := Layout{D: d}
		x, _ := pl.Render(ts)
		c.Texts = []Text{Text(x)}
		add := func(l Layout) {
			l.OpenEnd = s.P(40)
			y, _ := l.Render(ts)
			if !l.OpenEnd && s.P(20) {
				y += s.Pick([]string{" -- the end", "--", "\n/* end */", "/**/", "\r\n", "\n\n\t ", " --'", "/***/ -- x"})
			}
			if y != x {
				c.Texts = append(c.Texts, Text(y))
			}
		}
		add(Layout{D: d, Mode: 1})
		add(Layout{D: d, Mode: 3, Comments: true, Rng: uint64(s.next())})
		add(Layout{D: d, Mode: 2 + s.N(2), Comments: s.P(60), Rng: uint64(s.next())})
		c.Trivial = len(c.Texts) < 2
		return c
	})

	reg("C17", "each script with all keywords and type names in upper case and again with every word in upper, lower, capitalised or mixed case independently (or a single word changed), and invalid scripts (as for C05) with every unquoted word in other letter case; non-trivial: the texts differ", func(s *Src) *Case {
		d := genDialect(s)
		if s.P(30) {
			ts, _, _, _, ok := invalidToks(s, d)
			if !ok {
				return skipCase
			}
			ts = cpToks(ts)
			l := Layout{D: d, Mode: s.N(2)}
			x, _ := l.Render(ts)
			l2 := Layout{D: d, Mode: l.Mode}
			y, _ := l2.Render(recase(ts, 1+s.N(4), uint64(s.next())))
			return &Case{Kind: "recase", Dialect: d.String(), Texts: []Text{Text(x), Text(y)}, Labels: label(d, "invalid"), Trivial: x == y}
		}
		p := smallProf()
		p.Con, p.Ign, p.Opts, p.Others = 35, 30, 40, 15
		sc := genScript(s, d, p)
		ts := sc.Toks(nil)
		l := Layout{D: d, Mode: s.N(3)}
		x, _ := l.Render(ts)
		if s.P(25) {
			i := pickIdx(s, ts, func(t *Tok) bool { return t.K == KW || t.K == KV })
			applyCase(ts[i:i+1], 1+s.N(3), uint64(s.next()))
		} else {
			applyCase(ts, 1+s.N(4), uint64(s.next()))
		}
		l2 := Layout{D: d, Mode: l.Mode}
		y, _ := l2.Render(ts)
		return &Case{Kind: "case", Dialect: d.String(), Texts: []Text{Text(x), Text(y)}, Model: sc.Tables(), Labels: label(d), Trivial: x == y}
	})

	reg("C18", "2 to 5 scripts of complete statements parsed alone and concatenated; the last one may be invalid (edited tokens, truncated, raw text); non-trivial: every part has tokens", func(s *Src) *Case {
		d := genDialect(s)
		n := s.R(2, 5)
		c := &Case{Kind: "concat", Dialect: d.String(), Texts: []Text{""}, Labels: label(d)}
		whole := ""
		for i := 0; i < n; i++ {
			p := smallProf()
			p.NoSemi = 0
			var x string
			if i == n-1 && s.P(50) {
				switch s.N(3) {
				case 0:
					x, _ = genRaw(s)
					if len(x) > 4000 {
						x = x[:4000]
					}
				case 1:
					ts := cpToks(genScript(s, d, p).Toks(nil))
					ts, _ = editToks(s, d, ts)
					x, _ = renderEdited(s, d, ts)
				default:
					y := []rune(string(text(s, d, genScript(s, d, p).Toks(nil))))
					x = string(y[:s.N(len(y)+1)])
				}
				c.Labels = append(c.Labels, "last part edited")
			} else {
				x = string(text(s, d, genScript(s, d, p).Toks(nil)))
			}
			if x == "" {
				c.Trivial = true
			}
			c.Texts = append(c.Texts, Text(x))
			whole += x
		}
		c.Texts[0] = Text(whole)
		return c
	})

	reg("C19", "random scripts dominated by quoted, keyword-like and odd names against the model, names replaced by reserved or malformed words, and the complete enumeration of every reserved word of the three dialects and every grammar word x every name slot x letter case x quoting; non-trivial: distinct text", func(s *Src) *Case {
		d := genDialect(s)
		if s.P(30) {
			sc := nameScript(d)
			sl := nameSlots(sc.Toks(nil))
			slot := sl[s.N(len(sl))]
			var c *Case
			switch s.N(3) {
			case 0:
				c = nameCase(d, sc, slot, NM, genIdent(s, d, 70))
			case 1:
				qs := identQuotes(d)
				c = nameCase(d, sc, slot, QT, quote(qs[s.N(len(qs))], genContent(s, d, false)))
			default:
				w := ""
				for n := s.R(1, 6); n > 0; n-- {
					w += s.Pick([]string{"a", "Z", "_", "9", "é", "日", "$", "@", "!", "ſ", "K", "x1"})
				}
				if d == PG && strings.Contains(w, "$") {
					w = strings.ReplaceAll(w, "$", "é")
				}
				c = nameCase(d, sc, slot, NM, w)
			}
			if c == nil {
				return skipCase
			}
			return c
		}
		p := smallProf()
		p.Quoted, p.Kwish, p.Schema, p.ConNames = s.R(20, 90), 50, 50, 40
		sc := genScript(s, d, p)
		ts := sc.Toks(nil)
		x := text(s, d, ts)
		return &Case{Kind: "model", Dialect: d.String(), Texts: []Text{x}, Model: sc.Tables(), Aspect: aNames | aFlags | aTCons | aRefs, Labels: label(d, "random script")}
	}).Enum = enumNames

	reg("C20", "random scripts (hostile names and strings, all kinds of defaults), scripts without tables or without tokens; results are encoded, decoded, compared, and every object's keys and values compared with the documented ones; non-trivial: distinct text", func(s *Src) *Case {
		d := genDialect(s)
		c := &Case{Kind: "json", Dialect: d.String(), Labels: label(d)}
		if s.P(6) {
			c.Texts = []Text{Text(s.Pick([]string{"", " ", "\n", "\n\n\t", "-- x\n", "/* x */", "-- x", "\r\n", " /**/ "}))}
			c.Count = -1
			c.Labels = label(d, "no statements")
			return c
		}
		if s.P(25) {
			// whatever the parser makes of an edited script must be encodable too
			ts := cpToks(genScript(s, d, smallProf()).Toks(nil))
			ts, _ = editToks(s, d, ts)
			x, _ := renderEdited(s, d, ts)
			c.Texts = []Text{Text(x)}
			c.Labels = label(d, "edited")
			return c
		}
		p := defProf()
		p.Con, p.TC, p.MaxC = 30, 60, 5
		sc := genScript(s, d, p)
		c.Texts = []Text{text(s, d, sc.Toks(nil))}
		return c
	})

	c21 := reg("C21", "scripts generated for one dialect given to another (accepted or rejected as that dialect's reference grammar says), comment and quoting styles of other dialects, the entry points named after a dialect against Parse, and the complete enumeration of documented types, clauses, options and statements x dialect; non-trivial: distinct text", func(s *Src) *Case {
		a := genDialect(s)
		b := Dialect((int(a) + 1 + s.N(2)) % 3)
		switch s.W(60, 15, 25) {
		case 0:
			p := smallProf()
			p.Con, p.Ign, p.Opts, p.TC, p.Quoted = s.R(5, 30), s.R(0, 15), 10, 30, 15
			p.MaxT, p.MaxC = 2, 2
			sc := genScript(s, a, p)
			ts := cpToks(sc.Toks(nil))
			if !portable(b, ts) {
				return skipCase
			}
			c := verdict(b, ts)
			if c == nil {
				return skipCase
			}
			l := genLayout(s, b)
			l.Comments, l.Always = false, true
			x, _ := l.Render(ts)
			c.Texts = []Text{Text(x)}
			c.Labels = label(b, a.String()+" script "+c.Kind)
			return c
		case 1: // comment style
			p := smallProf()
			sc := genScript(s, b, p)
			ts := sc.Toks(nil)
			i := s.N(len(ts))
			for ts[i].Glue {
				i--
			}
			h, _ := (&Layout{D: b}).Render(ts[:i])
			t, _ := (&Layout{D: b}).Render(ts[i:])
			c := &Case{Dialect: b.String()}
			bad := s.Pick([]string{" # note\n ", "\n# x y\n", " # CREATE\n"})
			c.Texts = []Text{Text(h + bad + t)}
			inOther := false
			pos := 0
			for _, st := range sc.Stmts {
				n := len(st.Other)
				if st.Table != nil {
					n = len(st.Table.toks(nil))
				}
				if i > pos && i < pos+n && st.Table == nil {
					inOther = true
				}
				pos += n
			}
			depth, groups := 0, 0
			for _, t := range ts[:i] {
				if t.S == "(" {
					if depth == 0 {
						groups++
					}
					depth++
				} else if t.S == ")" {
					depth--
				} else if t.S == ";" {
					groups = 0
				}
			}
			if depth == 1 && groups > 1 { // not the table's own brackets
				depth = 2
			}
			if b == MYSQL {
				c.Kind = "accept"
			} else if inOther || depth > 1 {
				return skipCase // skipped or free text
			} else {
				c.Kind = "reject"
			}
			c.Labels = label(b, "# comment")
			return c
		default:
			x, how := genRaw(s)
			return &Case{Kind: "wrap", Texts: []Text{Text(x)}, Labels: []string{"wrapper", how}}
		}
	})
	c21.Enum = eager(enumForeign)

	reg("C22", raw+"also complete valid scripts of each dialect, and texts that several dialects accept with different results; the whole clause catalogue of each dialect and its single-token neighbourhood; non-trivial: not empty and distinct", func(s *Src) *Case {
		if s.P(35) {
			return &Case{Kind: "force", Texts: []Text{ambiguous(s.R(1, 4), s.N)}, Labels: []string{"ambiguous"}}
		}
		if s.P(50) {
			d := genDialect(s)
			p := smallProf()
			p.Con, p.Ign, p.Opts = s.R(0, 25), s.R(0, 20), s.R(0, 25)
			sc := genScript(s, d, p)
			return &Case{Kind: "force", Texts: []Text{text(s, d, sc.Toks(nil))}, Labels: label(d, "valid")}
		}
		x, how := genRaw(s)
		return &Case{Kind: "force", Texts: []Text{Text(x)}, Labels: []string{how}, Trivial: x == ""}
	})

	reg("C23", "one dimension of a script (columns, tables, table constraints, key columns, expression tokens, nesting, names, strings, comments, lines before an error, other statements, digits) at sizes around powers of two and ten up to 70000 lines, 10000 columns or tables, 5000 nesting levels, 66000 characters, against the model of that size, judged when the form with size 2 conforms; non-trivial: distinct text", genSize).Slow = true

	reg("C24", "scripts whose quoted names and strings hold hostile text (comment markers, semicolons, brackets, keywords, newlines, all quotes, doubled quotes, dollar tags, control characters) compared with the same script with harmless quoted text, with the texts substituted in the result; non-trivial: at least one text replaced", func(s *Src) *Case {
		d := genDialect(s)
		p := smallProf()
		p.Quoted, p.Kwish, p.Con, p.Others = 70, 0, 30, 20
		if s.P(40) {
			p.OnlyCon = []string{"DEFAULT"}
			p.DefW = [2]int{75, 25}
		}
		sc := genScript(s, d, p)
		ts := sc.Toks(nil)
		model := sc.Tables()
		c := &Case{Kind: "subst", Dialect: d.String(), Model: model, Labels: label(d)}
		harmless := cpToks(ts)
		for i, t := range ts {
			harmless[i].Glue = t.Glue
			if t.K != QT || t.Glue || t.S[0] == '$' && false {
				continue
			}
			w := "zq" + strconv.Itoa(i) + "_"
			if t.S[0] == '$' {
				harmless[i].S = "$$" + w + "$$"
				continue
			}
			h := quote(t.S[0], w)
			harmless[i].S = h
			c.Subst = append(c.Subst, [2]string{h, t.S})
		}
		c.Trivial = len(c.Subst) == 0
		l := Layout{D: d, Mode: s.N(3)}
		l2 := l
		x, _ := l.Render(ts)
		y, _ := l2.Render(harmless)
		c.Texts = []Text{Text(x), Text(y)}
		return c
	})

	reg("C25", "accepted texts of every kind (derived scripts, scripts after 1 to 3 token edits that the code still accepts, the clause catalogue and all its accepted single-token neighbours), whose tables are written again as DDL by the harness; non-trivial: accepted with at least one table", func(s *Src) *Case {
		d := genDialect(s)
		p := smallProf()
		if s.P(40) {
			p = defProf()
		}
		sc := genScript(s, d, p)
		if s.P(20) {
			breakScript(s, sc)
		}
		ts := cpToks(sc.Toks(nil))
		for n := s.W(40, 30, 20, 10); n > 0; n-- {
			ts, _ = editToks(s, d, ts)
		}
		x, _ := renderEdited(s, d, ts)
		c := &Case{Kind: "rewrite", Dialect: d.String(), Texts: []Text{Text(x)}, Labels: label(d, "random")}
		r := parseD(d, x)
		c.Trivial = r.err != nil || len(r.tables) == 0
		return c
	})

	reg("C27", "tables of 1 to 12 generated items (columns and table constraints of every kind, some after 1 or 2 token edits that keep brackets balanced) in every layout: each item alone between two plain columns, and all items together; all ordered pairs of catalogue items; non-trivial: at least two items", genItems)

	reg("C28", "accepted scripts (1 to 6 tables, keys, references, the clause catalogue, pairs of catalogue statements); every list of the result is appended to and every value overwritten with a text of its own, and all other parts compared with an independent copy; non-trivial: accepted with at least two lists", func(s *Src) *Case {
		d := genDialect(s)
		p := defProf()
		p.MaxT, p.Tables, p.TC = 6, 60, 60
		x := text(s, d, genScript(s, d, p).Toks(nil))
		c := &Case{Kind: "own", Dialect: d.String(), Texts: []Text{x}, Labels: label(d, "random")}
		r := parseD(d, string(x))
		c.Trivial = r.err != nil || len(r.tables) == 0
		return c
	})

	reg("C26", "texts that the code rejects at a token (scripts after 1 to 3 token edits in every layout, broken scripts with one token per line, the single-token neighbourhood of the clause catalogue), followed by lexically complete text (valid, invalid, soup), or cut after the reported token and continued differently; non-trivial: rejected at a token", func(s *Src) *Case {
		d := genDialect(s)
		c := &Case{Kind: "tail", Dialect: d.String(), Labels: label(d, "random")}
		ts, _, _, _, ok := invalidToks(s, d)
		if !ok {
			return skipCase
		}
		if s.P(50) {
			for _, t := range ts {
				if strings.Contains(t.S, "\n") {
					ok = false
				}
			}
			if ok {
				c.Count = 1
				c.Texts = []Text{onLines(ts)}
			}
		}
		if c.Texts == nil {
			x, _ := renderEdited(s, d, ts)
			c.Texts = []Text{Text(x)}
		}
		c.Texts = append(c.Texts, genTail(s, d))
		v, ok := asVE(parseD(d, string(c.Texts[0])).err)
		c.Trivial = !ok || v.Near == "<EOF>"
		return c
	})

	addCatalogue()
	for id, p := range props {
		gen := p.Gen
		id := id
		p.Gen = func(s *Src) *Case {
			c := gen(s)
			if c != nil && !c.skip {
				c.Prop = id
			}
			return c
		}
	}
}

// enumForeignKind is the part of enumForeign with one verdict.
func enumForeignKind(kind string) func(yield func(*Case) bool) {
	return func(yield func(*Case) bool) {
		enumForeign(func(c *Case) bool {
			if c.Kind != kind {
				return true
			}
			return yield(c)
		})
	}
}
