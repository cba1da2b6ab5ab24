package main

import (
	"strconv"
	"strings"

	"github.com/kodaimura/ddlparse"
)

// ---- abstract syntax ----

type Script struct {
	D     Dialect
	Stmts []*Stmt
	NGrp  int
}

type Stmt struct {
	Table *TableDef
	Other []*Tok // complete other CREATE statement including ";"
	G     int
}

type TableDef struct {
	Head   []*Tok // CREATE [TEMP] TABLE
	IfNot  []*Tok
	Schema *Tok
	Name   *Tok
	Items  []*Item
	Opts   []*Opt
	NoSemi bool
}

type Item struct {
	Col *ColDef
	TC  *TCon
	G   int // removable item
}

type Opt struct {
	Toks  []*Tok
	Comma bool
	G     int
}

type ColDef struct {
	Name  *Tok
	Type  []*Tok
	TName string
	N, M  int
	Cons  []*Con
}

type Con struct {
	Named   bool
	Name    *Tok // nil: no CONSTRAINT, or nameless CONSTRAINT when Named
	Kind    string
	Toks    []*Tok
	DefLit  interface{}
	DefTok  *Tok // current-time keyword
	DefExpr []*Tok
	Check   []*Tok
	Coll    *Tok
	Ref     *Ref
	Auto    bool
}

type Ref struct {
	Schema, Table *Tok
	Cols          []*Tok
}

type TCon struct {
	Named bool
	Name  *Tok
	Kind  string // PRIMARY UNIQUE CHECK FOREIGN or "" (not represented)
	Toks  []*Tok
	Cols  []*Tok
	Check []*Tok
	Ref   *Ref
}

// ---- rendering to tokens ----

func (t *TableDef) toks(drop map[int]bool) []*Tok {
	var out []*Tok
	add := func(ts ...*Tok) {
		for _, x := range ts {
			if x != nil && !drop[x.G] {
				out = append(out, x)
			}
		}
	}
	add(t.Head...)
	add(t.IfNot...)
	if t.Schema != nil {
		add(t.Schema, sym("."))
	}
	add(t.Name, sym("("))
	first := true
	for _, it := range t.Items {
		if drop[it.G] {
			continue
		}
		if !first {
			add(sym(","))
		}
		first = false
		if it.Col != nil {
			c := it.Col
			add(c.Name)
			add(c.Type...)
			for _, k := range c.Cons {
				if k.Named {
					add(kw("CONSTRAINT"))
					add(k.Name)
				}
				add(k.Toks...)
			}
		} else {
			if it.TC.Named {
				add(kw("CONSTRAINT"))
				add(it.TC.Name)
			}
			add(it.TC.Toks...)
		}
	}
	add(sym(")"))
	first = true
	for _, o := range t.Opts {
		if drop[o.G] {
			continue
		}
		if o.Comma && !first {
			add(sym(","))
		}
		first = false
		add(o.Toks...)
	}
	if !t.NoSemi {
		add(sym(";"))
	}
	return out
}

func (sc *Script) Toks(drop map[int]bool) []*Tok {
	var out []*Tok
	for _, st := range sc.Stmts {
		if st.Table != nil {
			out = append(out, st.Table.toks(drop)...)
		} else if !drop[st.G] {
			out = append(out, st.Other...)
		}
	}
	return out
}

// ---- expected result ----

func nameVal(t *Tok) string {
	if t == nil {
		return ""
	}
	if t.K == QT {
		return unquoteTok(t.S)
	}
	return t.S
}

func asWritten(ts []*Tok) []string {
	out := []string{}
	for _, t := range ts {
		out = append(out, t.S)
	}
	return out
}

// exprText is the canonical text of an expression: tokens separated by spaces.
func exprText(ts []*Tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && !t.Glue {
			b.WriteByte(' ')
		}
		b.WriteString(t.S)
	}
	return b.String()
}

func (r *Ref) val() ddlparse.Reference {
	if r == nil {
		return ddlparse.Reference{}
	}
	return ddlparse.Reference{TableName: nameVal(r.Table), ColumnNames: asWritten(r.Cols)}
}

func (sc *Script) Tables() []ddlparse.Table {
	out := []ddlparse.Table{}
	for _, st := range sc.Stmts {
		td := st.Table
		if td == nil {
			continue
		}
		var t ddlparse.Table
		t.Schema, t.Name, t.IfNotExists = nameVal(td.Schema), nameVal(td.Name), td.IfNot != nil
		for _, it := range td.Items {
			if it.Col != nil {
				c := it.Col
				col := ddlparse.Column{Name: nameVal(c.Name)}
				col.DataType = ddlparse.DataType{Name: c.TName, DigitN: c.N, DigitM: c.M}
				k := &col.Constraint
				for _, x := range c.Cons {
					if x.Named && x.Name != nil && k.Name == "" {
						k.Name = nameVal(x.Name)
					}
					switch x.Kind {
					case "PRIMARY":
						k.IsPrimaryKey = true
						if x.Auto {
							k.IsAutoincrement = true
						}
					case "UNIQUE":
						k.IsUnique = true
					case "NOTNULL":
						k.IsNotNull = true
					case "AUTO":
						k.IsAutoincrement = true
					case "DEFAULT":
						if x.DefExpr != nil {
							k.Default = exprString(exprText(x.DefExpr))
						} else if x.DefTok != nil {
							k.Default = x.DefTok.S
						} else {
							k.Default = x.DefLit
						}
					case "CHECK":
						k.Check = exprText(x.Check)
					case "COLLATE":
						k.Collate = nameVal(x.Coll)
					case "REFERENCES":
						k.References = x.Ref.val()
					}
				}
				t.Columns = append(t.Columns, col)
				continue
			}
			c := it.TC
			switch c.Kind {
			case "PRIMARY":
				t.Constraints.PrimaryKey = append(t.Constraints.PrimaryKey, ddlparse.PrimaryKey{Name: nameVal(c.Name), ColumnNames: asWritten(c.Cols)})
			case "UNIQUE":
				t.Constraints.Unique = append(t.Constraints.Unique, ddlparse.Unique{Name: nameVal(c.Name), ColumnNames: asWritten(c.Cols)})
			case "CHECK":
				t.Constraints.Check = append(t.Constraints.Check, ddlparse.Check{Name: nameVal(c.Name), Expr: exprText(c.Check)})
			case "FOREIGN":
				t.Constraints.ForeignKey = append(t.Constraints.ForeignKey, ddlparse.ForeignKey{Name: nameVal(c.Name), ColumnNames: asWritten(c.Cols), References: c.Ref.val()})
			}
		}
		out = append(out, t)
	}
	return out
}

// ---- generator ----

// Prof biases the generator (percentages).
type Prof struct {
	Tables   int // probability of a further table
	MaxT     int
	Cols     int // probability of a further column
	MaxC     int
	Others   int
	Ign      int // unrepresented clauses
	Quoted   int // quoted names
	Kwish    int // keyword-like names
	Schema   int
	Con      int // probability of each kind of column constraint
	TC       int // probability of a further table constraint
	MaxTC    int
	MidTC    int // table constraints between columns
	Opts     int
	DefW     [2]int // literal / expression weight
	ConNames int
	Expr     int // size of expressions
	Digits   int
	NoSemi   int
	OnlyCon  []string // only these column constraint kinds (others rare)
	OnlyTC   []string
	Big      int // probability of a longer script
	NoCols   int // probability of a table of constraints only
}

func defProf() Prof {
	return Prof{Tables: 35, MaxT: 4, Cols: 60, MaxC: 7, Others: 8, Ign: 20, Quoted: 25, Kwish: 20, Schema: 25, Con: 22, TC: 45, MaxTC: 5,
		MidTC: 15, Opts: 25, DefW: [2]int{60, 40}, ConNames: 20, Expr: 4, Digits: 60, NoSemi: 25, Big: 3, NoCols: 3}
}

type G struct {
	s   *Src
	d   Dialect
	p   Prof
	grp int
}

func kw(s string) *Tok  { return &Tok{K: KW, S: s} }
func sym(s string) *Tok { return &Tok{K: SYM, S: s} }
func num(s string) *Tok { return &Tok{K: NUM, S: s} }
func wd(s string) *Tok  { return &Tok{K: WD, S: s} }
func op(s string) *Tok  { return &Tok{K: OP, S: s} }

// kws: keywords from a spaced list, with symbols recognised
func kws(s string) []*Tok {
	var out []*Tok
	for _, w := range strings.Fields(s) {
		if strings.Contains("(),.;=", w) {
			out = append(out, sym(w))
		} else {
			out = append(out, kw(w))
		}
	}
	return out
}

func cat(xs ...[]*Tok) []*Tok {
	var out []*Tok
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

func one(t *Tok) []*Tok { return []*Tok{t} }

func (g *G) group() int { g.grp++; return g.grp }

// ign marks tokens as a removable clause.
func (g *G) ign(ts []*Tok) []*Tok {
	n := g.group()
	for _, t := range ts {
		t.G = n
	}
	return ts
}

func (g *G) maybe(ts func() []*Tok) []*Tok {
	if g.s.P(g.p.Ign) {
		return g.ign(ts())
	}
	return nil
}

func (g *G) name() *Tok {
	if g.s.P(g.p.Quoted) {
		return g.quotedName()
	}
	if g.s.P(g.p.Kwish) {
		return &Tok{K: NM, S: g.s.Pick(plainPools[g.d])}
	}
	if g.s.P(30) {
		max := 8
		if g.s.P(5) {
			max = 150
		}
		return &Tok{K: NM, S: genIdent(g.s, g.d, max)}
	}
	w := g.s.Pick(commonNames)
	if isReserved(g.d, w) {
		w += "_c"
	}
	return &Tok{K: NM, S: w}
}

func (g *G) quotedName() *Tok {
	qs := identQuotes(g.d)
	q := qs[g.s.N(len(qs))]
	var c string
	if g.s.P(25) {
		// reserved word in quotes
		l := [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL}[g.d]
		c = g.s.Pick(l)
		if g.s.P(50) {
			c = strings.ToLower(c)
		}
	} else {
		c = genContent(g.s, g.d, false)
	}
	return &Tok{K: QT, S: quote(q, c)}
}

func (g *G) str() *Tok {
	qs := stringQuotes(g.d)
	q := qs[g.s.N(len(qs))]
	return &Tok{K: QT, S: quoteString(g.s, g.d, q, genContent(g.s, g.d, true))}
}

func (g *G) smallStr(xs ...string) *Tok {
	qs := stringQuotes(g.d)
	return &Tok{K: QT, S: quote(qs[g.s.N(len(qs))], g.s.Pick(xs))}
}

func (g *G) posInt() (*Tok, int) {
	var n int
	switch g.s.W(50, 25, 15, 10) {
	case 0:
		n = g.s.R(1, 20)
	case 1:
		n = g.s.R(1, 999)
	case 2:
		bs := []int{1, 9, 10, 30, 31, 32, 38, 53, 63, 64, 65, 99, 100, 127, 128, 200, 255, 256, 500, 999, 1000, 1023, 1024, 4000, 4096, 8000, 9999, 10000, 16383, 21844, 32767, 32768, 65535, 65536,
			99999, 100000, 262144, 1000000, 16777215, 16777216, 10485760, 2147483647, 2147483648, 4294967295, 4294967296}
		n = bs[g.s.N(len(bs))]
	default:
		n = g.s.R(1, 2000000000)
	}
	return num(strconv.Itoa(n)), n
}

var fracs = []string{"5", "25", "0", "001", "999", "125", "333333333333", "10"}

func (g *G) number() (*Tok, float64) {
	s := g.s
	var t string
	if s.P(8) {
		t = s.Pick([]string{"0", "-0", "1", "-1", "0.0", "0.1", "1.0", "-1.0", "100", "255", "256", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9007199254740991",
			"9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "0.1e1", "1e308", "-1e308", "1.7976931348623157e308",
			"5e-324", "1e-400", "1e-5", "1E+05", "1e21", "1e22", "0.000001", "0.0000001", "3.141592653589793238", "16777217", "0.30000000000000004", "1000000", "999999999999999999", "1.10", "12.50", "0e0", "00.5", "1e0"})
		f, err := strconv.ParseFloat(t, 64)
		if err != nil {
			panic(err)
		}
		return num(t), f
	}
	digits := func() string {
		if s.P(15) {
			return strconv.Itoa(s.R(0, 2000000000)) + strconv.Itoa(s.R(0, 999999999))
		}
		return strconv.Itoa(s.R(0, 1200))
	}
	switch s.W(40, 25, 8, 7, 20) {
	case 0:
		t = digits()
	case 1:
		t = digits() + "." + s.Pick(fracs)
	case 2:
		t = "." + s.Pick(fracs)
	case 3:
		t = digits() + "."
	default:
		t = digits()
		if s.P(40) {
			t += "." + s.Pick(fracs)
		}
		t += s.Pick([]string{"e", "E"}) + s.Pick([]string{"", "+", "-"}) + strconv.Itoa(s.R(0, 30))
	}
	if s.P(30) {
		t = s.Pick([]string{"-", "-", "+"}) + t
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		panic(err)
	}
	return num(t), f
}

// --- expressions ---

var exprOps = [3][]string{
	{"<>", "!=", "<", ">", "<=", ">=", "||", "+", "-", "*", "/", "%", "==", "<<", ">>", "&", "|", "->", "->>", "**", "~", "//", "!!"},
	{"<>", "!=", "<", ">", "<=", ">=", "||", "+", "-", "*", "/", "%", "::", "->", "->>", "@>", "~", "!~", "~*", "&&", "#>", "<<", "^",
		"<@", "?", "?|", "?&", "#-", "#>>", "-|-", "&<", "&>", "<<|", "|>>", "|&>", "~=", "|/", "||/", "@@", "@@@", "@-@", "##", "<->", "<#>", "<=>", "?-", "?#", "?-|", "?||",
		"~~", "~~*", "!~~", "!~~*", "!~*", "^@", "%%", "**", "<*>", "=>", "==>", "!!=", "*=", "//", "<<=", ">>=", "@", "!!", "&*&", "%>", "<%", "<<%"},
	{"<>", "!=", "<", ">", "<=", ">=", "||", "+", "-", "*", "/", "%", "<=>", "&&", "->", "->>", "&", "|", "^", "<<", ">>", ":=", "~", "!", "**"},
}

var exprWords = []string{"a", "b", "price", "qty", "User_Id", "created_at", "status", "len", "E1", "nan", "value", "t", "NEW", "x", "e", "n", "constraint_x", "Primary_", "日付", "$1", "$x", "c$", "c$1"}
var exprFuncs = []string{"length", "LOWER", "coalesce", "now", "datetime", "count", "json_valid", "Nextval", "substr", "IN", "NOT", "exists", "VALUES"}

func (g *G) exprAtom(depth int) []*Tok {
	s := g.s
	switch s.W(30, 18, 16, 8, 10, 6, 8, 4) {
	case 0:
		return one(wd(s.Pick(exprWords)))
	case 1:
		n, _ := g.number()
		return one(n)
	case 2:
		return one(g.str())
	case 3: // dotted
		return []*Tok{wd(s.Pick(exprWords)), sym("."), wd(s.Pick(exprWords))}
	case 4: // function
		out := []*Tok{wd(s.Pick(exprFuncs)), sym("(")}
		n := s.R(0, 3)
		if depth <= 0 && n > 1 {
			n = 1
		}
		if depth < 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				out = append(out, sym(","))
				if s.P(2) { // an empty argument
					out = append(out, sym(","))
				}
			}
			out = append(out, g.exprBody(depth-1)...)
		}
		return append(out, sym(")"))
	case 5:
		return one(g.quotedName())
	case 6:
		if depth <= 0 {
			return one(wd("c1"))
		}
		return cat(one(sym("(")), g.exprBody(depth-1), one(sym(")")))
	default: // prefixed literal
		pre := []string{"x", "X", "b", "B", "N", "n"}
		if g.d == PG {
			pre = append(pre, "E", "e")
		}
		q := &Tok{K: QT, S: "'" + s.Pick([]string{"ff", "01", "00AB", "abc", "a''b"}) + "'", Glue: true}
		return []*Tok{wd(s.Pick(pre)), q}
	}
}

func (g *G) exprBody(depth int) []*Tok { return g.exprTerms(depth, false) }

func (g *G) exprTerms(depth int, top bool) []*Tok {
	s := g.s
	out := g.exprAtom(depth)
	n := s.N(g.p.Expr)
	if depth <= 0 && n > 2 {
		n %= 3
	}
	if depth < 0 {
		n = 0
	}
	if !top && n > 4 {
		n = 4
	}
	for ; n > 0; n-- {
		switch s.W(40, 15, 10, 8, 8, 8, 6, 5) {
		case 0:
			out = append(out, g.exprOp())
			out = append(out, g.exprAtom(depth-1)...)
		case 1:
			out = append(out, g.w(s.Pick([]string{"AND", "OR", "and", "LIKE", "Or", "DIV", "NOT LIKE", "COLLATE", "escape"}))...)
			out = append(out, g.exprAtom(depth-1)...)
		case 2:
			out = append(out, g.w(s.Pick([]string{"IS NOT NULL", "IS NULL", "is not null", "ISNULL", "NOTNULL"}))...)
			out = append(out, wd("AND"))
			out = append(out, g.exprAtom(depth-1)...)
		case 3:
			out = append(out, wd("BETWEEN"))
			out = append(out, g.exprAtom(depth-1)...)
			out = append(out, wd("AND"))
			out = append(out, g.exprAtom(depth-1)...)
		case 4:
			out = append(out, g.w(s.Pick([]string{"IN", "NOT IN", "in"}))...)
			out = append(out, sym("("))
			for i, k := 0, s.R(1, 3); i < k; i++ {
				if i > 0 {
					out = append(out, sym(","))
				}
				out = append(out, g.exprAtom(0)...)
			}
			out = append(out, sym(")"))
		case 5:
			out = append(out, g.exprOp())
			out = append(out, g.w("CASE WHEN")...)
			out = append(out, g.exprAtom(depth-1)...)
			out = append(out, wd("THEN"))
			out = append(out, g.exprAtom(0)...)
			out = append(out, g.w("ELSE")...)
			out = append(out, g.exprAtom(0)...)
			out = append(out, wd("END"))
		case 6:
			out = append(out, sym("="))
			if s.P(50) {
				out = append(out, op(s.Pick([]string{"-", "-", "-", "~", "!"})))
				for s.P(15) {
					out = append(out, op(s.Pick([]string{"-", "+", "~", "!"})))
				}
			}
			out = append(out, g.exprAtom(depth-1)...)
		default:
			out = append(out, g.w(s.Pick([]string{"IS NULL", "IS NOT NULL", "desc"}))...)
			return out
		}
	}
	return out
}

func (g *G) exprOp() *Tok {
	if g.s.P(30) {
		return sym("=")
	}
	return op(g.s.Pick(exprOps[g.d]))
}

func (g *G) w(s string) []*Tok {
	var out []*Tok
	for _, x := range strings.Fields(s) {
		out = append(out, wd(x))
	}
	return out
}

// expr is a parenthesised expression.
func (g *G) expr() []*Tok {
	k := 1
	if g.s.P(2) {
		k = 1 + g.s.R(1, 40)
	}
	var out []*Tok
	for i := 0; i < k; i++ {
		out = append(out, sym("("))
	}
	out = append(out, g.exprTerms(g.s.N(3), true)...)
	for i := 0; i < k; i++ {
		out = append(out, sym(")"))
	}
	return out
}

// --- types ---

var sqliteTypes = []string{"TEXT", "INTEGER", "NUMERIC", "REAL", "NONE"}

var pgTypes = []string{"BIGINT", "INT8", "BIGSERIAL", "SERIAL8", "BOOLEAN", "BOOL", "BOX", "BYTEA", "CIDR", "CIRCLE", "DATE", "FLOAT8", "INET", "INTEGER",
	"INT", "INT4", "JSON", "JSONB", "LINE", "LSEG", "MACADDR", "MACADDR8", "MONEY", "PATH", "PG_LSN", "PG_SNAPSHOT", "POINT", "POLYGON", "REAL", "FLOAT4",
	"SMALLINT", "INT2", "SMALLSERIAL", "SERIAL2", "SERIAL", "SERIAL4", "TEXT", "TIMETZ", "TIMESTAMPTZ", "TSQUERY", "TSVECTOR", "TXID_SNAPSHOT", "UUID", "XML"}
var pgTypesN = []string{"VARCHAR", "CHAR", "VARBIT", "BIT", "CHARACTER"}
var pgTypesV = []string{"BIT", "CHARACTER"}
var pgTypesPS = []string{"NUMERIC", "DECIMAL"}
var pgTypesT = []string{"TIMESTAMP", "TIME"}

var myTypes = []string{"SERIAL", "BOOL", "BOOLEAN", "DATE", "GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON",
	"GEOMETRYCOLLECTION", "JSON"}
var myTypesN = []string{"VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "TEXT", "BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT",
	"TIME", "DATETIME", "TIMESTAMP", "YEAR"}
var myTypesPS = []string{"NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE"}

func (g *G) typ(c *ColDef) {
	s := g.s
	digits := func(max int) {
		if !s.P(g.p.Digits) {
			return
		}
		t, n := g.posInt()
		c.Type = append(c.Type, sym("("), t)
		c.N = n
		if max == 2 && s.P(55) {
			t, m := g.posInt()
			c.Type = append(c.Type, sym(","), t)
			c.M = m
		}
		c.Type = append(c.Type, sym(")"))
	}
	set := func(w string) {
		c.TName = w
		c.Type = one(kw(w))
	}
	switch g.d {
	case SQLITE:
		set(s.Pick(sqliteTypes))
	case PG:
		switch s.W(40, 20, 12, 12, 12, 4) {
		case 0:
			set(s.Pick(pgTypes))
		case 1:
			set(s.Pick(pgTypesN))
			digits(1)
		case 2:
			w := s.Pick(pgTypesV)
			set(w)
			c.Type = append(c.Type, kw("VARYING"))
			if w == "BIT" {
				c.TName = "VARBIT"
			} else {
				c.TName = "VARCHAR"
			}
			digits(1)
		case 3:
			set(s.Pick(pgTypesPS))
			digits(2)
		case 4:
			set(s.Pick(pgTypesT))
			digits(1)
			c.Type = append(c.Type, g.maybe(func() []*Tok { return kws(s.Pick([]string{"WITH TIME ZONE", "WITHOUT TIME ZONE"})) })...)
		default:
			set("DOUBLE")
			c.Type = append(c.Type, kw("PRECISION"))
		}
	case MYSQL:
		switch s.W(25, 50, 25) {
		case 0:
			set(s.Pick(myTypes))
		case 1:
			set(s.Pick(myTypesN))
			digits(1)
		default:
			set(s.Pick(myTypesPS))
			digits(2)
		}
	}
}

// --- shared clauses ---

func (g *G) tableRef() (*Ref, []*Tok) {
	r := &Ref{}
	var ts []*Tok
	if g.s.P(g.p.Schema) {
		r.Schema = g.name()
		ts = append(ts, r.Schema, sym("."))
	}
	r.Table = g.name()
	ts = append(ts, r.Table)
	return r, ts
}

func (g *G) colList(ts *[]*Tok, max int) []*Tok {
	var cols []*Tok
	*ts = append(*ts, sym("("))
	more := 45
	if max > 1 && g.s.P(3) {
		max, more = 40, 93
	}
	for {
		c := g.name()
		cols = append(cols, c)
		*ts = append(*ts, c)
		if len(cols) >= max || !g.s.P(more) {
			break
		}
		*ts = append(*ts, sym(","))
	}
	*ts = append(*ts, sym(")"))
	return cols
}

var refActs = []string{"SET NULL", "SET DEFAULT", "CASCADE", "RESTRICT", "NO ACTION"}

func (g *G) refActions() []*Tok {
	s := g.s
	var on [][]*Tok
	ev := []string{"DELETE", "UPDATE"}
	if s.P(50) {
		ev[0], ev[1] = ev[1], ev[0]
	}
	for _, e := range ev {
		if x := g.maybe(func() []*Tok { return kws("ON " + e + " " + s.Pick(refActs)) }); x != nil {
			on = append(on, x)
		}
	}
	match := g.maybe(func() []*Tok {
		if g.d == SQLITE && s.P(40) {
			return []*Tok{kw("MATCH"), g.name()}
		}
		return kws("MATCH " + s.Pick([]string{"SIMPLE", "PARTIAL", "FULL"}))
	})
	if g.d == SQLITE {
		def := g.maybe(func() []*Tok {
			return kws(s.Pick([]string{"DEFERRABLE", "NOT DEFERRABLE", "DEFERRABLE INITIALLY DEFERRED", "DEFERRABLE INITIALLY IMMEDIATE", "NOT DEFERRABLE INITIALLY DEFERRED", "NOT DEFERRABLE INITIALLY IMMEDIATE"}))
		})
		return cat(cat(on...), match, def)
	}
	return cat(match, cat(on...))
}

func (g *G) conflict() []*Tok {
	return g.maybe(func() []*Tok {
		return kws("ON CONFLICT " + g.s.Pick([]string{"ROLLBACK", "ABORT", "FAIL", "IGNORE", "REPLACE"}))
	})
}

func (g *G) indexParams() []*Tok {
	var out []*Tok
	out = append(out, g.maybe(func() []*Tok {
		ts := one(kw("INCLUDE"))
		g.colList(&ts, 3)
		return ts
	})...)
	out = append(out, g.maybe(func() []*Tok {
		return cat(one(kw("WITH")), []*Tok{sym("("), wd("fillfactor"), sym("="), num("70"), sym(")")})
	})...)
	out = append(out, g.maybe(func() []*Tok { return append(kws("USING INDEX TABLESPACE"), g.name()) })...)
	return out
}

func (g *G) eq() []*Tok {
	if g.s.P(60) {
		return one(sym("="))
	}
	return nil
}

func (g *G) indexOption() []*Tok {
	var out []*Tok
	for _, i := range g.s.Perm(6) {
		if !g.s.P(g.p.Ign / 2) {
			continue
		}
		var ts []*Tok
		switch i {
		case 0:
			n, _ := g.posInt()
			ts = cat(one(kw("KEY_BLOCK_SIZE")), g.eq(), one(n))
		case 1:
			ts = kws("USING " + g.s.Pick([]string{"BTREE", "HASH"}))
		case 2:
			ts = append(kws("WITH PARSER"), g.name())
		case 3:
			ts = []*Tok{kw("COMMENT"), g.str()}
		case 4:
			ts = kws(g.s.Pick([]string{"VISIBLE", "INVISIBLE"}))
		default:
			ts = cat(one(kw(g.s.Pick([]string{"ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"}))), g.eq(), one(g.str()))
		}
		out = append(out, g.ign(ts)...)
	}
	return out
}

// keyParts writes MySQL key parts and returns the named columns.
func (g *G) keyParts(ts *[]*Tok, exprs bool) []*Tok {
	var cols []*Tok
	*ts = append(*ts, sym("("))
	max, more := 3, 45
	if g.s.P(3) {
		max, more = 40, 93
	}
	for i := 0; ; i++ {
		if exprs && g.s.P(12) {
			*ts = append(*ts, g.expr()...)
		} else {
			c := g.name()
			cols = append(cols, c)
			*ts = append(*ts, c)
			*ts = append(*ts, g.maybe(func() []*Tok { n, _ := g.posInt(); return []*Tok{sym("("), n, sym(")")} })...)
		}
		*ts = append(*ts, g.maybe(func() []*Tok { return kws(g.s.Pick([]string{"ASC", "DESC"})) })...)
		if i >= max || !g.s.P(more) {
			break
		}
		*ts = append(*ts, sym(","))
	}
	*ts = append(*ts, sym(")"))
	return cols
}

// --- column constraints ---

func (g *G) want(kind string) bool {
	p := g.p.Con
	if g.p.OnlyCon != nil {
		p = 8
		for _, k := range g.p.OnlyCon {
			if k == kind {
				p = 55
			}
		}
	}
	return g.s.P(p)
}

var timeKws = []string{"CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME"}

func (g *G) constraints(c *ColDef) {
	s := g.s
	kinds := []string{"PRIMARY", "NOTNULL", "UNIQUE", "DEFAULT", "CHECK", "REFERENCES", "GENERATED"}
	switch g.d {
	case SQLITE:
		kinds = append(kinds, "COLLATE")
	case MYSQL:
		kinds = append(kinds, "COLLATE", "AUTO", "COMMENT", "COLUMN_FORMAT", "ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE", "STORAGE", "VISIBLE", "VIRTUAL")
	}
	var chosen []string
	for _, k := range kinds {
		switch k {
		case "GENERATED", "COMMENT", "COLUMN_FORMAT", "ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE", "STORAGE", "VISIBLE", "VIRTUAL":
			if s.P(g.p.Ign / 2) {
				chosen = append(chosen, k)
			}
		case "NOTNULL":
			if g.want(k) {
				chosen = append(chosen, k)
			} else if g.d != SQLITE && s.P(g.p.Ign/2) {
				chosen = append(chosen, "NULL")
			}
		default:
			if g.want(k) {
				chosen = append(chosen, k)
			}
		}
	}
	var order []string
	for _, i := range s.Perm(len(chosen)) {
		order = append(order, chosen[i])
	}
	seenUnique := false
	for _, k := range order {
		x := &Con{Kind: k}
		named := false
		if s.P(g.p.ConNames) {
			if g.d != MYSQL {
				named = true
				x.Name = g.name()
			} else if k == "CHECK" {
				named = true
				if s.P(75) {
					x.Name = g.name()
				}
			}
		}
		x.Named = named
		ig := func(ts []*Tok) []*Tok {
			if named {
				return ts
			}
			return g.ign(ts)
		}
		switch k {
		case "PRIMARY":
			if g.d == MYSQL && !seenUnique && s.P(30) {
				x.Toks = kws("KEY")
			} else {
				x.Toks = kws("PRIMARY KEY")
			}
			switch g.d {
			case SQLITE:
				x.Toks = cat(x.Toks, g.maybe(func() []*Tok { return kws(s.Pick([]string{"ASC", "DESC"})) }), g.conflict())
				if s.P(g.p.Con + 15) {
					x.Auto = true
					x.Toks = append(x.Toks, kw("AUTOINCREMENT"))
				}
			case PG:
				x.Toks = cat(x.Toks, g.indexParams())
			}
		case "NOTNULL":
			x.Toks = kws("NOT NULL")
			if g.d == SQLITE {
				x.Toks = cat(x.Toks, g.conflict())
			}
		case "NULL":
			x.Toks = ig(kws("NULL"))
		case "UNIQUE":
			seenUnique = true
			x.Toks = kws("UNIQUE")
			switch g.d {
			case SQLITE:
				x.Toks = cat(x.Toks, g.conflict())
			case PG:
				x.Toks = cat(x.Toks, g.indexParams())
			default:
				x.Toks = cat(x.Toks, g.maybe(func() []*Tok { return kws("KEY") }))
			}
		case "DEFAULT":
			g.def(x)
		case "CHECK":
			x.Check = g.expr()
			x.Toks = cat(kws("CHECK"), x.Check)
			switch g.d {
			case PG:
				x.Toks = cat(x.Toks, g.maybe(func() []*Tok { return kws("NO INHERIT") }))
			case MYSQL:
				x.Toks = cat(x.Toks, g.maybe(func() []*Tok { return kws(s.Pick([]string{"ENFORCED", "NOT ENFORCED"})) }))
			}
		case "REFERENCES":
			r, ts := g.tableRef()
			x.Ref = r
			x.Toks = cat(kws("REFERENCES"), ts)
			if g.d == MYSQL || s.P(70) {
				r.Cols = g.colList(&x.Toks, 1)
			}
			x.Toks = cat(x.Toks, g.refActions())
		case "COLLATE":
			if g.d == SQLITE {
				x.Coll = &Tok{K: KV, S: s.Pick([]string{"BINARY", "NOCASE", "RTRIM"})}
			} else {
				x.Coll = g.name()
			}
			x.Toks = []*Tok{kw("COLLATE"), x.Coll}
		case "AUTO":
			x.Toks = kws("AUTO_INCREMENT")
		case "GENERATED":
			switch g.d {
			case SQLITE:
				ts := cat(kws("AS"), g.expr())
				if s.P(50) {
					ts = cat(kws("GENERATED ALWAYS"), ts)
				}
				if s.P(50) {
					ts = append(ts, kw(s.Pick([]string{"STORED", "VIRTUAL"})))
				}
				x.Toks = ig(ts)
			case PG:
				var ts []*Tok
				if s.P(40) {
					ts = cat(kws("GENERATED ALWAYS AS"), g.expr(), kws("STORED"))
				} else {
					ts = kws("GENERATED " + s.Pick([]string{"ALWAYS", "BY DEFAULT"}) + " AS IDENTITY")
					if s.P(40) {
						ts = cat(ts, one(sym("(")), g.w("START WITH"), one(num("10")), g.w("INCREMENT BY"), one(num("5")), one(sym(")")))
					}
				}
				x.Toks = ig(ts)
			default:
				ts := cat(kws("AS"), g.expr())
				if s.P(50) {
					ts = cat(kws("GENERATED ALWAYS"), ts)
				}
				x.Toks = ig(ts)
			}
		case "COMMENT":
			x.Toks = ig([]*Tok{kw("COMMENT"), g.str()})
		case "COLUMN_FORMAT":
			x.Toks = ig(kws("COLUMN_FORMAT " + s.Pick([]string{"FIXED", "DYNAMIC", "DEFAULT"})))
		case "ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE":
			x.Toks = ig(cat(kws(k), g.eq(), one(g.str())))
		case "STORAGE":
			x.Toks = ig(kws("STORAGE " + s.Pick([]string{"DISK", "MEMORY"})))
		case "VISIBLE":
			x.Toks = ig(kws(s.Pick([]string{"VISIBLE", "INVISIBLE"})))
		case "VIRTUAL":
			x.Toks = ig(kws(s.Pick([]string{"VIRTUAL", "STORED"})))
		}
		c.Cons = append(c.Cons, x)
	}
}

func (g *G) def(x *Con) {
	s := g.s
	x.Toks = kws("DEFAULT")
	if s.W(g.p.DefW[0], g.p.DefW[1]) == 1 {
		x.DefExpr = g.expr()
		x.Toks = cat(x.Toks, x.DefExpr)
		return
	}
	switch s.W(30, 30, 12, 12, 16) {
	case 0:
		t, f := g.number()
		x.DefLit = f
		x.Toks = append(x.Toks, t)
	case 1:
		t := g.str()
		x.DefLit = stringVal(g.d, t.S)
		x.Toks = append(x.Toks, t)
	case 2:
		x.Toks = append(x.Toks, kw("NULL"))
	case 3:
		b := s.P(50)
		x.DefLit = b
		if b {
			x.Toks = append(x.Toks, kw("TRUE"))
		} else {
			x.Toks = append(x.Toks, kw("FALSE"))
		}
	default:
		x.DefTok = &Tok{K: KV, S: s.Pick(timeKws)}
		x.Toks = append(x.Toks, x.DefTok)
		if g.d == MYSQL {
			x.Toks = cat(x.Toks, g.maybe(func() []*Tok { return kws("ON UPDATE " + s.Pick(timeKws)) }))
		}
	}
}

// --- table constraints ---

func (g *G) tcon() *Item {
	s := g.s
	c := &TCon{}
	it := &Item{TC: c}
	kinds := []string{"PRIMARY", "UNIQUE", "CHECK", "FOREIGN"}
	if g.p.OnlyTC != nil && s.P(85) {
		kinds = g.p.OnlyTC
	}
	if g.d != SQLITE && s.P(g.p.Ign) {
		// not represented in the result
		it.G = g.group()
		if g.d == PG {
			if s.P(25) {
				c.Named, c.Name = true, g.name()
			}
			ts := kws("EXCLUDE")
			if s.P(70) {
				ts = append(ts, kw("USING"), g.name())
			}
			ts = cat(ts, one(sym("(")), one(g.name()), kws("WITH"), one(op("&&")), one(sym(")")), g.indexParams())
			if s.P(30) {
				ts = cat(ts, kws("WHERE"), g.expr())
			}
			c.Toks = ts
		} else if s.P(60) {
			ts := kws(s.Pick([]string{"INDEX", "KEY"}))
			if s.P(70) {
				ts = append(ts, g.name())
			}
			ts = cat(ts, g.maybe(func() []*Tok { return kws("USING " + s.Pick([]string{"BTREE", "HASH"})) }))
			g.keyParts(&ts, true)
			c.Toks = cat(ts, g.indexOption())
		} else {
			ts := kws(s.Pick([]string{"FULLTEXT", "SPATIAL"}) + " " + s.Pick([]string{"", "INDEX", "KEY"}))
			if s.P(70) {
				ts = append(ts, g.name())
			}
			g.keyParts(&ts, true)
			c.Toks = cat(ts, g.indexOption())
		}
		return it
	}
	c.Kind = s.Pick(kinds)
	if s.P(g.p.ConNames + 10) {
		c.Named = true
		if g.d != MYSQL || s.P(80) {
			c.Name = g.name()
		}
	}
	using := func() []*Tok {
		return g.maybe(func() []*Tok { return kws("USING " + s.Pick([]string{"BTREE", "HASH"})) })
	}
	switch c.Kind {
	case "PRIMARY", "UNIQUE":
		if c.Kind == "PRIMARY" {
			c.Toks = kws("PRIMARY KEY")
		} else {
			c.Toks = kws("UNIQUE")
		}
		if g.d == MYSQL {
			if c.Kind == "UNIQUE" {
				c.Toks = cat(c.Toks, g.maybe(func() []*Tok { return kws(s.Pick([]string{"INDEX", "KEY"})) }))
				c.Toks = cat(c.Toks, g.maybe(func() []*Tok { return one(g.name()) }))
			}
			c.Toks = cat(c.Toks, using())
			c.Cols = g.keyParts(&c.Toks, c.Kind == "UNIQUE")
			c.Toks = cat(c.Toks, g.indexOption())
		} else {
			c.Cols = g.colList(&c.Toks, 4)
			if g.d == SQLITE {
				c.Toks = cat(c.Toks, g.conflict())
			} else {
				c.Toks = cat(c.Toks, g.indexParams())
			}
		}
	case "CHECK":
		c.Check = g.expr()
		c.Toks = cat(kws("CHECK"), c.Check)
		switch g.d {
		case PG:
			c.Toks = cat(c.Toks, g.maybe(func() []*Tok { return kws("NO INHERIT") }))
		case MYSQL:
			c.Toks = cat(c.Toks, g.maybe(func() []*Tok { return kws(s.Pick([]string{"ENFORCED", "NOT ENFORCED"})) }))
		}
	case "FOREIGN":
		c.Toks = kws("FOREIGN KEY")
		if g.d == MYSQL {
			c.Toks = cat(c.Toks, g.maybe(func() []*Tok { return one(g.name()) }))
		}
		c.Cols = g.colList(&c.Toks, 3)
		r, ts := g.tableRef()
		c.Ref = r
		c.Toks = cat(c.Toks, kws("REFERENCES"), ts)
		if g.d == MYSQL {
			r.Cols = g.keyParts(&c.Toks, false)
		} else if s.P(75) {
			r.Cols = g.colList(&c.Toks, 3)
		}
		c.Toks = cat(c.Toks, g.refActions())
	}
	return it
}

// --- options ---

func (g *G) options(t *TableDef) {
	s := g.s
	if !s.P(g.p.Opts) {
		return
	}
	add := func(ts []*Tok, comma bool) {
		t.Opts = append(t.Opts, &Opt{Toks: ts, Comma: comma, G: g.group()})
	}
	switch g.d {
	case SQLITE:
		a, b := "WITHOUT ROWID", "STRICT"
		if s.P(50) {
			a, b = b, a
		}
		add(kws(a), true)
		if s.P(50) {
			add(kws(b), true)
		}
	case PG:
		all := []func() []*Tok{
			func() []*Tok {
				return cat(kws("WITH ("), []*Tok{wd("fillfactor"), sym("="), num("70"), sym(","), wd("autovacuum_enabled"), sym("="), wd("false"), sym(")")})
			},
			func() []*Tok { return kws("WITHOUT OIDS") },
			func() []*Tok { return append(kws("TABLESPACE"), g.name()) },
			func() []*Tok {
				return cat(kws("INHERITS"), func() []*Tok { var ts []*Tok; g.colList(&ts, 3); return ts }())
			},
			func() []*Tok { return cat(kws("PARTITION BY "+s.Pick([]string{"RANGE", "LIST", "HASH"})), g.expr()) },
			func() []*Tok { return append(kws("USING"), g.name()) },
		}
		for _, i := range s.Perm(len(all)) {
			if s.P(30) {
				add(all[i](), false)
			}
		}
	case MYSQL:
		pi := func() *Tok { n, _ := g.posInt(); return n }
		var all []func() []*Tok
		for _, w := range []string{"AUTOEXTEND_SIZE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES"} {
			all = append(all, func() []*Tok { return cat(kws(w), g.eq(), one(pi())) })
		}
		for _, w := range []string{"COMMENT", "ENGINE_ATTRIBUTE", "PASSWORD", "SECONDARY_ENGINE_ATTRIBUTE", "CONNECTION"} {
			all = append(all, func() []*Tok { return cat(kws(w), g.eq(), one(g.str())) })
		}
		all = append(all,
			func() []*Tok { return cat(kws("COMPRESSION"), g.eq(), one(g.smallStr("ZLIB", "LZ4", "NONE"))) },
			func() []*Tok { return cat(kws("ENCRYPTION"), g.eq(), one(g.smallStr("Y", "N"))) },
			func() []*Tok { return cat(kws("COLLATE"), g.eq(), one(g.name())) },
			func() []*Tok { return cat(kws("DEFAULT COLLATE"), g.eq(), one(g.name())) },
			func() []*Tok { return cat(kws("ENGINE"), g.eq(), one(g.name())) },
			func() []*Tok { return cat(kws("CHARACTER SET"), g.eq(), one(g.name())) },
			func() []*Tok { return cat(kws("DEFAULT CHARACTER SET"), g.eq(), one(g.name())) },
			func() []*Tok {
				return cat(kws(s.Pick([]string{"CHECKSUM", "DELAY_KEY_WRITE"})), g.eq(), one(num(s.Pick([]string{"0", "1"}))))
			},
			func() []*Tok {
				v := num("0")
				switch s.N(3) {
				case 1:
					v = num("1")
				case 2:
					v = kw("DEFAULT")
				}
				return cat(kws(s.Pick([]string{"PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"})), g.eq(), one(v))
			},
			func() []*Tok { return cat(kws(s.Pick([]string{"DATA", "INDEX"})+" DIRECTORY"), g.eq(), one(g.str())) },
			func() []*Tok {
				ts := append(kws("TABLESPACE"), g.name())
				if s.P(50) {
					ts = append(ts, kws("STORAGE "+s.Pick([]string{"DISK", "MEMORY"}))...)
				}
				return ts
			},
			func() []*Tok {
				ts := cat(kws("UNION"), g.eq())
				ts = append(ts, sym("("))
				for i, n := 0, s.R(1, 3); i < n; i++ {
					if i > 0 {
						ts = append(ts, sym(","))
					}
					_, x := g.tableRef()
					ts = append(ts, x...)
				}
				return append(ts, sym(")"))
			},
			func() []*Tok { return cat(kws("INSERT_METHOD"), g.eq(), kws(s.Pick([]string{"NO", "FIRST", "LAST"}))) },
			func() []*Tok {
				return cat(kws("ROW_FORMAT"), g.eq(), kws(s.Pick([]string{"DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT"})))
			},
		)
		n := s.R(1, 4)
		for k, i := range s.Perm(len(all)) {
			if k >= n {
				break
			}
			add(all[i](), s.P(35))
		}
	}
}

// --- statements ---

func (g *G) table() *TableDef {
	s := g.s
	t := &TableDef{Head: kws("CREATE TABLE")}
	if g.d == SQLITE {
		t.Head = cat(kws("CREATE"), g.maybe(func() []*Tok { return kws(s.Pick([]string{"TEMP", "TEMPORARY"})) }), kws("TABLE"))
	}
	if s.P(30) {
		t.IfNot = kws("IF NOT EXISTS")
	}
	if s.P(g.p.Schema) {
		t.Schema = g.name()
	}
	t.Name = g.name()
	if s.P(g.p.NoCols) {
		// table constraints only
		for n := s.R(1, 3); n > 0; n-- {
			t.Items = append(t.Items, g.tcon())
		}
		g.options(t)
		return t
	}
	for n := 0; ; {
		if n > 0 && s.P(g.p.MidTC) || n == 0 && s.P(g.p.MidTC/3) {
			t.Items = append(t.Items, g.tcon())
			continue
		}
		c := &ColDef{Name: g.name()}
		g.typ(c)
		g.constraints(c)
		t.Items = append(t.Items, &Item{Col: c})
		n++
		if n >= g.p.MaxC || !s.P(g.p.Cols) {
			break
		}
	}
	for n := 0; n < g.p.MaxTC && s.P(g.p.TC); n++ {
		t.Items = append(t.Items, g.tcon())
	}
	g.options(t)
	return t
}

func genScript(s *Src, d Dialect, p Prof) *Script {
	if s.P(p.Big) {
		// longer than usual in one direction
		switch s.N(5) {
		case 0:
			p.MaxC, p.Cols = s.R(8, 140), 98
		case 1:
			p.MaxT, p.Tables = s.R(5, 40), 96
			p.MaxC = 3
		case 2:
			p.MaxTC, p.TC, p.MidTC = s.R(6, 40), 95, 30
		case 3:
			p.MaxC, p.Cols, p.MaxTC, p.TC, p.MidTC, p.MaxT, p.Tables = s.R(4, 40), 92, s.R(3, 20), 88, 25, s.R(2, 12), 80
		default:
			p.Expr = s.R(6, 40)
		}
	}
	g := &G{s: s, d: d, p: p}
	sc := &Script{D: d}
	other := func() {
		for i := 0; i < 3 && s.P(p.Others); i++ {
			sc.Stmts = append(sc.Stmts, &Stmt{Other: g.other(), G: g.group()})
		}
	}
	other()
	for n := 0; ; {
		sc.Stmts = append(sc.Stmts, &Stmt{Table: g.table()})
		n++
		other()
		if n >= p.MaxT || !s.P(p.Tables) {
			break
		}
	}
	if last := sc.Stmts[len(sc.Stmts)-1]; d == SQLITE && last.Table != nil && s.P(p.NoSemi) {
		last.Table.NoSemi = true
	}
	sc.NGrp = g.grp
	return sc
}

func genDialect(s *Src) Dialect { return Dialect(s.N(3)) }

func genCase(s *Src, toks []*Tok) {
	m := s.W(40, 20, 10, 10, 20)
	var r uint64
	if m >= 3 {
		r = uint64(s.next())
	}
	applyCase(toks, m, r)
}
