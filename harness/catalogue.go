package main

import (
	"strconv"
	"strings"
)

// The clause catalogue: every documented clause of each dialect in a fixed
// spelling, from which small scripts are enumerated completely (pairs of
// clauses, single-token neighbourhoods, separators, letter cases, quoted
// contents). Random generation covers depth and combinations; the catalogue
// makes sure that no documented clause is left to chance.
//
// Notation: tokens separated by blanks, capitals are keywords, [ ... ] is a
// part the result does not represent, a leading "!" makes the whole clause
// such a part.

var catCons = [3][]string{
	lines2(`PRIMARY KEY
PRIMARY KEY [ ASC ]
PRIMARY KEY [ DESC ] AUTOINCREMENT
PRIMARY KEY [ ON CONFLICT ROLLBACK ]
PRIMARY KEY [ ASC ] [ ON CONFLICT ABORT ] AUTOINCREMENT
PRIMARY KEY AUTOINCREMENT
NOT NULL
NOT NULL [ ON CONFLICT FAIL ]
UNIQUE
UNIQUE [ ON CONFLICT IGNORE ]
UNIQUE [ ON CONFLICT REPLACE ]
CHECK ( x1 > 1 )
CHECK ( ( x1 + 1 ) * 2 < f1 ( x1 , 'a' ) )
DEFAULT 1
DEFAULT -1.5
DEFAULT 'ab'
DEFAULT NULL
DEFAULT TRUE
DEFAULT FALSE
DEFAULT CURRENT_TIME
DEFAULT CURRENT_DATE
DEFAULT CURRENT_TIMESTAMP
DEFAULT ( x1 + 1 )
COLLATE NOCASE
COLLATE BINARY
COLLATE RTRIM
REFERENCES r1
REFERENCES s1 . r1
REFERENCES r1 ( k1 )
REFERENCES s1 . r1 ( k1 ) [ ON DELETE SET NULL ]
REFERENCES r1 [ ON UPDATE SET DEFAULT ]
REFERENCES r1 ( k1 ) [ ON DELETE CASCADE ] [ ON UPDATE RESTRICT ]
REFERENCES r1 ( k1 ) [ ON UPDATE NO ACTION ] [ ON DELETE CASCADE ]
REFERENCES r1 ( k1 ) [ MATCH FULL ]
REFERENCES r1 [ MATCH SIMPLE ]
REFERENCES r1 [ MATCH n1 ]
REFERENCES r1 ( k1 ) [ ON DELETE CASCADE ] [ MATCH PARTIAL ] [ NOT DEFERRABLE INITIALLY DEFERRED ]
REFERENCES r1 [ DEFERRABLE ]
REFERENCES r1 [ NOT DEFERRABLE ]
REFERENCES r1 ( k1 ) [ DEFERRABLE INITIALLY IMMEDIATE ]
!GENERATED ALWAYS AS ( x1 * 2 ) STORED
!GENERATED ALWAYS AS ( x1 )
!AS ( x1 ) VIRTUAL
!AS ( ( x1 ) )`),
	lines2(`PRIMARY KEY
PRIMARY KEY [ INCLUDE ( k1 , k2 ) ]
PRIMARY KEY [ WITH ( f1 = 70 ) ]
PRIMARY KEY [ USING INDEX TABLESPACE n1 ]
PRIMARY KEY [ INCLUDE ( k1 ) ] [ WITH ( f1 = 70 , f2 = on ) ] [ USING INDEX TABLESPACE n1 ]
UNIQUE
UNIQUE [ INCLUDE ( k1 ) ]
UNIQUE [ WITH ( f1 = 70 ) ] [ USING INDEX TABLESPACE n1 ]
NOT NULL
!NULL
CHECK ( x1 > 1 )
CHECK ( ( x1 + 1 ) * 2 < f1 ( x1 , 'a' ) ) [ NO INHERIT ]
DEFAULT 1
DEFAULT -1.5
DEFAULT 'ab'
DEFAULT NULL
DEFAULT TRUE
DEFAULT FALSE
DEFAULT CURRENT_TIME
DEFAULT CURRENT_DATE
DEFAULT CURRENT_TIMESTAMP
DEFAULT ( x1 + 1 )
REFERENCES r1
REFERENCES s1 . r1
REFERENCES r1 ( k1 )
REFERENCES s1 . r1 ( k1 ) [ ON DELETE SET NULL ]
REFERENCES r1 [ ON UPDATE SET DEFAULT ]
REFERENCES r1 ( k1 ) [ ON DELETE CASCADE ] [ ON UPDATE RESTRICT ]
REFERENCES r1 ( k1 ) [ ON UPDATE NO ACTION ] [ ON DELETE CASCADE ]
REFERENCES r1 ( k1 ) [ MATCH FULL ]
REFERENCES r1 [ MATCH SIMPLE ]
REFERENCES r1 ( k1 ) [ MATCH PARTIAL ] [ ON DELETE NO ACTION ]
!GENERATED ALWAYS AS ( x1 * 2 ) STORED
!GENERATED ALWAYS AS IDENTITY
!GENERATED BY DEFAULT AS IDENTITY
!GENERATED ALWAYS AS IDENTITY ( START WITH 10 INCREMENT BY 5 )
!GENERATED BY DEFAULT AS IDENTITY ( CACHE 20 )`),
	lines2(`PRIMARY KEY
KEY
UNIQUE
UNIQUE [ KEY ]
AUTO_INCREMENT
NOT NULL
!NULL
CHECK ( x1 > 1 )
CHECK ( ( x1 + 1 ) * 2 < f1 ( x1 , 'a' ) ) [ ENFORCED ]
CHECK ( x1 ) [ NOT ENFORCED ]
DEFAULT 1
DEFAULT -1.5
DEFAULT 'ab'
DEFAULT "ab"
DEFAULT NULL
DEFAULT TRUE
DEFAULT FALSE
DEFAULT CURRENT_TIME
DEFAULT CURRENT_DATE
DEFAULT CURRENT_TIMESTAMP
DEFAULT CURRENT_TIMESTAMP [ ON UPDATE CURRENT_TIMESTAMP ]
DEFAULT ( x1 + 1 )
!COMMENT 'ab'
!COMMENT "ab"
COLLATE c1
COLLATE ` + "`c1`" + `
!COLUMN_FORMAT FIXED
!COLUMN_FORMAT DYNAMIC
!COLUMN_FORMAT DEFAULT
!ENGINE_ATTRIBUTE = 'ab'
!ENGINE_ATTRIBUTE 'ab'
!SECONDARY_ENGINE_ATTRIBUTE = 'ab'
!SECONDARY_ENGINE_ATTRIBUTE 'ab'
!STORAGE DISK
!STORAGE MEMORY
!VISIBLE
!INVISIBLE
!VIRTUAL
!STORED
!GENERATED ALWAYS AS ( x1 * 2 )
!AS ( x1 )
REFERENCES r1 ( k1 )
REFERENCES s1 . r1 ( k1 ) [ ON DELETE SET NULL ]
REFERENCES r1 ( k1 ) [ ON UPDATE SET DEFAULT ]
REFERENCES r1 ( k1 ) [ ON DELETE CASCADE ] [ ON UPDATE RESTRICT ]
REFERENCES r1 ( k1 ) [ ON UPDATE NO ACTION ] [ ON DELETE CASCADE ]
REFERENCES r1 ( k1 ) [ MATCH FULL ]
REFERENCES r1 ( k1 ) [ MATCH SIMPLE ] [ ON DELETE RESTRICT ]
REFERENCES r1 ( k1 ) [ MATCH PARTIAL ] [ ON UPDATE CASCADE ]`),
}

var catTCons = [3][]string{
	lines2(`PRIMARY KEY ( k1 )
PRIMARY KEY ( k1 , k2 ) [ ON CONFLICT REPLACE ]
PRIMARY KEY ( "k 1" , k2 , k3 )
UNIQUE ( k1 )
UNIQUE ( k1 , k2 ) [ ON CONFLICT IGNORE ]
CHECK ( x1 > 1 )
CHECK ( ( x1 + 1 ) * 2 < f1 ( x1 , 'a' ) )
FOREIGN KEY ( k1 ) REFERENCES r1
FOREIGN KEY ( k1 ) REFERENCES s1 . r1 ( m1 )
FOREIGN KEY ( k1 , k2 ) REFERENCES r1 ( m1 , m2 ) [ ON DELETE SET NULL ]
FOREIGN KEY ( k1 ) REFERENCES r1 ( m1 ) [ ON UPDATE CASCADE ] [ MATCH n1 ]
FOREIGN KEY ( k1 ) REFERENCES r1 [ DEFERRABLE INITIALLY DEFERRED ]
FOREIGN KEY ( k1 ) REFERENCES r1 ( m1 ) [ NOT DEFERRABLE ]`),
	lines2(`PRIMARY KEY ( k1 )
PRIMARY KEY ( k1 , k2 ) [ INCLUDE ( k3 ) ]
PRIMARY KEY ( "k 1" , k2 , k3 ) [ WITH ( f1 = 70 ) ]
UNIQUE ( k1 )
UNIQUE ( k1 , k2 ) [ INCLUDE ( k3 , k4 ) ] [ USING INDEX TABLESPACE n1 ]
CHECK ( x1 > 1 )
CHECK ( ( x1 + 1 ) * 2 < f1 ( x1 , 'a' ) ) [ NO INHERIT ]
!EXCLUDE ( k1 WITH && )
!EXCLUDE USING g1 ( k1 WITH && )
!EXCLUDE USING g1 ( k1 WITH && , k2 WITH = ) INCLUDE ( k3 ) WITH ( f1 = 1 ) USING INDEX TABLESPACE n1 WHERE ( x1 > 1 )
!EXCLUDE ( k1 WITH && ) WHERE ( x1 )
FOREIGN KEY ( k1 ) REFERENCES r1
FOREIGN KEY ( k1 ) REFERENCES s1 . r1 ( m1 )
FOREIGN KEY ( k1 , k2 ) REFERENCES r1 ( m1 , m2 ) [ ON DELETE SET NULL ]
FOREIGN KEY ( k1 ) REFERENCES r1 ( m1 ) [ MATCH FULL ] [ ON UPDATE CASCADE ] [ ON DELETE NO ACTION ]`),
	lines2(`PRIMARY KEY ( k1 )
PRIMARY KEY ( k1 [ ( 10 ) ] , k2 [ DESC ] ) [ USING BTREE ]
PRIMARY KEY [ USING HASH ] ( ` + "`k 1`" + ` , k2 [ ASC ] , k3 ) [ COMMENT 'ab' ]
UNIQUE ( k1 )
UNIQUE [ KEY ] ( k1 )
UNIQUE [ INDEX ] [ u1 ] ( k1 , k2 [ ( 5 ) ] [ ASC ] ) [ KEY_BLOCK_SIZE = 8 ]
UNIQUE [ u1 ] ( k1 ) [ VISIBLE ]
UNIQUE [ KEY ] [ u1 ] [ USING BTREE ] ( k1 ) [ INVISIBLE ] [ ENGINE_ATTRIBUTE = 'ab' ]
UNIQUE [ USING HASH ] ( k1 ) [ WITH PARSER p1 ] [ SECONDARY_ENGINE_ATTRIBUTE 'ab' ]
UNIQUE ( ( x1 + 1 ) , k2 )
UNIQUE ( k1 , ( f1 ( x1 , 2 ) ) [ DESC ] )
CHECK ( x1 > 1 )
CHECK ( ( x1 + 1 ) * 2 < f1 ( x1 , 'a' ) ) [ ENFORCED ]
CHECK ( x1 ) [ NOT ENFORCED ]
!INDEX ( k1 )
!INDEX i1 ( k1 ( 10 ) DESC , k2 ) KEY_BLOCK_SIZE 8
!KEY i1 USING HASH ( k1 ) COMMENT 'ab' INVISIBLE
!KEY USING BTREE ( ( x1 + 1 ) ASC ) USING HASH
!FULLTEXT ( k1 )
!FULLTEXT INDEX i1 ( k1 , k2 ) WITH PARSER p1
!FULLTEXT KEY ( k1 )
!SPATIAL ( k1 )
!SPATIAL KEY i1 ( k1 ) ENGINE_ATTRIBUTE 'ab' SECONDARY_ENGINE_ATTRIBUTE = 'ab'
FOREIGN KEY ( k1 ) REFERENCES r1 ( m1 )
FOREIGN KEY [ i1 ] ( k1 , k2 ) REFERENCES s1 . r1 ( m1 , m2 ) [ ON DELETE SET NULL ]
FOREIGN KEY ( k1 ) REFERENCES r1 ( m1 [ ( 3 ) ] [ ASC ] ) [ MATCH FULL ] [ ON UPDATE CASCADE ] [ ON DELETE NO ACTION ]`),
}

var catOpts = [3][]string{
	lines2(`WITHOUT ROWID
STRICT`),
	lines2(`WITH ( f1 = 70 , f2 = off )
WITHOUT OIDS
TABLESPACE n1
INHERITS ( p1 , p2 )
PARTITION BY RANGE ( k1 )
PARTITION BY LIST ( ( x1 + 1 ) )
PARTITION BY HASH ( k1 , k2 )
USING h1`),
	lines2(`AUTOEXTEND_SIZE = 8
AUTO_INCREMENT = 10
AVG_ROW_LENGTH 10
KEY_BLOCK_SIZE = 8
MAX_ROWS = 5
MIN_ROWS 5
STATS_SAMPLE_PAGES = 5
COMMENT = 'ab'
COMMENT "ab"
ENGINE_ATTRIBUTE = 'ab'
PASSWORD = 'ab'
SECONDARY_ENGINE_ATTRIBUTE 'ab'
CONNECTION = 'ab'
COMPRESSION = 'ZLIB'
ENCRYPTION = 'Y'
CHARACTER SET = c1
CHARACTER SET c1
DEFAULT CHARACTER SET c1
COLLATE = c1
COLLATE c1
DEFAULT COLLATE = c1
ENGINE = e1
ENGINE e1
CHECKSUM = 0
DELAY_KEY_WRITE 1
PACK_KEYS = DEFAULT
PACK_KEYS 1
STATS_AUTO_RECALC = 0
STATS_PERSISTENT DEFAULT
DATA DIRECTORY = 'ab'
INDEX DIRECTORY 'ab'
TABLESPACE n1
TABLESPACE n1 STORAGE DISK
TABLESPACE n1 STORAGE MEMORY
UNION = ( u1 , s1 . u2 )
UNION ( u1 )
INSERT_METHOD = NO
INSERT_METHOD FIRST
INSERT_METHOD = LAST
ROW_FORMAT = DEFAULT
ROW_FORMAT DYNAMIC
ROW_FORMAT = FIXED
ROW_FORMAT = COMPRESSED
ROW_FORMAT REDUNDANT
ROW_FORMAT = COMPACT`),
}

// other statements; the body is free text up to ";"
var catOthers = [3][]string{}

var catBodies = []string{
	`v1 AS SELECT * FROM t1`,
	`v1 ON t1 ( c1 , c2 )`,
	`v1 AS SELECT ';' , "x" , 'CREATE TABLE zz (q TEXT);'`,
	`v1 AS SELECT CASE WHEN x1 THEN 1 ELSE 2 END FROM t1`,
	`v1 AFTER INSERT ON t1 BEGIN INSERT INTO l1 VALUES ( 1 ) ; END`,
	`v1 AFTER INSERT ON t1 BEGIN UPDATE t1 SET x1 = CASE WHEN x2 THEN 1 END ; DELETE FROM t1 ; END`,
	`v1 BEFORE UPDATE ON t1 BEGIN SELECT NEW . end , NEW . case , OLD . begin ; END`,
	`v1 BEGIN BEGIN SELECT 1 ; END ; SELECT 2 ; END`,
	`v1 BEGIN IF x1 THEN SELECT 1 ; END IF ; END`,
	`v1 BEGIN CASE x1 WHEN 1 THEN SELECT 1 ; END CASE ; END`,
	`v1 BEGIN WHILE x1 DO SELECT 1 ; END WHILE ; LOOP SELECT 1 ; END LOOP ; REPEAT SELECT 1 ; END REPEAT ; END`,
	`v1 ( c1 TEXT , TABLE t1 ( x1 ) )`,
	`v1 AS SELECT 'x+BEGIN+y' , "a|CASE|b" , 'END' , '+BEGIN'`,
	`v1 ( ) RETURNS int AS $$1+CASE+2;BEGIN$$ LANGUAGE plpgsql`,
	`v1 ( ) RETURNS int AS $b1$BEGIN;$$+BEGIN+$$;$b1$ LANGUAGE plpgsql`,
	`v1 ( ) RETURNS int AS $$$$ LANGUAGE plpgsql`,
	`v1 ( ) RETURNS int AS $b1$x;$B1$;BEGIN;$b$;$b12$;$$b1$ LANGUAGE plpgsql`,
	`v1 ( ) RETURNS int AS $_$x;$$;$__$;'$_$ LANGUAGE plpgsql`,
	`v1 ( ) RETURNS int AS $É$x;$é$;"$É$ LANGUAGE plpgsql`,
	`v1`,
}

func lines2(x string) []string { return strings.Split(x, "\n") }

type catB struct{ grp int }

// toks turns catalogue notation into tokens.
func (b *catB) toks(text string) []*Tok {
	var out []*Tok
	whole, cur := 0, 0
	if strings.HasPrefix(text, "!") {
		text = text[1:]
		b.grp++
		whole = b.grp
	}
	cur = whole
	fields := strings.Fields(text)
	for i := 0; i < len(fields); i++ {
		w := fields[i]
		switch w {
		case "[":
			b.grp++
			cur = b.grp
			continue
		case "]":
			cur = whole
			continue
		}
		// quoted names with a blank
		if strings.ContainsAny(w[:1], "\"`'") {
			for len(w) < 2 || w[len(w)-1] != w[0] {
				i++
				w += " " + fields[i]
			}
		}
		t := spellTok(w)
		if strings.HasPrefix(w, "CURRENT_") || w == "NOCASE" || w == "BINARY" || w == "RTRIM" {
			t.K = KV
		}
		t.G = cur
		out = append(out, t)
	}
	return out
}

// region returns the tokens from "(" at i to its ")".
func region(ts []*Tok, i int) []*Tok {
	depth := 0
	for j := i; j < len(ts); j++ {
		if ts[j].S == "(" && ts[j].K == SYM {
			depth++
		} else if ts[j].S == ")" && ts[j].K == SYM {
			depth--
			if depth == 0 {
				return ts[i : j+1]
			}
		}
	}
	panic("catalogue: unbalanced")
}

func openAt(ts []*Tok, from int) int {
	for i := from; i < len(ts); i++ {
		if ts[i].K == SYM && ts[i].S == "(" && ts[i].G == 0 {
			return i
		}
	}
	return -1
}

// keyCols are the named parts of a key list.
func keyCols(ts []*Tok) []*Tok {
	var out []*Tok
	depth := 0
	for _, t := range ts {
		switch {
		case t.K == SYM && t.S == "(":
			depth++
		case t.K == SYM && t.S == ")":
			depth--
		case depth == 1 && (t.K == NM || t.K == QT) && t.G == 0:
			out = append(out, t)
		}
	}
	return out
}

func refOf(ts []*Tok, i int) *Ref {
	r := &Ref{Table: ts[i]}
	i++
	if i < len(ts) && ts[i].S == "." {
		r.Schema, r.Table = r.Table, ts[i+1]
		i += 2
	}
	if i < len(ts) && ts[i].S == "(" && ts[i].G == 0 {
		r.Cols = keyCols(region(ts, i))
	}
	return r
}

// conKey says which clauses exclude each other.
func conKey(ts []*Tok) string {
	switch w := ts[0].S; w {
	case "KEY":
		return "PRIMARY"
	case "NOT", "NULL":
		return "NULL"
	case "INVISIBLE":
		return "VISIBLE"
	case "VIRTUAL":
		return "STORED"
	case "GENERATED":
		return "AS"
	default:
		return w
	}
}

func (b *catB) con(text string, named bool) *Con {
	ts := b.toks(text)
	x := &Con{Toks: ts}
	if named {
		x.Named, x.Name = true, &Tok{K: NM, S: "n9"}
		for _, t := range ts { // a named clause cannot be removed as a whole
			if strings.HasPrefix(text, "!") {
				t.G = 0
			}
		}
	}
	switch ts[0].S {
	case "PRIMARY", "KEY":
		x.Kind = "PRIMARY"
		for _, t := range ts {
			x.Auto = x.Auto || t.S == "AUTOINCREMENT"
		}
	case "NOT":
		x.Kind = "NOTNULL"
	case "UNIQUE":
		x.Kind = "UNIQUE"
	case "AUTO_INCREMENT":
		x.Kind = "AUTO"
	case "DEFAULT":
		x.Kind = "DEFAULT"
		v := ts[1]
		switch {
		case v.S == "(":
			x.DefExpr = region(ts, 1)
		case v.K == NUM:
			f, err := strconv.ParseFloat(v.S, 64)
			if err != nil {
				panic(err)
			}
			x.DefLit = f
		case v.K == QT:
			x.DefLit = unquoteTok(v.S)
		case v.S == "TRUE":
			x.DefLit = true
		case v.S == "FALSE":
			x.DefLit = false
		case v.K == KV:
			x.DefTok = v
		}
	case "CHECK":
		x.Kind = "CHECK"
		x.Check = region(ts, 1)
	case "COLLATE":
		x.Kind = "COLLATE"
		x.Coll = ts[1]
	case "REFERENCES":
		x.Kind = "REFERENCES"
		x.Ref = refOf(ts, 1)
	}
	return x
}

func (b *catB) tcon(text string, named int) *Item {
	whole := strings.HasPrefix(text, "!")
	it := &Item{}
	if whole {
		b.grp++
		it.G = b.grp
		text = text[1:]
	}
	ts := b.toks(text)
	c := &TCon{Toks: ts}
	it.TC = c
	if named > 0 {
		c.Named = true
		if named == 1 {
			c.Name = &Tok{K: NM, S: "n9"}
		}
	}
	if whole {
		return it
	}
	o := openAt(ts, 0)
	c.Kind = ts[0].S
	switch c.Kind {
	case "CHECK":
		c.Check = region(ts, o)
	case "PRIMARY", "UNIQUE":
		c.Cols = keyCols(region(ts, o))
	case "FOREIGN":
		c.Cols = keyCols(region(ts, o))
		for i, t := range ts {
			if t.S == "REFERENCES" {
				c.Ref = refOf(ts, i+1)
			}
		}
	}
	return it
}

var baseType = []string{"TEXT", "INTEGER", "INT"}

func nmTok(x string) *Tok { return &Tok{K: NM, S: x} }

func plainCol(d Dialect, name string) *ColDef {
	return &ColDef{Name: nmTok(name), Type: one(kw(baseType[d])), TName: baseType[d]}
}

func tableOf(d Dialect, b *catB, opts []string, comma bool, items ...*Item) *Script {
	td := &TableDef{Head: kws("CREATE TABLE"), Name: nmTok("t1"), Items: items}
	for _, o := range opts {
		b.grp++
		td.Opts = append(td.Opts, &Opt{Toks: b.toks(o), Comma: comma, G: b.grp})
	}
	return &Script{D: d, Stmts: []*Stmt{{Table: td}}, NGrp: b.grp}
}

func catTypes(d Dialect) []*ColDef {
	var out []*ColDef
	add := func(text, name string, n, m int) {
		out = append(out, &ColDef{Name: nmTok("x1"), Type: (&catB{}).toks(text), TName: name, N: n, M: m})
	}
	switch d {
	case SQLITE:
		for _, w := range sqliteTypes {
			add(w, w, 0, 0)
		}
	case PG:
		for _, w := range pgTypes {
			add(w, w, 0, 0)
		}
		for _, w := range pgTypesN {
			add(w, w, 0, 0)
			add(w+" ( 12 )", w, 12, 0)
		}
		add("BIT VARYING", "VARBIT", 0, 0)
		add("BIT VARYING ( 12 )", "VARBIT", 12, 0)
		add("CHARACTER VARYING", "VARCHAR", 0, 0)
		add("CHARACTER VARYING ( 12 )", "VARCHAR", 12, 0)
		add("DOUBLE PRECISION", "DOUBLE", 0, 0)
		for _, w := range pgTypesPS {
			add(w, w, 0, 0)
			add(w+" ( 12 )", w, 12, 0)
			add(w+" ( 12 , 3 )", w, 12, 3)
		}
		for _, w := range pgTypesT {
			for _, z := range []string{"", " WITH TIME ZONE", " WITHOUT TIME ZONE"} {
				add(w+z, w, 0, 0)
				add(w+" ( 3 )"+z, w, 3, 0)
			}
		}
	case MYSQL:
		for _, w := range myTypes {
			add(w, w, 0, 0)
		}
		for _, w := range myTypesN {
			add(w, w, 0, 0)
			add(w+" ( 12 )", w, 12, 0)
		}
		for _, w := range myTypesPS {
			add(w, w, 0, 0)
			add(w+" ( 12 )", w, 12, 0)
			add(w+" ( 12 , 3 )", w, 12, 3)
		}
	}
	return out
}

// clash: the two clauses cannot stand in this order without being read
// differently.
func clash(a, b string) bool {
	return strings.HasPrefix(a, "UNIQUE") && !strings.Contains(a, "KEY") && b == "KEY"
}

type lazy func() *Script

// catSingles yields small scripts with one or no clause.
func catSingles(d Dialect, yield func(lazy) bool) bool {
	put := func(mk lazy) bool { return yield(mk) }
	if !put(func() *Script { return tableOf(d, &catB{}, nil, false, &Item{Col: plainCol(d, "x1")}) }) {
		return false
	}
	for _, text := range catCons[d] {
		for named := 0; named < 2; named++ {
			if named == 1 && d == MYSQL && !strings.HasPrefix(text, "CHECK") {
				continue
			}
			if !put(func() *Script {
				b := &catB{}
				c := plainCol(d, "x1")
				c.Cons = []*Con{b.con(text, named == 1)}
				return tableOf(d, b, nil, false, &Item{Col: c}, &Item{Col: plainCol(d, "y1")})
			}) {
				return false
			}
		}
	}
	for _, text := range catTCons[d] {
		for named := 0; named < 3; named++ {
			if named == 2 && d != MYSQL || named > 0 && strings.HasPrefix(text, "!") && d == MYSQL {
				continue
			}
			if !put(func() *Script {
				b := &catB{}
				return tableOf(d, b, nil, false, &Item{Col: plainCol(d, "x1")}, b.tcon(text, named), &Item{Col: plainCol(d, "y1")})
			}) {
				return false
			}
		}
	}
	for _, text := range catTCons[d] {
		if !put(func() *Script {
			b := &catB{}
			return tableOf(d, b, nil, false, b.tcon(text, 0))
		}) {
			return false
		}
	}
	for _, text := range catOpts[d] {
		if !put(func() *Script {
			b := &catB{}
			return tableOf(d, b, []string{text}, true, &Item{Col: plainCol(d, "x1")})
		}) {
			return false
		}
	}
	for i := range catTypes(d) {
		if !put(func() *Script {
			return tableOf(d, &catB{}, nil, false, &Item{Col: catTypes(d)[i]}, &Item{Col: plainCol(d, "y1")})
		}) {
			return false
		}
	}
	// heads
	heads := []string{"CREATE TABLE"}
	if d == SQLITE {
		heads = append(heads, "CREATE [ TEMP ] TABLE", "CREATE [ TEMPORARY ] TABLE")
	}
	for _, h := range heads {
		for i := 0; i < 4; i++ {
			if !put(func() *Script {
				b := &catB{}
				head := b.toks(h)
				sc := tableOf(d, b, nil, false, &Item{Col: plainCol(d, "x1")})
				td := sc.Stmts[0].Table
				td.Head = head
				if i&1 != 0 {
					td.IfNot = kws("IF NOT EXISTS")
				}
				if i&2 != 0 {
					td.Schema = nmTok("s1")
				}
				sc.NGrp = b.grp
				return sc
			}) {
				return false
			}
		}
	}
	return true
}

// catPairs yields scripts with two clauses of the same level.
func catPairs(d Dialect, yield func(lazy) bool) bool {
	put := func(mk lazy) bool { return yield(mk) }
	for _, ta := range catCons[d] {
		for _, tb := range catCons[d] {
			if conKey((&catB{}).toks(ta)) == conKey((&catB{}).toks(tb)) || clash(ta, tb) {
				continue
			}
			for named := 0; named < 4; named++ {
				na, nb := named&1 != 0, named&2 != 0
				if d == MYSQL && (na && !strings.HasPrefix(ta, "CHECK") || nb && !strings.HasPrefix(tb, "CHECK")) {
					continue
				}
				if !put(func() *Script {
					b := &catB{}
					c := plainCol(d, "x1")
					c.Cons = []*Con{b.con(ta, na), b.con(tb, nb)}
					return tableOf(d, b, nil, false, &Item{Col: c}, &Item{Col: plainCol(d, "y1")})
				}) {
					return false
				}
			}
		}
	}
	for _, ta := range catTCons[d] {
		for _, tb := range catTCons[d] {
			for named := 0; named < 4; named++ {
				na, nb := named&1, named>>1
				if d == MYSQL && (na > 0 && ta[0] == '!' || nb > 0 && tb[0] == '!') {
					continue
				}
				if !put(func() *Script {
					b := &catB{}
					i1, i2 := b.tcon(ta, na), b.tcon(tb, nb)
					return tableOf(d, b, nil, false, &Item{Col: plainCol(d, "x1")}, i1, i2, &Item{Col: plainCol(d, "y1")})
				}) {
					return false
				}
			}
		}
	}
	for i, ta := range catOpts[d] {
		for j, tb := range catOpts[d] {
			if i == j || d == PG && strings.Fields(ta)[0] == strings.Fields(tb)[0] {
				continue
			}
			for _, comma := range []bool{true, false} {
				if comma && d == PG || !comma && d == SQLITE {
					continue
				}
				if !put(func() *Script {
					b := &catB{}
					return tableOf(d, b, []string{ta, tb}, comma, &Item{Col: plainCol(d, "x1")})
				}) {
					return false
				}
			}
		}
	}
	return true
}

// catTyped yields every type with every column clause.
func catTyped(d Dialect, yield func(lazy) bool) bool {
	n := len(catTypes(d))
	for i := 0; i < n; i++ {
		for _, text := range catCons[d] {
			if !yield(func() *Script {
				b := &catB{}
				c := catTypes(d)[i]
				c.Cons = []*Con{b.con(text, false)}
				return tableOf(d, b, nil, false, &Item{Col: c}, &Item{Col: plainCol(d, "y1")})
			}) {
				return false
			}
		}
	}
	return true
}

// catOther yields other statements in catalogue form.
func catOther(d Dialect, yield func(func() []*Tok) bool) bool {
	for _, h := range otherHeads[d] {
		for _, body := range catBodies {
			if d == SQLITE && (strings.Contains(body, "IF") || strings.Contains(body, "WHILE") || strings.Contains(body, "END CASE") || strings.Contains(body, "BEGIN BEGIN")) {
				continue
			}
			if d != PG && strings.Contains(body, "$") {
				continue
			}
			if !yield(func() []*Tok {
				ts := cat(kws("CREATE"), kws(h), (&catB{}).toks(body), kws(";"))
				return ts
			}) {
				return false
			}
		}
	}
	return true
}
