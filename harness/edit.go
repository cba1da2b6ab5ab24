package main

import (
	"strings"
)

// Edits of token lists: how invalid (and sometimes still valid) scripts are
// made. Whether an edited script belongs to the syntax is decided by the
// reference recogniser, never by the edit.

func cpToks(ts []*Tok) []*Tok {
	out := make([]*Tok, len(ts))
	for i, t := range ts {
		c := *t
		c.Glue = false
		out[i] = &c
	}
	return out
}

var grammarWords = func() []string {
	words := strings.Fields(`CREATE TABLE IF NOT EXISTS TEMP TEMPORARY PRIMARY KEY UNIQUE NULL CHECK DEFAULT COLLATE REFERENCES FOREIGN CONSTRAINT
		ON CONFLICT ROLLBACK ABORT FAIL IGNORE REPLACE AUTOINCREMENT AUTO_INCREMENT GENERATED ALWAYS AS STORED VIRTUAL BY IDENTITY WITH WITHOUT
		ROWID STRICT OIDS TABLESPACE INHERITS PARTITION RANGE LIST HASH USING BTREE INDEX FULLTEXT SPATIAL EXCLUDE WHERE INCLUDE NO INHERIT ACTION
		CASCADE RESTRICT SET DELETE UPDATE MATCH SIMPLE PARTIAL FULL DEFERRABLE INITIALLY DEFERRED IMMEDIATE ENFORCED COMMENT COLUMN_FORMAT FIXED
		DYNAMIC ENGINE_ATTRIBUTE SECONDARY_ENGINE_ATTRIBUTE STORAGE DISK MEMORY VISIBLE INVISIBLE KEY_BLOCK_SIZE PARSER ENGINE CHARACTER CHECKSUM
		ROW_FORMAT UNION INSERT_METHOD FIRST LAST ASC DESC CURRENT_TIMESTAMP CURRENT_DATE CURRENT_TIME TRUE FALSE VIEW TRIGGER FUNCTION SEQUENCE
		BEGIN END CASE DROP ALTER SELECT INSERT INTO VALUES BINARY NOCASE RTRIM VARYING PRECISION TIME ZONE UNSIGNED ZEROFILL ENUM ROW`)
	words = append(words, sqliteTypes...)
	for _, l := range [][]string{pgTypes, pgTypesN, pgTypesPS, pgTypesT, myTypes, myTypesN, myTypesPS} {
		words = append(words, l...)
	}
	return words
}()

var oddWords = []string{"1abc", "é", "naïve", "a-b", "9", "表", "x-y", "a!", "ſtrict", "ıd", "a$b", "İd", "K1", "TEXTＡ", "a@b", "t?", "Ω", "１２", "inf", "NaN", "Infinity", "-inf", "a\u00a0b", "\ufeffa", "\u00a0", "\u2003", "\u200b", "a\u2028", "\x00", "a\x01", "\v", "\f", "\ufffd", "“a”", "ａ", "a’s", "；", "（", "\u0085"}

func vocabTok(s *Src, d Dialect) *Tok {
	switch s.W(45, 15, 12, 8, 6, 5, 5, 4) {
	case 0:
		return kw(s.Pick(grammarWords))
	case 1:
		return sym(s.Pick([]string{"(", ")", ",", ";", ".", "="}))
	case 2:
		return &Tok{K: NM, S: s.Pick(commonNames)}
	case 3:
		return num(s.Pick([]string{"1", "10", "0", "2.5", "-1", "1e3", "007"}))
	case 4:
		return &Tok{K: QT, S: s.Pick([]string{"'abc'", "\"name\"", "`name`", "''", "\"a b\"", "'x y'"})}
	case 5:
		return op(s.Pick([]string{"<", ">", "*", "+", "-", "/", "|", "&", "%", "!", "?", ":", "@", "~", "^", "[", "]", "{", "}", "\\"}))
	case 6:
		return wd(s.Pick(oddWords))
	default:
		l := [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL}[d]
		return kw(s.Pick(l))
	}
}

func insertAt(ts []*Tok, i int, xs ...*Tok) []*Tok {
	out := append([]*Tok{}, ts[:i]...)
	out = append(out, xs...)
	return append(out, ts[i:]...)
}

func pickIdx(s *Src, ts []*Tok, ok func(*Tok) bool) int {
	n := 0
	for _, t := range ts {
		if ok(t) {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := s.N(n)
	for i, t := range ts {
		if ok(t) {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

func misspell(s *Src, w string) string {
	switch s.N(6) {
	case 0:
		return w + s.Pick([]string{"S", "X", "_", "1", "E", "s"})
	case 1:
		if len(w) > 1 {
			return w[:len(w)-1]
		}
		return w + "Q"
	case 2:
		i := s.N(len(w))
		return w[:i] + w[i:i+1] + w[i:]
	case 3:
		if len(w) > 2 {
			i := s.N(len(w) - 1)
			return w[:i] + w[i+1:i+2] + w[i:i+1] + w[i+2:]
		}
		return w + w
	case 4:
		return s.Pick([]string{"X", "_", "N"}) + w
	default: // letters that fold to ASCII ones
		r := strings.NewReplacer("S", "ſ", "s", "ſ", "K", "K", "k", "K", "I", "ı", "i", "İ")
		return r.Replace(w)
	}
}

// editToks applies one edit and returns the new list and the edit's name.
func editToks(s *Src, d Dialect, ts []*Tok) ([]*Tok, string) {
	if len(ts) == 0 {
		return []*Tok{vocabTok(s, d)}, "insert"
	}
	n := len(ts)
	switch s.W(14, 8, 16, 16, 6, 12, 6, 5, 5, 14, 14) {
	case 0:
		i := s.N(n)
		return append(append([]*Tok{}, ts[:i]...), ts[i+1:]...), "delete"
	case 1:
		i := s.N(n)
		c := *ts[i]
		return insertAt(ts, i, &c), "duplicate"
	case 2:
		return insertAt(ts, s.N(n+1), vocabTok(s, d)), "insert"
	case 3:
		out := append([]*Tok{}, ts...)
		out[s.N(n)] = vocabTok(s, d)
		return out, "replace"
	case 4:
		out := append([]*Tok{}, ts...)
		if n > 1 {
			i := s.N(n - 1)
			out[i], out[i+1] = out[i+1], out[i]
		}
		return out, "swap"
	case 5:
		i := pickIdx(s, ts, func(t *Tok) bool { return t.K == KW || t.K == KV })
		if i < 0 {
			return ts, "none"
		}
		out := append([]*Tok{}, ts...)
		c := *ts[i]
		c.S = misspell(s, c.S)
		c.K = WD
		out[i] = &c
		return out, "misspell"
	case 6:
		return append([]*Tok{}, ts[:s.N(n)]...), "truncate"
	case 7:
		i := s.N(n)
		j := i + s.R(2, 5)
		if j > n {
			j = n
		}
		return append(append([]*Tok{}, ts[:i]...), ts[j:]...), "delete range"
	case 8:
		i := s.N(n)
		j := i + s.R(2, 6)
		if j > n {
			j = n
		}
		return insertAt(ts, j, cpToks(ts[i:j])...), "duplicate range"
	case 9:
		if s.P(50) {
			i := pickIdx(s, ts, func(t *Tok) bool { return t.K == SYM })
			if i < 0 {
				return ts, "none"
			}
			return append(append([]*Tok{}, ts[:i]...), ts[i+1:]...), "delete symbol"
		}
		return insertAt(ts, s.N(n+1), sym(s.Pick([]string{"(", ")", ",", ";", "."}))), "insert symbol"
	default:
		i := pickIdx(s, ts, func(t *Tok) bool { return t.K == NM || t.K == QT || t.K == NUM })
		if i < 0 {
			return ts, "none"
		}
		out := append([]*Tok{}, ts...)
		switch s.N(6) {
		case 0, 1:
			l := [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL}[d]
			w := s.Pick(l)
			switch s.N(3) {
			case 1:
				w = strings.ToLower(w)
			case 2:
				w = w[:1] + strings.ToLower(w[1:])
			}
			out[i] = kw(w)
		case 2:
			out[i] = &Tok{K: QT, S: s.Pick([]string{"'abc'", "''", "'id'"})}
		case 3:
			out[i] = &Tok{K: QT, S: s.Pick([]string{"\"id\"", "`id`"})}
		case 4:
			out[i] = wd(s.Pick(oddWords))
		default:
			out[i] = num(s.Pick([]string{"1", "0", "12", "1.5", "-3", "0x1F", "1e5"}))
		}
		return out, "replace name"
	}
}

// breakScript changes the abstract script: mistakes that single-token edits
// rarely produce.
func breakScript(s *Src, sc *Script) string {
	g := &G{s: s, d: sc.D, p: defProf()}
	g.p.Con, g.p.ConNames, g.p.Ign = 35, 10, 15
	var tds []*TableDef
	for _, st := range sc.Stmts {
		if st.Table != nil {
			tds = append(tds, st.Table)
		}
	}
	td := tds[s.N(len(tds))]
	var cols []*ColDef
	for _, it := range td.Items {
		if it.Col != nil {
			cols = append(cols, it.Col)
		}
	}
	if len(cols) == 0 {
		return "none"
	}
	c := cols[s.N(len(cols))]
	place := func(x *Con) {
		i := s.N(len(c.Cons) + 1)
		c.Cons = append(c.Cons[:i:i], append([]*Con{x}, c.Cons[i:]...)...)
	}
	other := Dialect((int(sc.D) + 1 + s.N(2)) % 3)
	switch s.W(40, 10, 15, 10, 10, 8, 7) {
	case 0: // one more constraint of a kind that is there already
		if len(c.Cons) == 0 {
			g.constraints(c)
		}
		if len(c.Cons) == 0 {
			c.Cons = append(c.Cons, &Con{Kind: "NOTNULL", Toks: kws("NOT NULL")})
		}
		kind := c.Cons[s.N(len(c.Cons))].Kind
		for i := 0; i < 12; i++ {
			tmp := &ColDef{}
			g.constraints(tmp)
			for _, x := range tmp.Cons {
				if x.Kind == kind {
					place(x)
					return "repeat " + kind
				}
			}
		}
		for _, x := range c.Cons {
			if x.Kind == kind {
				y := *x
				y.Toks = cpToks(x.Toks)
				place(&y)
				break
			}
		}
		return "repeat " + kind
	case 1:
		place(&Con{Kind: "NULL", Toks: kws("NULL")})
		place(&Con{Kind: "NOTNULL", Toks: kws("NOT NULL")})
		return "NULL and NOT NULL"
	case 2: // constraint of another dialect
		g2 := &G{s: s, d: other, p: g.p}
		tmp := &ColDef{}
		g2.constraints(tmp)
		if len(tmp.Cons) > 0 {
			x := tmp.Cons[s.N(len(tmp.Cons))]
			x.Toks = cpToks(x.Toks)
			place(x)
		}
		return "foreign constraint"
	case 3: // type of another dialect
		g2 := &G{s: s, d: other, p: g.p}
		tmp := &ColDef{}
		g2.typ(tmp)
		c.Type = tmp.Type
		return "foreign type"
	case 4: // digits
		c.Type = append(cpToks(c.Type), kws(s.Pick([]string{"( 5 )", "( 5 , 2 )", "( 1 , 2 , 3 )", "( )", "( -1 )", "( 2.5 )", "( x )", "( 1 2 )", "( , 1 )", "( 3 , )"}))...)
		return "digits"
	case 5: // column after option, second definition list
		td.Opts = append(td.Opts, &Opt{Toks: kws(s.Pick([]string{"( )", "STRICT STRICT", "ENGINE = ", "WITHOUT", "foo", ", STRICT", "WITH OIDS", "COMMENT = x", "ROW_FORMAT = BAD", "= 1"}))})
		return "options"
	default: // table constraint of another dialect
		g2 := &G{s: s, d: other, p: g.p}
		g2.p.Ign = 40
		it := g2.tcon()
		it.TC.Toks = cpToks(it.TC.Toks)
		td.Items = append(td.Items, it)
		return "foreign table constraint"
	}
}
