package main

import "strings"

var otherHeads = [3][]string{
	{"VIEW", "TRIGGER", "INDEX", "UNIQUE INDEX", "VIRTUAL TABLE", "TEMP VIEW", "TEMPORARY TRIGGER"},
	{"VIEW", "TRIGGER", "INDEX", "UNIQUE INDEX", "MATERIALIZED VIEW", "SEQUENCE", "FUNCTION", "TYPE", "PROCEDURE", "AGGREGATE", "SCHEMA", "ROLE", "USER",
		"GROUP", "TABLESPACE", "EXTENSION", "DATABASE", "LANGUAGE", "FOREIGN TABLE", "DOMAIN", "SERVER", "CONVERSION", "RULE", "COLLATION", "POLICY", "OPERATOR"},
	{"VIEW", "TRIGGER", "INDEX", "UNIQUE INDEX", "DATABASE", "PROCEDURE", "SERVER", "FUNCTION", "USER", "EVENT", "SEQUENCE", "TABLESPACE", "ROLE", "LOGIN"},
}

var bodyWords = []string{"SELECT", "a", "FROM", "t", "WHERE", "x", "AS", "ON", "INSERT", "INTO", "VALUES", "NEW", "UPDATE", "SET", "TABLE", "PRIMARY", "KEY",
	"create", "RETURNS", "int", "IF", "NOT", "EXISTS", "AFTER", "FOR", "EACH", "ROW", "DEFAULT", "NULL", "CONSTRAINT", "ended", "beginning", "cases", "users"}

func (g *G) soup(n int) []*Tok {
	s := g.s
	var out []*Tok
	for ; n > 0; n-- {
		switch s.W(50, 10, 10, 10, 8, 6, 6) {
		case 0:
			out = append(out, wd(s.Pick(bodyWords)))
		case 1:
			out = append(out, g.str())
		case 2:
			t, _ := g.posInt()
			out = append(out, t)
		case 3:
			out = append(out, g.expr()...)
		case 4:
			out = append(out, g.quotedName())
		case 5:
			if s.P(50) { // a qualified name may be a keyword
				out = append(out, wd(s.Pick([]string{"NEW", "t", "OLD", "x"})), sym("."), wd(s.Pick([]string{"id", "end", "END", "case", "begin", "Begin", "table", "x"})))
				break
			}
			out = append(out, sym(s.Pick([]string{",", "="})))
		default:
			out = append(out, op(s.Pick([]string{"*", "<>", ">=", "||"})))
		}
	}
	return out
}

func (g *G) caseExpr() []*Tok {
	if k := g.s.W(93, 5, 2); k > 0 { // nested
		n := g.s.R(1, 12)
		if k == 2 {
			n = g.s.R(13, 300)
		}
		var out []*Tok
		for i := 0; i < n; i++ {
			out = cat(out, kws("CASE"), g.w("WHEN"), g.w("x THEN"))
		}
		out = cat(out, g.soup(1))
		for i := 0; i < n; i++ {
			out = append(out, kw("END"))
		}
		return out
	}
	return cat(kws("CASE"), g.w("WHEN"), g.soup(1), g.w("THEN"), g.soup(1), kws("END"))
}

func (g *G) simpleStmt() []*Tok {
	s := g.s
	out := cat(g.w(s.Pick([]string{"UPDATE t SET x", "INSERT INTO log VALUES", "SELECT", "DELETE FROM t WHERE a", "SET y"})), g.soup(s.R(1, 4)))
	if s.P(30) {
		out = cat(out, one(sym("=")), g.caseExpr())
	}
	return append(out, sym(";"))
}

func (g *G) block(depth int) []*Tok {
	s := g.s
	out := kws("BEGIN")
	n := s.R(1, 3)
	for i := 0; i < n; i++ {
		k := 0
		if depth > 0 && g.d != SQLITE {
			k = s.W(40, 15, 15, 12, 10, 8)
		}
		switch k {
		case 0:
			out = cat(out, g.simpleStmt())
		case 1:
			out = cat(out, g.block(depth-1), one(sym(";")))
		case 2:
			out = cat(out, g.w("IF"), g.expr(), g.w("THEN"), g.simpleStmt(), kws("END IF ;"))
		case 3:
			out = cat(out, kws("CASE"), g.w("x WHEN"), g.soup(1), g.w("THEN"), g.simpleStmt(), kws("END CASE ;"))
		case 4:
			out = cat(out, g.w("WHILE"), g.expr(), g.w("DO"), g.simpleStmt(), kws("END WHILE ;"))
		default:
			w := s.Pick([]string{"LOOP", "REPEAT"})
			out = cat(out, g.w(w), g.simpleStmt(), kws("END"), kws(w), one(sym(";")))
		}
	}
	return append(out, kw("END"))
}

// other is a complete CREATE statement that is not CREATE TABLE.
func (g *G) other() []*Tok {
	s := g.s
	h := s.Pick(otherHeads[g.d])
	nm := g.name()
	for strings.EqualFold(nm.S, "begin") || strings.EqualFold(nm.S, "end") {
		nm = &Tok{K: NM, S: "obj1"}
	}
	out := cat(kws("CREATE"), kws(h), one(nm))
	switch s.W(45, 15, 30, 10) {
	case 0:
		out = cat(out, g.soup(s.R(0, 8)))
	case 1:
		out = cat(out, g.w("AS SELECT"), g.caseExpr(), g.w("FROM"), g.soup(s.R(1, 3)))
	case 2:
		b := g.block(2)
		if k := s.W(93, 5, 2); k > 0 && g.d != SQLITE {
			n := s.R(1, 12)
			if k == 2 {
				n = s.R(13, 300)
			}
			for ; n > 0; n-- {
				b = cat(kws("BEGIN"), b, one(sym(";")), kws("END"))
			}
		}
		out = cat(out, g.soup(s.R(0, 3)), b)
	default:
		if g.d == PG {
			tag := s.Pick([]string{"$$", "$body$", "$f_1$", "$B$", "$é1$"})
			body := ""
			for n := s.R(0, 6); n > 0; n-- {
				body += s.Pick([]string{"BEGIN", "+BEGIN+", "|CASE-", "/END", "*", "+", " BEGIN ", ";", "'", "\"", "END;", "RETURN 1;", "\n", "/*", "--", "$", " $1 ", "(", ")", "CREATE TABLE z (y INT);", "`", "$other$", "　", "$Body$", "$BODY$", "$b$", "$F_1$", "$É1$", "$$", "$body", "body$", "$b ody$", "\\", "\\\\"})
			}
			// the closing tag must not be formed early
			if tag == "$$" {
				body = dropDouble(body)
			}
			if strings.Contains(body, tag) {
				body = ""
			}
			if strings.HasSuffix(body, "$") || s.P(50) {
				body += " "
			}
			out = cat(out, g.w("RETURNS int AS"), one(&Tok{K: QT, S: tag + body + tag}), g.w("LANGUAGE plpgsql"))
		} else {
			out = cat(out, g.soup(s.R(1, 4)))
		}
	}
	return append(out, sym(";"))
}

func dropDouble(x string) string {
	var b []byte
	for i := 0; i < len(x); i++ {
		if x[i] == '$' && len(b) > 0 && b[len(b)-1] == '$' {
			b = append(b, ' ')
		}
		b = append(b, x[i])
	}
	return string(b)
}
