package main

import (
	"regexp"
	"strings"
)

var identRe = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)

var reservedSet = func() [3]map[string]bool {
	var r [3]map[string]bool
	for i, l := range [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL} {
		r[i] = map[string]bool{}
		for _, w := range l {
			r[i][w] = true
		}
	}
	return r
}()

func isReserved(d Dialect, w string) bool { return reservedSet[d][strings.ToUpper(w)] }

func isPlainName(d Dialect, w string) bool { return identRe.MatchString(w) && !isReserved(d, w) }

var commonNames = []string{
	"id", "users", "user_id", "email", "created_at", "orders", "price", "t1", "col1", "items", "x1", "b", "d", "e",
	"title", "Body", "ACCOUNT", "camelCase", "_id", "__", "_", "fk_user", "pk1", "uq_email", "ck", "idx_a", "main", "pub",
	"nm", "qty", "n1", "z9_Z", "tbl", "ref_tbl", "some_rather_long_column_name_for_good_measure",
}

// words that mean something somewhere in the three grammars; used as names
// wherever the dialect does not reserve them
var keywordish = []string{
	"action", "always", "ascii", "autoincrement", "auto_increment", "begin", "binary", "bigint", "bit", "bool", "boolean", "btree", "by",
	"char", "character", "checksum", "coalesce", "comment", "compression", "connection", "constraint_", "conflict", "data", "date", "datetime",
	"deferred", "deferrable", "directory", "disk", "domain", "double", "dynamic", "encryption", "end", "enforced", "engine", "event", "exclude",
	"extension", "fail", "false", "first", "fixed", "full", "fulltext", "function", "generated", "hash", "identity", "if", "ignore", "immediate",
	"include", "index", "inherit", "inherits", "initially", "insert_method", "int", "int4", "integer", "invisible", "json", "key", "key_block_size",
	"last", "list", "match", "memory", "method", "name", "no", "nocase", "none", "now", "null_", "numeric", "of", "oids", "options", "parser",
	"partial", "partition", "password", "path", "point", "policy", "precision", "procedure", "range", "real", "restrict", "role", "row_format",
	"rowid", "rtrim", "schema", "sequence", "serial", "server", "set", "simple", "spatial", "status", "storage", "stored", "strict", "table_",
	"tablespace", "temp", "temporary", "text", "time", "timestamp", "true", "type", "union_", "user", "uuid", "value", "varchar", "varying", "view",
	"virtual", "visible", "with", "without", "year", "zone", "case_", "check_", "default_", "unique_", "primary_", "references_", "eof", "EOF",
	"current_date", "current_timestamp", "not", "is", "as", "on", "update", "delete", "cascade", "asc", "desc", "collate", "column_format",
	"primary_key", "key_id", "check_sum", "checked", "unique_id", "uniqueness", "index_no", "foreign_key", "foreign_id", "constraint_name", "constraints",
	"references_to", "create_table", "created", "table_name", "tables", "if_not_exists", "end_at", "ending", "begin_date", "not_null", "nullable", "default_value",
	"as_of", "on_delete", "inx", "orders_", "casefold", "exclude_", "full_text", "keys", "auto", "without_", "strictly", "temp_table", "generated_at", "stored_", "collated", "int_", "text_", "bit_varying", "date_", "time_zone", "xend", "xcase", "null1",
	"engine_attribute", "replace", "rollback", "abort", "nan", "inf", "infinity", "e1", "x", "n", "u",
}

var plainPools = func() [3][]string {
	var r [3][]string
	for d := SQLITE; d <= MYSQL; d++ {
		for _, w := range keywordish {
			if isPlainName(d, w) && !strings.EqualFold(w, "if") {
				r[d] = append(r[d], w, strings.ToUpper(w))
			}
		}
	}
	return r
}()

const identFirst = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const identRest = identFirst + "0123456789"

func genIdent(s *Src, d Dialect, max int) string {
	n := s.R(0, max)
	b := []byte{identFirst[s.N(len(identFirst))]}
	for i := 0; i < n; i++ {
		b = append(b, identRest[s.N(len(identRest))])
	}
	w := string(b)
	if isReserved(d, w) || strings.EqualFold(w, "if") {
		w += "_1"
	}
	return w
}

var hostileBits = []string{
	"a", " ", ";", ",", "(", ")", "--", "-- x", "/*", "*/", "#", ".", "=", "\n", "CREATE TABLE", "TABLE", "PRIMARY KEY", "NOT NULL",
	"END", "BEGIN", "DEFAULT", "日本", "é", "　", "$$", "$tag$", "'", "\"", "`", "1", "0.5", "-", "*", "/", "''", "\"\"", "``", "<EOF>", "EOF",
	"\t", "\x1a", "\b", "x", "%s", "%d", "CASE", "\r\n", "NULL", "\\", "=", "|", "ß", "ſ", "I", "😀", "\x00", "''''", "&", "<", ">", "{", "}", "[", "]",
	"\u00a0", "\u2028", "\u2003", "\u200b", "\ufeff", "\u0085", "\v", "\f", "\x01", "\x7f", "\ufffd", "\U0010ffff", "e\u0301", "\u202e", "\u212a", "ı", "İ", "Ω", "é", "“", "’", "＇", "；", "（", "\r", "  ", "   ", "''", "\n\n", " \n ", "--\n", "*/ ", "0x41", "\\n", "\\\\", "\\u0041", "&amp;", "%27", "null", "true", "<", "?", "!", "@", "~", "^", "+", ":", ",",
}

// genContent draws the content of a quoted text. quote is its own quote.
func genContent(s *Src, d Dialect, allowEmpty bool) string {
	var c string
	switch s.W(30, 55, 15) {
	case 0:
		c = s.Pick([]string{"abc", "x", "hello world", "a b", "It", "2020-01-01", "Name", "user name",
			"TRUE", "false", "NULL", "null", "CURRENT_TIMESTAMP", "current_date", "123", "1e5", "-1", "(1)", "(x)", " x", "x ", " x ", "DEFAULT", "PRIMARY KEY", "''", "\n", "0"})
	case 1:
		n := s.R(1, 5)
		for i := 0; i < n; i++ {
			c += s.Pick(hostileBits)
		}
	default:
		n := s.R(1, 12)
		for i := 0; i < n; i++ {
			switch s.W(70, 10, 10, 5, 5) {
			case 0:
				c += string(rune(s.R(32, 126)))
			case 1:
				c += string(rune(s.R(1, 31)))
			case 2:
				c += string(rune(s.R(0x80, 0x7ff)))
			case 3:
				c += string(rune(s.R(0x800, 0xd7ff)))
			default:
				c += string(rune(s.R(0xe000, 0x10ffff)))
			}
		}
	}
	if s.P(2) { // much longer than usual
		k := 1 + s.R(30, 400)/(len(c)+1)
		c = strings.Repeat(c, k)
	}
	if allowEmpty && s.P(6) {
		return ""
	}
	if c == "" {
		c = "q"
	}
	return c
}

func quote(q byte, content string) string {
	qs := string(q)
	return qs + strings.ReplaceAll(content, qs, qs+qs) + qs
}

// quoteString writes content as a string literal of the dialect. In MySQL a
// backslash has to be escaped, and other characters may be.
func quoteString(s *Src, d Dialect, q byte, content string) string {
	if d != MYSQL {
		return quote(q, content)
	}
	var b strings.Builder
	b.WriteByte(q)
	esc := s.P(40)
	for _, r := range content {
		switch {
		case r == '\\':
			b.WriteString("\\\\")
		case r == rune(q):
			if esc && s.P(50) {
				b.WriteString("\\" + string(r))
			} else {
				b.WriteString(string(r) + string(r))
			}
		case esc && s.P(30):
			if i := strings.IndexRune("\x00\b\n\r\t\x1a", r); i >= 0 && s.P(75) {
				b.WriteString("\\" + "0bnrtZ"[i:i+1])
			} else if strings.ContainsRune("0bnrtZ%_", r) {
				b.WriteRune(r)
			} else {
				b.WriteString("\\" + string(r))
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte(q)
	return b.String()
}

// stringVal is the value of a string literal.
func stringVal(d Dialect, s string) string {
	if d != MYSQL {
		return unquoteTok(s)
	}
	rs := []rune(s)
	q := rs[0]
	rs = rs[1 : len(rs)-1]
	var b strings.Builder
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch {
		case r == q:
			i++
			b.WriteRune(q)
		case r == '\\' && i+1 < len(rs):
			i++
			switch rs[i] {
			case '0':
				b.WriteByte(0)
			case 'b':
				b.WriteByte(8)
			case 'n':
				b.WriteByte(10)
			case 'r':
				b.WriteByte(13)
			case 't':
				b.WriteByte(9)
			case 'Z':
				b.WriteByte(26)
			case '%', '_':
				b.WriteRune('\\')
				b.WriteRune(rs[i])
			default:
				b.WriteRune(rs[i])
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func unquoteTok(s string) string {
	q := s[:1]
	return strings.ReplaceAll(s[1:len(s)-1], q+q, q)
}

func identQuotes(d Dialect) string {
	switch d {
	case SQLITE:
		return "\"`"
	case PG:
		return "\""
	}
	return "`"
}

func stringQuotes(d Dialect) string {
	if d == MYSQL {
		return "'\""
	}
	return "'"
}

func isNameTok(d Dialect, s string) bool {
	if strings.IndexByte(identQuotes(d), s[0]) >= 0 {
		return len(s) >= 2
	}
	return isPlainName(d, s)
}

func isStringTok(d Dialect, s string) bool { return strings.IndexByte(stringQuotes(d), s[0]) >= 0 }
