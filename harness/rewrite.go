package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/kodaimura/ddlparse"
)

// rewriteTables writes tables again as DDL of the dialect. bad names a value
// that the dialect has no written form for; ok is false when nothing is asserted
// (a scale without precision, from a written precision of 0). quoted says whether
// the source had quoted text: a default that looks like an expression may then
// be a string.
func rewriteTables(d Dialect, ts []ddlparse.Table, quoted bool) (ddl, bad string, ok bool) {
	ok = true
	q := byte('"')
	if d == MYSQL {
		q = '`'
	}
	nm := func(x string) string { return quote(q, x) }
	str := func(x string) string {
		if d == MYSQL {
			x = strings.ReplaceAll(x, `\`, `\\`)
		}
		return quote('\'', x)
	}
	list := func(cols []string) string {
		if len(cols) == 0 {
			if d != MYSQL {
				bad = "a key without columns"
			}
			return "((1))" // expression key parts are not reported
		}
		return "(" + strings.Join(cols, ", ") + ")"
	}
	ref := func(r ddlparse.Reference) string {
		x := "REFERENCES " + nm(r.TableName)
		if r.ColumnNames != nil {
			x += " " + list(r.ColumnNames)
		}
		return x
	}
	con := func(n string) string {
		if n == "" {
			return ""
		}
		return "CONSTRAINT " + nm(n) + " "
	}
	var b strings.Builder
	for _, t := range ts {
		b.WriteString("CREATE TABLE ")
		if t.IfNotExists {
			b.WriteString("IF NOT EXISTS ")
		}
		if t.Schema != "" {
			b.WriteString(nm(t.Schema) + ".")
		}
		b.WriteString(nm(t.Name) + " (")
		var items []string
		for _, c := range t.Columns {
			x := nm(c.Name) + " " + c.DataType.Name
			if d == PG && c.DataType.Name == "DOUBLE" {
				x += " PRECISION"
			}
			switch n, m := c.DataType.DigitN, c.DataType.DigitM; {
			case n > 0 && m > 0:
				x += fmt.Sprintf("(%d, %d)", n, m)
			case n > 0:
				x += fmt.Sprintf("(%d)", n)
			case m != 0 || n < 0:
				ok = false
			}
			k := c.Constraint
			var cons []string
			if k.Check != "" {
				cons = append(cons, "CHECK "+k.Check)
			}
			if k.IsPrimaryKey {
				p := "PRIMARY KEY"
				if k.IsAutoincrement && d == SQLITE {
					p += " AUTOINCREMENT"
				}
				cons = append(cons, p)
			}
			if k.IsAutoincrement {
				if d == MYSQL {
					cons = append(cons, "AUTO_INCREMENT")
				} else if d == PG || !k.IsPrimaryKey {
					bad = "auto-increment on column " + c.Name
				}
			}
			if k.IsUnique {
				cons = append(cons, "UNIQUE")
			}
			if k.IsNotNull {
				cons = append(cons, "NOT NULL")
			}
			switch v := k.Default.(type) {
			case nil:
			case float64:
				cons = append(cons, "DEFAULT "+strconv.FormatFloat(v, 'g', -1, 64))
			case bool:
				cons = append(cons, "DEFAULT "+strconv.FormatBool(v))
			case string:
				if !quoted && strings.HasPrefix(v, "(") {
					cons = append(cons, "DEFAULT "+v)
				} else {
					cons = append(cons, "DEFAULT "+str(v))
				}
			default:
				bad = fmt.Sprintf("a default of type %T", v)
			}
			if k.Collate != "" {
				if d == MYSQL {
					cons = append(cons, "COLLATE "+nm(k.Collate))
				} else {
					cons = append(cons, "COLLATE "+k.Collate)
				}
			}
			if k.References.TableName != "" || k.References.ColumnNames != nil {
				cons = append(cons, ref(k.References))
			}
			if k.Name != "" && len(cons) == 0 {
				cons = append(cons, map[Dialect]string{SQLITE: "AS (1)", PG: "NULL", MYSQL: "NULL"}[d])
			}
			if len(cons) > 0 {
				cons[0] = con(k.Name) + cons[0]
			}
			items = append(items, strings.Join(append([]string{x}, cons...), " "))
		}
		for _, k := range t.Constraints.PrimaryKey {
			items = append(items, con(k.Name)+"PRIMARY KEY "+list(k.ColumnNames))
		}
		for _, k := range t.Constraints.Unique {
			items = append(items, con(k.Name)+"UNIQUE "+list(k.ColumnNames))
		}
		for _, k := range t.Constraints.Check {
			items = append(items, con(k.Name)+"CHECK "+k.Expr)
		}
		for _, k := range t.Constraints.ForeignKey {
			if len(k.ColumnNames) == 0 {
				bad = "a foreign key without columns"
			}
			items = append(items, con(k.Name)+"FOREIGN KEY "+list(k.ColumnNames)+" "+ref(k.References))
		}
		if len(items) == 0 {
			switch d {
			case PG:
				items = append(items, "EXCLUDE (x1 WITH =)")
			case MYSQL:
				items = append(items, "INDEX (x1)")
			default:
				bad = "a table without columns and constraints"
			}
		}
		b.WriteString(strings.Join(items, ", ") + ");\n")
	}
	return b.String(), bad, ok
}

// judgeRewrite: an accepted text, written again from its tables, gives them again.
func judgeRewrite(d Dialect, x string) string {
	r := parseD(d, x)
	if r.err != nil {
		return ""
	}
	y, bad, ok := rewriteTables(d, r.tables, strings.ContainsAny(x, "'\"`$"))
	if !ok {
		return ""
	}
	if bad != "" {
		return fmt.Sprintf("the result cannot be written in this dialect: %s: %s", bad, clip(js(r.tables), 1000))
	}
	r2 := parseD(d, y)
	if r2.err != nil {
		return fmt.Sprintf("the tables written again are rejected (%v): %s", r2.err, clip(y, 1500))
	}
	if reflect.DeepEqual(r.tables, r2.tables) || reflect.DeepEqual(unspaced(r.tables), unspaced(r2.tables)) {
		return ""
	}
	return fmt.Sprintf("the tables written again as %s\nparse to %s\ninstead of %s", clip(y, 1000), clip(js(r2.tables), 1000), clip(js(r.tables), 1000))
}

// judgeTail: what follows the reported token does not change the error.
func judgeTail(c *Case, d Dialect, x string) string {
	r := parseD(d, x)
	v, ok := asVE(r.err)
	if !ok || v.Near == "<EOF>" {
		return ""
	}
	tail := string(c.Texts[1])
	check := func(y, how string) string {
		r2 := parseD(d, y)
		if r2.err == nil || !reflect.DeepEqual(r2.err, r.err) {
			return fmt.Sprintf("%s: %v, before: %v\nnew text: %q", how, r2.err, r.err, clip(y, 1500))
		}
		return ""
	}
	if m := check(x+"\n"+tail, "with more text after the error"); m != "" {
		return m
	}
	// one token per line: everything after the reported token is replaced.
	// NOT may be reported because of the token after it (NOT NULL).
	if c.Count == 1 && !strings.EqualFold(v.Near, "NOT") {
		ls := strings.Split(x, "\n")
		if v.Line >= 1 && v.Line <= len(ls) && ls[v.Line-1] == v.Near {
			y := strings.Join(ls[:v.Line], "\n") + []string{"\n", " "}[v.Line%2]
			if m := check(y+v.Near+" "+tail, "with the reported token again after the error"); m != "" {
				return m
			}
			return check(y+tail, "with other text after the error")
		}
	}
	return ""
}

// unspaced is a copy of the tables without the blanks between the tokens of
// expressions: what stands between 'a' . 0 may differ when it is written again.
func unspaced(ts []ddlparse.Table) []ddlparse.Table {
	strip := func(x string) string {
		var b strings.Builder
		q := rune(0)
		for _, r := range x {
			if q != 0 {
				if r == q {
					q = 0
				}
			} else if strings.ContainsRune("'\"`", r) {
				q = r
			} else if r == ' ' {
				continue
			}
			b.WriteRune(r)
		}
		return b.String()
	}
	out := append([]ddlparse.Table{}, ts...)
	for i := range out {
		out[i].Columns = append([]ddlparse.Column{}, out[i].Columns...)
		for j := range out[i].Columns {
			k := &out[i].Columns[j].Constraint
			k.Check = strip(k.Check)
			if v, ok := k.Default.(string); ok && strings.HasPrefix(v, "(") {
				k.Default = strip(v)
			}
		}
		out[i].Constraints.Check = append([]ddlparse.Check{}, out[i].Constraints.Check...)
		for j := range out[i].Constraints.Check {
			k := &out[i].Constraints.Check[j]
			k.Expr = strip(k.Expr)
		}
	}
	return out
}
