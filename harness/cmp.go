package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/kodaimura/ddlparse"
)

// exprTokens splits SQL expression text. Independent of the code under test;
// whitespace only separates.
func exprTokens(x string, backslash bool) []string {
	var out []string
	rs := []rune(x)
	n := len(rs)
	isW := func(r rune) bool {
		return r == '_' || r == '$' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80
	}
	isD := func(r rune) bool { return r >= '0' && r <= '9' }
	scanQ := func(i int) int {
		q := rs[i]
		i++
		for i < n {
			if backslash && q != '`' && rs[i] == '\\' {
				i += 2
				continue
			}
			if rs[i] == q {
				if i+1 < n && rs[i+1] == q {
					i += 2
					continue
				}
				return i + 1
			}
			i++
		}
		return n
	}
	for i := 0; i < n; {
		r := rs[i]
		switch {
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			i++
		case r == '\'' || r == '"' || r == '`':
			j := scanQ(i)
			out = append(out, string(rs[i:j]))
			i = j
		case isD(r) || r == '.' && i+1 < n && isD(rs[i+1]) && (i == 0 || !isW(rs[i-1])):
			j := i
			for j < n && isD(rs[j]) {
				j++
			}
			if j < n && rs[j] == '.' {
				j++
				for j < n && isD(rs[j]) {
					j++
				}
			}
			if j+1 < n && (rs[j] == 'e' || rs[j] == 'E') {
				k := j + 1
				if rs[k] == '+' || rs[k] == '-' {
					k++
				}
				if k < n && isD(rs[k]) {
					for k < n && isD(rs[k]) {
						k++
					}
					j = k
				}
			}
			for j < n && isW(rs[j]) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case isW(r):
			j := i
			for j < n && isW(rs[j]) {
				j++
			}
			w := string(rs[i:j])
			if j < n && rs[j] == '\'' && len(w) == 1 && strings.ContainsAny(w, "xXbBnNeE") {
				j = scanQ(j)
			}
			out = append(out, string(rs[i:j]))
			i = j
		case strings.ContainsRune("(),.;", r):
			out = append(out, string(r))
			i++
		default:
			j := i
			for j < n && strings.ContainsRune("=<>!~@#%^&|?:*/+-", rs[j]) {
				j++
			}
			if j == i {
				j++
			}
			if x := string(rs[i:j]); strings.Contains(x, "--") || strings.Contains(x, "/*") {
				out = append(out, "(comment)") // two operators became a comment
				i = j
				continue
			}
			// a sign after an operator stands alone: =-1 is = -1
			k := j
			for k > i+1 && (rs[k-1] == '-' || rs[k-1] == '+') {
				k--
			}
			out = append(out, string(rs[i:k]))
			for ; k < j; k++ {
				out = append(out, string(rs[k]))
			}
			i = j
		}
	}
	return out
}

func sameExpr(got, want string) bool {
	return sameTokens(got, want, false) || strings.Contains(want, "\\") && sameTokens(got, want, true)
}

// sameTokens: backslash says whether it escapes inside quotes (MySQL).
func sameTokens(got, want string, backslash bool) bool {
	a, b := exprTokens(got, backslash), exprTokens(want, backslash)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func isExpr(v interface{}) bool {
	s, ok := v.(string)
	return ok && strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")")
}

func sameCols(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type differ struct{ msg string }

func (d *differ) chk(path string, got, want interface{}) {
	if d.msg == "" && !reflect.DeepEqual(got, want) {
		d.msg = fmt.Sprintf("%s: got %#v, want %#v", path, got, want)
	}
}

func (d *differ) cols(path string, got, want []string) {
	if d.msg == "" && !sameCols(got, want) {
		d.msg = fmt.Sprintf("%s: got %q, want %q", path, got, want)
	}
}

func (d *differ) expr(path string, got, want string) {
	if d.msg == "" && !sameExpr(got, want) {
		d.msg = fmt.Sprintf("%s: got %q, want (up to spaces) %q", path, got, want)
	}
}

// aspects
const (
	aNames = 1 << iota
	aTypes
	aFlags
	aLits
	aExprs
	aTCons
	aRefs
	aAll = aNames | aTypes | aFlags | aLits | aExprs | aTCons | aRefs
)

// diffTables compares got with want on the chosen aspects; "" = equal.
func diffTables(got, want []ddlparse.Table, asp int) string {
	d := &differ{}
	d.chk("number of tables", len(got), len(want))
	for i := range want {
		if d.msg != "" {
			return d.msg
		}
		g, w := got[i], want[i]
		p := fmt.Sprintf("table %d", i)
		if asp&aNames != 0 {
			d.chk(p+" schema", g.Schema, w.Schema)
			d.chk(p+" name", g.Name, w.Name)
			d.chk(p+" if_not_exists", g.IfNotExists, w.IfNotExists)
			if d.msg == "" && len(g.Columns) != len(w.Columns) {
				var gn, wn []string
				for _, c := range g.Columns {
					gn = append(gn, c.Name)
				}
				for _, c := range w.Columns {
					wn = append(wn, c.Name)
				}
				d.msg = fmt.Sprintf("%s columns: got %q, want %q", p, gn, wn)
			}
		}
		if len(g.Columns) != len(w.Columns) {
			d.chk(p+" number of columns", len(g.Columns), len(w.Columns))
			return d.msg
		}
		for j := range w.Columns {
			gc, wc := g.Columns[j], w.Columns[j]
			q := fmt.Sprintf("%s column %d", p, j)
			if asp&aNames != 0 {
				d.chk(q+" name", gc.Name, wc.Name)
			}
			if asp&aTypes != 0 {
				d.chk(q+" type", gc.DataType, wc.DataType)
			}
			gk, wk := gc.Constraint, wc.Constraint
			if asp&aFlags != 0 {
				d.chk(q+" constraint name", gk.Name, wk.Name)
				d.chk(q+" is_primary_key", gk.IsPrimaryKey, wk.IsPrimaryKey)
				d.chk(q+" is_unique", gk.IsUnique, wk.IsUnique)
				d.chk(q+" is_not_null", gk.IsNotNull, wk.IsNotNull)
				d.chk(q+" is_autoincrement", gk.IsAutoincrement, wk.IsAutoincrement)
				d.chk(q+" collate", gk.Collate, wk.Collate)
			}
			if d.msg != "" {
				return d.msg
			}
			if ws, ok := wk.Default.(exprString); ok {
				if asp&aExprs != 0 {
					gs, ok := gk.Default.(string)
					if !ok {
						d.chk(q+" default", gk.Default, string(ws))
					} else {
						d.expr(q+" default", gs, string(ws))
					}
				}
			} else if asp&aLits != 0 {
				d.chk(q+" default", gk.Default, wk.Default)
			}
			if asp&aExprs != 0 {
				d.expr(q+" check", gk.Check, wk.Check)
			}
			if asp&aRefs != 0 {
				d.chk(q+" references table", gk.References.TableName, wk.References.TableName)
				d.cols(q+" references columns", gk.References.ColumnNames, wk.References.ColumnNames)
			}
		}
		gt, wt := g.Constraints, w.Constraints
		if asp&aTCons != 0 {
			d.chk(p+" number of primary keys", len(gt.PrimaryKey), len(wt.PrimaryKey))
			d.chk(p+" number of uniques", len(gt.Unique), len(wt.Unique))
			d.chk(p+" number of checks", len(gt.Check), len(wt.Check))
			d.chk(p+" number of foreign keys", len(gt.ForeignKey), len(wt.ForeignKey))
			if d.msg != "" {
				return d.msg
			}
			for j, x := range wt.PrimaryKey {
				q := fmt.Sprintf("%s primary key %d", p, j)
				d.chk(q+" name", gt.PrimaryKey[j].Name, x.Name)
				d.cols(q+" columns", gt.PrimaryKey[j].ColumnNames, x.ColumnNames)
			}
			for j, x := range wt.Unique {
				q := fmt.Sprintf("%s unique %d", p, j)
				d.chk(q+" name", gt.Unique[j].Name, x.Name)
				d.cols(q+" columns", gt.Unique[j].ColumnNames, x.ColumnNames)
			}
			for j, x := range wt.Check {
				q := fmt.Sprintf("%s check %d", p, j)
				d.chk(q+" name", gt.Check[j].Name, x.Name)
			}
			for j, x := range wt.ForeignKey {
				q := fmt.Sprintf("%s foreign key %d", p, j)
				d.chk(q+" name", gt.ForeignKey[j].Name, x.Name)
				d.cols(q+" columns", gt.ForeignKey[j].ColumnNames, x.ColumnNames)
			}
		}
		if asp&aExprs != 0 {
			d.chk(p+" number of checks", len(gt.Check), len(wt.Check))
			if d.msg != "" {
				return d.msg
			}
			for j, x := range wt.Check {
				d.expr(fmt.Sprintf("%s check %d expr", p, j), gt.Check[j].Expr, x.Expr)
			}
		}
		if asp&aRefs != 0 {
			d.chk(p+" number of foreign keys", len(gt.ForeignKey), len(wt.ForeignKey))
			if d.msg != "" {
				return d.msg
			}
			for j, x := range wt.ForeignKey {
				q := fmt.Sprintf("%s foreign key %d", p, j)
				d.chk(q+" references table", gt.ForeignKey[j].References.TableName, x.References.TableName)
				d.cols(q+" references columns", gt.ForeignKey[j].References.ColumnNames, x.References.ColumnNames)
			}
		}
	}
	return d.msg
}

// exprString marks an expected default as expression text.
type exprString string

func (e exprString) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]string{"$expr": string(e)})
}

// fixExpr restores exprString values after JSON decoding.
func fixExpr(ts []ddlparse.Table) {
	for i := range ts {
		for j := range ts[i].Columns {
			if m, ok := ts[i].Columns[j].Constraint.Default.(map[string]interface{}); ok {
				s, _ := m["$expr"].(string)
				ts[i].Columns[j].Constraint.Default = exprString(s)
			}
		}
	}
}

// markExpr marks the defaults of a parsed result as expression text where the
// model says that the default is an expression.
func markExpr(got, model []ddlparse.Table) []ddlparse.Table {
	out := cloneTables(got)
	for i := range out {
		for j := range out[i].Columns {
			if i < len(model) && j < len(model[i].Columns) {
				if _, ok := model[i].Columns[j].Constraint.Default.(exprString); ok {
					if s, ok := out[i].Columns[j].Constraint.Default.(string); ok {
						out[i].Columns[j].Constraint.Default = exprString(s)
					}
				}
			}
		}
	}
	return out
}

func cloneStrs(x []string) []string {
	if x == nil {
		return nil
	}
	return append([]string{}, x...)
}

// cloneTables is a deep copy.
func cloneTables(ts []ddlparse.Table) []ddlparse.Table {
	if ts == nil {
		return nil
	}
	out := append([]ddlparse.Table{}, ts...)
	for i := range out {
		t := &out[i]
		if t.Columns != nil {
			t.Columns = append([]ddlparse.Column{}, t.Columns...)
		}
		for j := range t.Columns {
			r := &t.Columns[j].Constraint.References
			r.ColumnNames = cloneStrs(r.ColumnNames)
		}
		c := &t.Constraints
		if c.PrimaryKey != nil {
			c.PrimaryKey = append([]ddlparse.PrimaryKey{}, c.PrimaryKey...)
		}
		for j := range c.PrimaryKey {
			c.PrimaryKey[j].ColumnNames = cloneStrs(c.PrimaryKey[j].ColumnNames)
		}
		if c.Unique != nil {
			c.Unique = append([]ddlparse.Unique{}, c.Unique...)
		}
		for j := range c.Unique {
			c.Unique[j].ColumnNames = cloneStrs(c.Unique[j].ColumnNames)
		}
		if c.Check != nil {
			c.Check = append([]ddlparse.Check{}, c.Check...)
		}
		if c.ForeignKey != nil {
			c.ForeignKey = append([]ddlparse.ForeignKey{}, c.ForeignKey...)
		}
		for j := range c.ForeignKey {
			c.ForeignKey[j].ColumnNames = cloneStrs(c.ForeignKey[j].ColumnNames)
			c.ForeignKey[j].References.ColumnNames = cloneStrs(c.ForeignKey[j].References.ColumnNames)
		}
	}
	return out
}
