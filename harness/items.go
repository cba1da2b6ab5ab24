package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/kodaimura/ddlparse"
)

// C27: a table is the sequence of its items. C28: results share no memory.

const itemsHead, itemsSep, itemsTail = "CREATE TABLE t9 (\nzz9 TEXT\n,\n", "\n,\n", "zy9 TEXT\n);"

func itemsText(items ...Text) string {
	x := itemsHead
	for _, it := range items {
		x += string(it) + itemsSep
	}
	return x + itemsTail
}

// judgeItems: each item alone between two plain columns, and all together.
func judgeItems(c *Case, d Dialect) string {
	text := itemsText(c.Texts...)
	if c.Bare { // the first item, a column, comes first
		r := parseD(d, itemsText(c.Texts[0]))
		if r.err == nil && (len(r.tables) != 1 || len(r.tables[0].Columns) != 3) {
			return ""
		}
		text = strings.Replace(text, "zz9 TEXT\n,\n", "", 1)
	}
	whole := parseD(d, text)
	var want ddlparse.Table
	var errs []error
	shift := 0
	for i, t := range c.Texts {
		r := parseD(d, itemsText(t))
		if r.err != nil {
			v, ok := asVE(r.err)
			if !ok || v.Near == "<EOF>" {
				return ""
			}
			v.Line += shift
			if c.Bare {
				v.Line -= 2
			}
			errs = append(errs, v)
		} else {
			if len(r.tables) != 1 || len(r.tables[0].Columns) < 2 {
				return "" // not a single table: the item closed it
			}
			a := r.tables[0]
			n := len(a.Columns) - 1
			if i == 0 {
				want = a
				want.Columns = append([]ddlparse.Column{}, a.Columns[:n]...)
				want.Constraints = ddlparse.TableConstraint{
					PrimaryKey: a.Constraints.PrimaryKey[:len(a.Constraints.PrimaryKey):len(a.Constraints.PrimaryKey)],
					Unique:     a.Constraints.Unique[:len(a.Constraints.Unique):len(a.Constraints.Unique)],
					Check:      a.Constraints.Check[:len(a.Constraints.Check):len(a.Constraints.Check)],
					ForeignKey: a.Constraints.ForeignKey[:len(a.Constraints.ForeignKey):len(a.Constraints.ForeignKey)],
				}
			} else {
				want.Columns = append(want.Columns, a.Columns[1:n]...)
				k, l := &want.Constraints, a.Constraints
				k.PrimaryKey = append(k.PrimaryKey, l.PrimaryKey...)
				k.Unique = append(k.Unique, l.Unique...)
				k.Check = append(k.Check, l.Check...)
				k.ForeignKey = append(k.ForeignKey, l.ForeignKey...)
			}
			if i == len(c.Texts)-1 {
				want.Columns = append(want.Columns, a.Columns[n])
			}
		}
		shift += strings.Count(string(t)+itemsSep, "\n")
	}
	if len(errs) > 0 {
		if whole.err == nil {
			return fmt.Sprintf("accepted, but an item alone is rejected: %v", errs[0])
		}
		for _, e := range errs {
			if reflect.DeepEqual(whole.err, e) {
				return ""
			}
		}
		return fmt.Sprintf("error %v, the item alone gives (at its place) %v", whole.err, errs[0])
	}
	if whole.err != nil {
		return fmt.Sprintf("rejected: %v, but each item alone is accepted", whole.err)
	}
	if c.Bare {
		want.Columns = want.Columns[1:]
	}
	if len(whole.tables) != 1 || js(whole.tables[0]) != js(want) {
		return fmt.Sprintf("got %s, the items alone give %s", js(whole.tables), js(want))
	}
	return ""
}

// closed: brackets balanced and never below zero.
func closed(ts []*Tok) bool {
	n := 0
	for _, t := range ts {
		switch t.S {
		case "(":
			n++
		case ")":
			if n--; n < 0 {
				return false
			}
		}
	}
	return n == 0
}

func itemToks(d Dialect, it *Item) []*Tok {
	ts := (&TableDef{Name: nmTok("t"), Items: []*Item{it}, NoSemi: true}).toks(nil)
	return ts[2 : len(ts)-1]
}

func genItems(s *Src) *Case {
	d := genDialect(s)
	p := defProf()
	p.NoCols, p.Ign, p.MidTC, p.MaxT, p.Others = 5, 30, 30, 1, 0
	g := &G{s: s, d: d, p: p}
	c := &Case{Kind: "items", Dialect: d.String(), Labels: label(d, "random")}
	bad := s.W(60, 30, 10)
	t := g.table()
	for i, it := range t.Items {
		ts := cpToks(itemToks(d, it))
		if bad > 0 && s.P(30) || bad == 2 && i == len(t.Items)-1 {
			ts2 := ts
			for n := s.R(1, 2); n > 0; n-- {
				ts2, _ = editToks(s, d, ts2)
			}
			if closed(ts2) {
				ts = ts2
			}
		}
		x, _ := renderEdited(s, d, ts)
		c.Texts = append(c.Texts, Text(x))
	}
	c.Bare = t.Items[0].Col != nil && s.P(50)
	c.Trivial = len(c.Texts) < 2
	return c
}

// catItems: all ordered pairs of items of the catalogue, and triples around each
// of them.
func catItems(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		var items []Text
		var isCol []bool
		catSingles(d, func(mk lazy) bool {
			for _, it := range mk().Stmts[0].Table.Items {
				x := Text(plain(d, itemToks(d, it)))
				for _, y := range items {
					if x == y {
						return true
					}
				}
				items = append(items, x)
				isCol = append(isCol, it.Col != nil)
				break
			}
			return true
		})
		for _, w := range []string{"x1 BOGUS", "x1", "CHECK", "UNIQUE ()", "PRIMARY", "x1 TEXT NOT", "x1 TEXT DEFAULT", "NULL", "x1 TEXT UNIQUE UNIQUE", "CONSTRAINT c1", "FOREIGN KEY (x1)", "x1 TEXT REFERENCES", "x1 TEXT x2"} {
			items = append(items, Text(w))
			isCol = append(isCol, w[0] == 'x')
		}
		for i, a := range items {
			for j, b := range items {
				if !yield(func() *Case {
					c := &Case{Kind: "items", Dialect: d.String(), Texts: []Text{a, b}, Labels: label(d, "catalogue pair")}
					if (i+j)%4 == 0 {
						c.Texts = append(c.Texts, a)
					}
					return c
				}) {
					return false
				}
				if !yield(func() *Case {
					c := &Case{Kind: "items", Dialect: d.String(), Texts: []Text{a}, Labels: label(d, "catalogue pair, bare"), Bare: isCol[i]}
					for k := 0; k < (i+2*j)%7; k++ {
						c.Texts = append(c.Texts, Text("f"+itoa(k)+" "+baseType[d]))
					}
					c.Texts = append(c.Texts, b)
					return c
				}) {
					return false
				}
			}
		}
		return true
	})
}

// judgeOwn: writing to one part of a result changes no other part.
func judgeOwn(d Dialect, x string) string {
	r := parseD(d, x)
	if r.err != nil {
		return ""
	}
	if m := overlap(r.tables, parseD(d, x).tables); m != "" {
		return m
	}
	cp := copyTables(r.tables)
	at := ""
	same := func(what string) bool {
		if reflect.DeepEqual(r.tables, cp) {
			return true
		}
		at = fmt.Sprintf("%s changed another part of the result: %s instead of %s", what, clip(js(r.tables), 1000), clip(js(cp), 1000))
		return false
	}
	var walk func(a, b reflect.Value, path string) bool
	walk = func(a, b reflect.Value, path string) bool {
		switch a.Kind() {
		case reflect.Struct:
			for i := 0; i < a.NumField(); i++ {
				if !walk(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name) {
					return false
				}
			}
		case reflect.Slice:
			if a.IsNil() {
				return true
			}
			junk := reflect.New(a.Type().Elem()).Elem()
			if junk.Kind() == reflect.String {
				junk.SetString("~appended~")
			} else {
				junk.FieldByName("Name").SetString("~appended~")
			}
			for i, full := a.Len(), a.Slice(0, a.Cap()); i < full.Len(); i++ {
				full.Index(i).Set(junk) // what append does while there is room
			}
			if !same("appending to " + path) {
				return false
			}
			for i := 0; i < a.Len(); i++ {
				if !walk(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)) {
					return false
				}
			}
		case reflect.String:
			a.SetString("~" + path)
			b.SetString("~" + path)
		case reflect.Int:
			a.SetInt(-7)
			b.SetInt(-7)
		case reflect.Bool:
			a.SetBool(!b.Bool())
			b.SetBool(a.Bool())
		case reflect.Interface:
			a.Set(reflect.ValueOf("~" + path))
			b.Set(reflect.ValueOf("~" + path))
		}
		return true
	}
	v, w := reflect.ValueOf(&r.tables).Elem(), reflect.ValueOf(&cp).Elem()
	if !walk(v, w, "tables") || !same("writing to all parts in turn") {
		return at
	}
	return ""
}

// overlap: two lists of the results of two calls that would share elements once
// both are appended to.
func overlap(results ...[]ddlparse.Table) string {
	type span struct {
		lo, hi uintptr
		path   string
	}
	var spans []span
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Slice:
			if v.Cap() > 0 {
				lo := v.Pointer()
				spans = append(spans, span{lo, lo + uintptr(v.Cap())*v.Type().Elem().Size(), path})
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	for i, ts := range results {
		walk(reflect.ValueOf(ts), fmt.Sprintf("(call %d) tables", i+1))
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		if spans[i].lo < spans[i-1].hi {
			return fmt.Sprintf("%s and %s have room to grow in the same memory: appending to one overwrites what was appended to the other", spans[i-1].path, spans[i].path)
		}
	}
	runtime.KeepAlive(results)
	return ""
}

func copyTables(ts []ddlparse.Table) []ddlparse.Table {
	return deepCopy(reflect.ValueOf(ts)).Interface().([]ddlparse.Table)
}

func deepCopy(v reflect.Value) reflect.Value {
	o := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			o.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				o.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			o.Field(i).Set(deepCopy(v.Field(i)))
		}
	default:
		o.Set(v)
	}
	return o
}

// catOwn: pairs of catalogue statements in one script.
func catOwn(yield func(mkCase) bool) {
	catTexts("own")(yield)
	eachDialect(func(d Dialect) bool {
		st := catStmts(d)
		for i, a := range st {
			for _, k := range []int{0, 1, 7, 31} {
				b := st[(i+k)%len(st)]
				if !yield(func() *Case {
					return &Case{Kind: "own", Dialect: d.String(), Texts: []Text{Text(a + "\n" + b)}, Labels: label(d, "catalogue pair")}
				}) {
					return false
				}
			}
		}
		return true
	})
}
