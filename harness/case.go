package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/kodaimura/ddlparse"
)

// Text is an input text; not valid UTF-8 is stored as base64 in JSON.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(t))})
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["b64"])
	*t = Text(d)
	return err
}

// Op is one call of a history.
type Op struct {
	Text    int    // index into Texts
	Dialect string // "" = ParseForce
	Mutate  bool   // scribble over the result afterwards
	Par     int    // >1: also run this many goroutines at once
}

// Case is everything needed to judge one generated input again.
type Case struct {
	Prop    string
	Kind    string
	Dialect string           `json:",omitempty"`
	Texts   []Text           `json:",omitempty"`
	Model   []ddlparse.Table `json:",omitempty"`
	Aspect  int              `json:",omitempty"`
	Near    string           `json:",omitempty"`
	Bare    bool             `json:",omitempty"`
	LineLo  int              `json:",omitempty"`
	LineHi  int              `json:",omitempty"`
	Count   int              `json:",omitempty"`
	Subst   [][2]string      `json:",omitempty"`
	Ops     []Op             `json:",omitempty"`
	Reps    []Rep            `json:",omitempty"`
	Parts   int              `json:",omitempty"` // columns and constraints of the last table
	Labels  []string         `json:",omitempty"`
	Trivial bool             `json:",omitempty"`
	skip    bool
}

// Rep is a piece of a very large text.
type Rep struct {
	S string
	N int
}

type result struct {
	tables []ddlparse.Table
	err    error
}

func parseD(d Dialect, x string) result {
	t, err := ddlparse.Parse(x, []ddlparse.Rdbms{ddlparse.SQLite, ddlparse.PostgreSQL, ddlparse.MySQL}[d])
	return result{t, err}
}

func parseName(d string, x string) result {
	if d == "" {
		t, err := ddlparse.ParseForce(x)
		return result{t, err}
	}
	return parseD(dialectOf(d), x)
}

func wrapper(d Dialect, x string) result {
	var t []ddlparse.Table
	var err error
	switch d {
	case SQLITE:
		t, err = ddlparse.ParseSQLite(x)
	case PG:
		t, err = ddlparse.ParsePostgreSQL(x)
	default:
		t, err = ddlparse.ParseMySQL(x)
	}
	return result{t, err}
}

func asVE(err error) (ddlparse.ValidateError, bool) {
	v, ok := err.(ddlparse.ValidateError)
	return v, ok
}

func sameResult(a, b result) string {
	if (a.err == nil) != (b.err == nil) || !reflect.DeepEqual(a.err, b.err) {
		return fmt.Sprintf("errors differ: %v / %v", a.err, b.err)
	}
	if !reflect.DeepEqual(a.tables, b.tables) {
		return fmt.Sprintf("tables differ: %s / %s", js(a.tables), js(b.tables))
	}
	return ""
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// checkOutcome is the shape every outcome must have (property C02).
func checkOutcome(x string, r result) string {
	if r.tables == nil {
		return "table list is nil"
	}
	if r.err == nil {
		return ""
	}
	if len(r.tables) != 0 {
		return fmt.Sprintf("error %v together with %d tables", r.err, len(r.tables))
	}
	v, ok := asVE(r.err)
	if !ok {
		return fmt.Sprintf("error is a %T, not a ValidateError", r.err)
	}
	lines := 1 + strings.Count(x, "\n")
	if v.Line < 1 || v.Line > lines {
		return fmt.Sprintf("error line %d, the input has %d lines", v.Line, lines)
	}
	if v.Near == "" {
		return "near text is empty"
	}
	if v.Near != "<EOF>" && !strings.Contains(string([]rune(x)), v.Near) {
		return fmt.Sprintf("near text %q does not occur in the input", v.Near)
	}
	if m := v.Error(); !strings.Contains(m, v.Near) || !strings.Contains(m, strconv.Itoa(v.Line)) {
		return fmt.Sprintf("message %q does not show near %q and line %d", m, v.Near, v.Line)
	}
	return ""
}

// judge runs the code under test on the case. "" = the property holds.
func judge(c *Case) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v\n%s", p, firstLines(string(debug.Stack()), 30))
		}
	}()
	d := dialectOf(c.Dialect)
	var x string
	if len(c.Texts) > 0 {
		x = string(c.Texts[0])
	}
	switch c.Kind {
	case "returns": // C01: all entry points return
		parseD(SQLITE, x)
		parseD(PG, x)
		parseD(MYSQL, x)
		ddlparse.ParseForce(x)
		return ""

	case "huge": // C01, C23: very large text, accepted with this many tables
		var b strings.Builder
		for _, r := range c.Reps {
			for i := 0; i < r.N; i++ {
				b.WriteString(r.S)
			}
		}
		r := parseD(d, b.String())
		if c.Prop == "C01" {
			return ""
		}
		if c.Near != "" {
			if v, ok := asVE(r.err); !ok || v.Near != c.Near || v.Line != c.LineLo {
				return fmt.Sprintf("%s instead of near %q at line %d", clip(fmt.Sprint(r.err), 300), c.Near, c.LineLo)
			}
			return ""
		}
		if r.err != nil {
			return "rejected: " + r.err.Error()
		}
		if len(r.tables) != c.Count {
			return fmt.Sprintf("%d tables, want %d", len(r.tables), c.Count)
		}
		if c.Parts > 0 {
			t := r.tables[len(r.tables)-1]
			n := len(t.Columns) + len(t.Constraints.PrimaryKey) + len(t.Constraints.Unique) + len(t.Constraints.Check) + len(t.Constraints.ForeignKey)
			for _, u := range t.Constraints.Unique {
				n += len(u.ColumnNames)
			}
			if n != c.Parts {
				return fmt.Sprintf("the last table has %d columns, constraints and key columns, want %d", n, c.Parts)
			}
		}
		return ""

	case "outcome": // C02
		for dd := SQLITE; dd <= MYSQL; dd++ {
			if m := checkOutcome(x, parseD(dd, x)); m != "" {
				return dd.String() + ": " + m
			}
		}
		if m := checkOutcome(x, parseName("", x)); m != "" {
			return "ParseForce: " + m
		}
		return ""

	case "items": // C27
		return judgeItems(c, d)

	case "own": // C28
		return judgeOwn(d, x)

	case "recase": // C17: the same words in other letter case, accepted or not
		return judgeRecase(d, x, string(c.Texts[1]))

	case "relayout": // C16: the same tokens in other layouts, accepted or not
		a := parseD(d, x)
		for i, t := range c.Texts[1:] {
			b := parseD(d, string(t))
			if (a.err == nil) != (b.err == nil) {
				return fmt.Sprintf("variant %d: the one is accepted, the other rejected: %v / %v", i+1, a.err, b.err)
			}
			if a.err == nil {
				if m := sameResult(a, b); m != "" {
					return fmt.Sprintf("variant %d: %s", i+1, m)
				}
				continue
			}
			va, ok1 := asVE(a.err)
			vb, ok2 := asVE(b.err)
			if !ok1 || !ok2 || va.Near != vb.Near {
				return fmt.Sprintf("variant %d: rejected at different tokens: %v / %v", i+1, a.err, b.err)
			}
		}
		return ""

	case "rewrite": // C25
		return judgeRewrite(d, x)

	case "tail": // C26
		return judgeTail(c, d, x)

	case "count": // C02: a valid script gives all its tables
		r := parseD(d, x)
		if m := checkOutcome(x, r); m != "" {
			return m
		}
		if r.err == nil && len(r.tables) != c.Count {
			return fmt.Sprintf("success with %d tables, the script has %d", len(r.tables), c.Count)
		}
		return ""

	case "nopartial": // C02: invalid tail => error, no tables
		r := parseD(d, x)
		if m := checkOutcome(x, r); m != "" {
			return m
		}
		if r.err == nil {
			return "accepted although the last statement is incomplete"
		}
		return ""

	case "accept":
		if r := parseD(d, x); r.err != nil {
			return fmt.Sprintf("rejected: %v", r.err)
		}
		return ""

	case "reject":
		r := parseD(d, x)
		if r.err == nil {
			return fmt.Sprintf("accepted: %s", js(r.tables))
		}
		if len(r.tables) != 0 {
			return "rejected, but tables were returned"
		}
		return ""

	case "errpos":
		r := parseD(d, x)
		if r.err == nil {
			return "accepted: " + js(r.tables)
		}
		v, ok := asVE(r.err)
		if !ok {
			return fmt.Sprintf("error is a %T", r.err)
		}
		if v.Near != c.Near || v.Line < c.LineLo || v.Line > c.LineHi {
			return fmt.Sprintf("reported near %q line %d, want near %q line %d..%d", v.Near, v.Line, c.Near, c.LineLo, c.LineHi)
		}
		return ""

	case "model": // parses to the model on the aspect
		r := parseD(d, x)
		if r.err != nil {
			return fmt.Sprintf("rejected: %v", r.err)
		}
		return diffTables(r.tables, c.Model, c.Aspect)

	case "sizemodel": // C23: small form conforms => large form conforms
		small := parseD(d, string(c.Texts[1]))
		if small.err != nil {
			return ""
		}
		r := parseD(d, x)
		if r.err != nil {
			return fmt.Sprintf("rejected: %v", clip(r.err.Error(), 300))
		}
		return clip(diffTables(r.tables, c.Model, c.Aspect), 600)

	case "sizeerr":
		small := parseD(d, string(c.Texts[1]))
		if sv, ok := asVE(small.err); !ok || sv.Near != c.Near || sv.Line != c.Count {
			return ""
		}
		r := parseD(d, x)
		v, ok := asVE(r.err)
		if !ok {
			return "accepted or untyped error"
		}
		if v.Near != c.Near || v.Line != c.LineLo {
			return fmt.Sprintf("reported near %q line %d, want near %q line %d", clip(v.Near, 80), v.Line, c.Near, c.LineLo)
		}
		return ""

	case "same": // all texts give the same tables as the first
		base := parseD(d, x)
		for i, t := range c.Texts[1:] {
			r := parseD(d, string(t))
			if base.err != nil {
				if r.err == nil {
					return fmt.Sprintf("variant %d is accepted, the base form is rejected: %v", i+1, base.err)
				}
				continue
			}
			if r.err != nil {
				return fmt.Sprintf("variant %d is rejected: %v", i+1, r.err)
			}
			if m := diffTables(r.tables, markExpr(base.tables, c.Model), aAll); m != "" {
				return fmt.Sprintf("variant %d: %s", i+1, m)
			}
		}
		return ""

	case "case": // C17: Texts[0] upper case, Texts[1:] other letter case; Subst lists reported keywords as written
		base := parseD(d, x)
		r := parseD(d, string(c.Texts[1]))
		if base.err != nil {
			if r.err == nil {
				return fmt.Sprintf("accepted, the upper-case form is rejected: %v", base.err)
			}
			return ""
		}
		if r.err != nil {
			return fmt.Sprintf("rejected: %v", r.err)
		}
		want := markExpr(base.tables, c.Model)
		// keywords that are reported keep the letter case they were written in
		for i := range want {
			for j := range want[i].Columns {
				k := &want[i].Columns[j].Constraint
				if i >= len(c.Model) || j >= len(c.Model[i].Columns) {
					continue
				}
				mk := c.Model[i].Columns[j].Constraint
				if s, ok := k.Default.(string); ok {
					if ms, ok := mk.Default.(string); ok && strings.HasPrefix(s, "CURRENT_") && strings.ToUpper(ms) == s {
						k.Default = ms
					}
				}
				if d == SQLITE && k.Collate != "" && strings.ToUpper(mk.Collate) == k.Collate {
					k.Collate = mk.Collate
				}
			}
		}
		return diffTables(r.tables, want, aAll)

	case "concat": // C18: Texts[0] = Texts[1] + Texts[2] + ...
		var want []ddlparse.Table
		want = []ddlparse.Table{}
		shift := 0
		for i, t := range c.Texts[1:] {
			r := parseD(d, string(t))
			if r.err != nil {
				v, ok := asVE(r.err)
				if !ok {
					return fmt.Sprintf("error is a %T", r.err)
				}
				if i != len(c.Texts)-2 {
					return "" // only the last part may be invalid for the law to apply
				}
				v.Line += shift
				whole := parseD(d, x)
				if whole.err == nil {
					return fmt.Sprintf("accepted, but the last part alone is rejected: %v", r.err)
				}
				if !reflect.DeepEqual(whole.err, error(v)) {
					return fmt.Sprintf("error %v, the last part alone gives %v with %d newlines before it", whole.err, r.err, shift)
				}
				return ""
			}
			want = append(want, r.tables...)
			shift += strings.Count(string(t), "\n")
		}
		whole := parseD(d, x)
		if whole.err != nil {
			return fmt.Sprintf("rejected: %v, but every part is accepted", whole.err)
		}
		if !reflect.DeepEqual(whole.tables, want) {
			return fmt.Sprintf("got %s, the parts give %s", js(whole.tables), js(want))
		}
		return ""

	case "finite": // numeric defaults are finite
		r := parseD(d, x)
		for _, t := range r.tables {
			for _, col := range t.Columns {
				if f, ok := col.Constraint.Default.(float64); ok && (math.IsInf(f, 0) || math.IsNaN(f)) {
					return fmt.Sprintf("column %q: the default is reported as %v", col.Name, f)
				}
			}
		}
		return ""

	case "json": // C20
		r := parseD(d, x)
		if r.err != nil {
			if c.Count < 0 { // the empty script
				return fmt.Sprintf("script without statements rejected: %v", r.err)
			}
			return ""
		}
		return checkJSON(r.tables)

	case "wrap": // C21
		for dd := SQLITE; dd <= MYSQL; dd++ {
			if m := sameResult(parseD(dd, x), wrapper(dd, x)); m != "" {
				return "Parse" + dd.String() + " and Parse: " + m
			}
		}
		return ""

	case "force": // C22
		got := parseName("", x)
		for dd := SQLITE; dd <= MYSQL; dd++ {
			r := parseD(dd, x)
			if r.err == nil {
				if got.err != nil {
					return fmt.Sprintf("ParseForce fails (%v), %s accepts", got.err, dd)
				}
				if m := sameResult(got, r); m != "" {
					return fmt.Sprintf("ParseForce and the first accepting dialect %s: %s", dd, m)
				}
				return ""
			}
		}
		if got.err == nil {
			return fmt.Sprintf("all dialects reject, ParseForce returns %s without error", js(got.tables))
		}
		if _, ok := asVE(got.err); !ok {
			return fmt.Sprintf("ParseForce error is a %T", got.err)
		}
		if got.tables == nil || len(got.tables) != 0 {
			return fmt.Sprintf("ParseForce error with tables %v", got.tables)
		}
		return ""

	case "history":
		return judgeHistory(c)

	case "fresh":
		return judgeFresh(c)

	case "subst": // C24: Texts[0] hostile, Texts[1] the same with harmless quoted text
		base := parseD(d, string(c.Texts[1]))
		r := parseD(d, x)
		if base.err != nil {
			if r.err == nil {
				return fmt.Sprintf("accepted, the form with harmless quoted text is rejected: %v", base.err)
			}
			return ""
		}
		if r.err != nil {
			return fmt.Sprintf("rejected: %v", r.err)
		}
		return diffTables(r.tables, substTables(d, markExpr(base.tables, c.Model), c.Subst), aAll)
	}
	return "unknown kind " + c.Kind
}

// substTables replaces the harmless quoted texts by the hostile ones.
func substTables(d Dialect, ts []ddlparse.Table, sub [][2]string) []ddlparse.Table {
	plain := map[string]string{}
	raw := map[string]string{}
	for _, p := range sub {
		raw[p[0]] = p[1]
		v := unquoteTok(p[1])
		if isStringTok(d, p[1]) {
			v = stringVal(d, p[1])
		}
		plain[unquoteTok(p[0])] = v
	}
	one := func(s string) string {
		if v, ok := plain[s]; ok {
			return v
		}
		if v, ok := raw[s]; ok {
			return v
		}
		return s
	}
	ex := func(s string) string {
		if s == "" {
			return s
		}
		toks := exprTokens(s, false)
		for i, t := range toks {
			if v, ok := raw[t]; ok {
				toks[i] = v
			}
		}
		return strings.Join(toks, " ")
	}
	l := func(xs []string) {
		for i := range xs {
			xs[i] = one(xs[i])
		}
	}
	for i := range ts {
		t := &ts[i]
		t.Schema, t.Name = one(t.Schema), one(t.Name)
		for j := range t.Columns {
			c := &t.Columns[j]
			c.Name = one(c.Name)
			k := &c.Constraint
			k.Name, k.Collate = one(k.Name), one(k.Collate)
			k.Check = ex(k.Check)
			switch v := k.Default.(type) {
			case exprString:
				k.Default = exprString(ex(string(v)))
			case string:
				k.Default = one(v)
			}
			k.References.TableName = one(k.References.TableName)
			l(k.References.ColumnNames)
		}
		c := &t.Constraints
		for j := range c.PrimaryKey {
			c.PrimaryKey[j].Name = one(c.PrimaryKey[j].Name)
			l(c.PrimaryKey[j].ColumnNames)
		}
		for j := range c.Unique {
			c.Unique[j].Name = one(c.Unique[j].Name)
			l(c.Unique[j].ColumnNames)
		}
		for j := range c.Check {
			c.Check[j].Name = one(c.Check[j].Name)
			c.Check[j].Expr = ex(c.Check[j].Expr)
		}
		for j := range c.ForeignKey {
			f := &c.ForeignKey[j]
			f.Name = one(f.Name)
			l(f.ColumnNames)
			f.References.TableName = one(f.References.TableName)
			l(f.References.ColumnNames)
		}
	}
	return ts
}

// scribble overwrites everything reachable from a returned result.
func scribble(ts []ddlparse.Table) {
	sl := func(xs []string) {
		xs = xs[:cap(xs)]
		for i := range xs {
			xs[i] = "SCRIBBLE"
		}
	}
	for i := range ts {
		t := &ts[i]
		for j := range t.Columns {
			sl(t.Columns[j].Constraint.References.ColumnNames)
			t.Columns[j] = ddlparse.Column{Name: "SCRIBBLE"}
		}
		for j := range t.Constraints.PrimaryKey {
			sl(t.Constraints.PrimaryKey[j].ColumnNames)
			t.Constraints.PrimaryKey[j].Name = "SCRIBBLE"
		}
		for j := range t.Constraints.Unique {
			sl(t.Constraints.Unique[j].ColumnNames)
			t.Constraints.Unique[j].Name = "SCRIBBLE"
		}
		for j := range t.Constraints.Check {
			t.Constraints.Check[j] = ddlparse.Check{Name: "SCRIBBLE"}
		}
		for j := range t.Constraints.ForeignKey {
			f := &t.Constraints.ForeignKey[j]
			sl(f.ColumnNames)
			sl(f.References.ColumnNames)
			f.Name = "SCRIBBLE"
		}
		t.Name, t.Schema = "SCRIBBLE", "SCRIBBLE"
	}
	ts = ts[:cap(ts)]
	for i := range ts {
		ts[i].Name = "SCRIBBLE"
	}
}

func judgeHistory(c *Case) string {
	type key struct {
		t int
		d string
	}
	first := map[key]result{}
	keep := func(r result) result { return result{cloneTables(r.tables), r.err} }
	check := func(step int, k key, r result) string {
		f, ok := first[k]
		if !ok {
			first[k] = keep(r)
			return ""
		}
		if m := sameResult(r, f); m != "" {
			return fmt.Sprintf("step %d (text %d, %q): differs from the first call with the same arguments: %s", step, k.t, k.d, m)
		}
		return ""
	}
	var held []result
	var heldK []key
	for step, o := range c.Ops {
		k := key{o.Text, o.Dialect}
		x := string(c.Texts[o.Text])
		if o.Par > 1 {
			rs := make([]result, o.Par)
			ksx := make([]key, o.Par)
			var wg sync.WaitGroup
			start := make(chan bool)
			var mu sync.Mutex
			var pan string
			for i := 0; i < o.Par; i++ {
				// every goroutine parses a different text of the case
				ksx[i] = key{(o.Text + i) % len(c.Texts), o.Dialect}
				if i%3 == 2 {
					ksx[i].d = dialectNames[(i+step)%3]
				}
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							mu.Lock()
							pan = fmt.Sprint(p)
							mu.Unlock()
						}
					}()
					<-start
					r := parseName(ksx[i].d, string(c.Texts[ksx[i].t]))
					r2 := parseName(ksx[i].d, string(c.Texts[ksx[i].t]))
					rs[i] = keep(r)
					if o.Mutate {
						scribble(r2.tables)
					}
				}(i)
			}
			close(start)
			wg.Wait()
			if pan != "" {
				return "panic in a concurrent call: " + pan
			}
			for i := range rs {
				if m := check(step, ksx[i], rs[i]); m != "" {
					return m
				}
			}
			continue
		}
		r := parseName(o.Dialect, x)
		if m := check(step, k, r); m != "" {
			return m
		}
		if o.Mutate {
			scribble(r.tables)
		} else {
			held = append(held, r)
			heldK = append(heldK, k)
		}
	}
	// results handed out earlier were not changed by later calls
	for i := range held {
		if m := sameResult(held[i], first[heldK[i]]); m != "" {
			return fmt.Sprintf("result of an earlier call (text %d, %q) changed afterwards: %s", heldK[i].t, heldK[i].d, m)
		}
	}
	return ""
}

var jsonKeys = map[string][]string{
	"table":       {"schema", "name", "if_not_exists", "columns", "constraints"},
	"column":      {"name", "data_type", "constraint"},
	"data_type":   {"name", "digit_n", "digit_m"},
	"constraint":  {"name", "is_primary_key", "is_unique", "is_not_null", "is_autoincrement", "default", "check", "collate", "references"},
	"references":  {"table_name", "column_names"},
	"constraints": {"primary_key", "unique", "check", "foreign_key"},
	"primary_key": {"name", "column_names"},
	"unique":      {"name", "column_names"},
	"checkc":      {"name", "expr"},
	"foreign_key": {"name", "column_names", "references"},
}

func checkJSON(ts []ddlparse.Table) string {
	b, err := json.Marshal(ts)
	if err != nil {
		return "cannot be encoded: " + err.Error()
	}
	if len(ts) == 0 && string(b) != "[]" {
		return "no tables are encoded as " + string(b)
	}
	var back []ddlparse.Table
	if err := json.Unmarshal(b, &back); err != nil {
		return "cannot be decoded: " + err.Error()
	}
	if !reflect.DeepEqual(back, ts) {
		return fmt.Sprintf("decoding gives %#v, encoded was %#v", back, ts)
	}
	var v []interface{}
	json.Unmarshal(b, &v)
	msg := ""
	obj := func(path, kind string, x interface{}) map[string]interface{} {
		m, ok := x.(map[string]interface{})
		if !ok {
			if msg == "" {
				msg = fmt.Sprintf("%s is not an object: %v", path, x)
			}
			return nil
		}
		if len(m) != len(jsonKeys[kind]) && msg == "" {
			msg = fmt.Sprintf("%s has keys %v, documented are %v", path, m, jsonKeys[kind])
		}
		for _, k := range jsonKeys[kind] {
			if _, ok := m[k]; !ok && msg == "" {
				msg = fmt.Sprintf("%s lacks the key %q", path, k)
			}
		}
		return m
	}
	each := func(x interface{}, f func(x interface{})) {
		if l, ok := x.([]interface{}); ok {
			for _, y := range l {
				f(y)
			}
		}
	}
	typ := func(path string, m map[string]interface{}, key string, want interface{}) {
		if m == nil || msg != "" {
			return
		}
		if !reflect.DeepEqual(m[key], want) {
			msg = fmt.Sprintf("%s.%s is encoded as %v, the value is %v", path, key, m[key], want)
		}
	}
	for i, x := range v {
		t := obj("table", "table", x)
		typ("table", t, "name", ts[i].Name)
		typ("table", t, "schema", ts[i].Schema)
		typ("table", t, "if_not_exists", ts[i].IfNotExists)
		j := 0
		each(t["columns"], func(x interface{}) {
			c := obj("column", "column", x)
			if c == nil {
				return
			}
			col := ts[i].Columns[j]
			j++
			typ("column", c, "name", col.Name)
			dt := obj("data_type", "data_type", c["data_type"])
			typ("data_type", dt, "name", col.DataType.Name)
			typ("data_type", dt, "digit_n", float64(col.DataType.DigitN))
			typ("data_type", dt, "digit_m", float64(col.DataType.DigitM))
			k := obj("constraint", "constraint", c["constraint"])
			if k != nil {
				kk := col.Constraint
				typ("constraint", k, "name", kk.Name)
				typ("constraint", k, "is_primary_key", kk.IsPrimaryKey)
				typ("constraint", k, "is_unique", kk.IsUnique)
				typ("constraint", k, "is_not_null", kk.IsNotNull)
				typ("constraint", k, "is_autoincrement", kk.IsAutoincrement)
				typ("constraint", k, "check", kk.Check)
				typ("constraint", k, "collate", kk.Collate)
				r := obj("references", "references", k["references"])
				typ("references", r, "table_name", kk.References.TableName)
			}
		})
		cs := obj("constraints", "constraints", t["constraints"])
		if cs == nil {
			continue
		}
		each(cs["primary_key"], func(x interface{}) { obj("primary_key", "primary_key", x) })
		each(cs["unique"], func(x interface{}) { obj("unique", "unique", x) })
		each(cs["check"], func(x interface{}) { obj("check", "checkc", x) })
		each(cs["foreign_key"], func(x interface{}) {
			if m := obj("foreign_key", "foreign_key", x); m != nil {
				obj("references", "references", m["references"])
			}
		})
	}
	return msg
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// judgeRecase compares two texts whose unquoted words differ in letter case only.
func judgeRecase(d Dialect, x, y string) string {
	a, b := parseD(d, x), parseD(d, y)
	if (a.err == nil) != (b.err == nil) {
		return fmt.Sprintf("the one is accepted, the other rejected: %v / %v", a.err, b.err)
	}
	if a.err != nil {
		va, ok1 := asVE(a.err)
		vb, ok2 := asVE(b.err)
		if !ok1 || !ok2 {
			return fmt.Sprintf("errors are not ValidateError: %T %T", a.err, b.err)
		}
		if va.Line != vb.Line || !strings.EqualFold(va.Near, vb.Near) {
			return fmt.Sprintf("rejected differently: %v / %v", a.err, b.err)
		}
		return ""
	}
	ja, jb := js(a.tables), js(b.tables)
	if !strings.EqualFold(ja, jb) {
		return "tables differ: " + ja + " / " + jb
	}
	return ""
}

// recase changes the letter case of ASCII letters of unquoted words.
func recase(ts []*Tok, mode int, rng uint64) []*Tok {
	out := make([]*Tok, len(ts))
	for i, t := range ts {
		c := *t
		out[i] = &c
		if t.K == QT || t.S == "" || strings.ContainsRune("'\"`$", rune(t.S[0])) {
			continue
		}
		m := mode
		if mode == 4 {
			m = int(splitmix(&rng)>>33) % 4
		}
		bs := []byte(t.S)
		for k := range bs {
			up := bs[k] >= 'A' && bs[k] <= 'Z'
			if !up && !(bs[k] >= 'a' && bs[k] <= 'z') {
				continue
			}
			want := up
			switch m {
			case 0:
				want = true
			case 1:
				want = false
			case 2:
				want = k == 0
			default:
				want = splitmix(&rng)>>63 == 0
			}
			if want != up {
				bs[k] ^= 32
			}
		}
		c.S = string(bs)
	}
	return out
}
