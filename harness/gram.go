package main

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Reference recogniser. The supported grammar of each dialect as combinators
// that compute *all* end positions, so that the furthest position reached is
// the first token that cannot continue any supported statement.
//
// max=false: the syntax that must be accepted. max=true: everything that may
// be accepted (known leniencies and points the documentation leaves open);
// what is outside max must be rejected. Between the two nothing is asserted.

type Rec struct {
	d    Dialect
	max  bool
	toks []string
	far  int
}

type P func(r *Rec, i int) []int

func term(pred func(r *Rec, s string) bool) P {
	return func(r *Rec, i int) []int {
		if i > r.far {
			r.far = i
		}
		if i < len(r.toks) && pred(r, r.toks[i]) {
			return []int{i + 1}
		}
		return nil
	}
}

func isKw(s, w string) bool { return len(s) == len(w) && strings.EqualFold(s, w) }

func k(words ...string) P {
	return term(func(r *Rec, s string) bool {
		for _, w := range words {
			if isKw(s, w) {
				return true
			}
		}
		return false
	})
}

// ks is a sequence of keywords.
func ks(phrase string) P {
	var ps []P
	for _, w := range strings.Fields(phrase) {
		ps = append(ps, k(w))
	}
	return seq(ps...)
}

func dedup(xs []int) []int {
	if len(xs) < 2 {
		return xs
	}
	sort.Ints(xs)
	out := xs[:1]
	for _, x := range xs[1:] {
		if x != out[len(out)-1] {
			out = append(out, x)
		}
	}
	return out
}

func seq(ps ...P) P {
	return func(r *Rec, i int) []int {
		cur := []int{i}
		for _, p := range ps {
			var nx []int
			for _, j := range cur {
				nx = append(nx, p(r, j)...)
			}
			cur = dedup(nx)
			if len(cur) == 0 {
				return nil
			}
		}
		return cur
	}
}

func alt(ps ...P) P {
	return func(r *Rec, i int) []int {
		var out []int
		for _, p := range ps {
			out = append(out, p(r, i)...)
		}
		return dedup(out)
	}
}

func opt(p P) P {
	return func(r *Rec, i int) []int { return dedup(append([]int{i}, p(r, i)...)) }
}

func star(p P) P {
	return func(r *Rec, i int) []int {
		seen := map[int]bool{i: true}
		out := []int{i}
		for q := 0; q < len(out); q++ {
			for _, j := range p(r, out[q]) {
				if !seen[j] {
					seen[j] = true
					out = append(out, j)
				}
			}
		}
		return dedup(out)
	}
}

func list(p P) P { return seq(p, star(seq(k(","), p))) }

// onlyMax is p in the max grammar and nothing in the min grammar.
func onlyMax(p P) P {
	return func(r *Rec, i int) []int {
		if !r.max {
			return nil
		}
		return p(r, i)
	}
}

// choose uses mn in the min grammar and mx in the max grammar.
func choose(mn, mx P) P {
	return func(r *Rec, i int) []int {
		if r.max {
			return mx(r, i)
		}
		return mn(r, i)
	}
}

// set is any order of the members without repetition (optionally separated).
func set(ps ...P) P {
	return func(r *Rec, i int) []int {
		type st struct{ i, m int }
		seen := map[st]bool{{i, 0}: true}
		work := []st{{i, 0}}
		var out []int
		for q := 0; q < len(work); q++ {
			s := work[q]
			out = append(out, s.i)
			for b, p := range ps {
				if s.m&(1<<b) != 0 {
					continue
				}
				for _, j := range p(r, s.i) {
					n := st{j, s.m | 1<<b}
					if !seen[n] {
						seen[n] = true
						work = append(work, n)
					}
				}
			}
		}
		return dedup(out)
	}
}

var numRe = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
var hexRe = regexp.MustCompile(`^[+-]?0[xX][0-9a-fA-F_.]+[pP][+-]?[0-9_]+$`)
var underRe = regexp.MustCompile(`^[+-]?[0-9][0-9_]*(\.[0-9_]*)?([eE][+-]?[0-9][0-9_]*)?$`)
var posRe = regexp.MustCompile(`^[1-9][0-9]{0,17}$`)
var intRe = regexp.MustCompile(`^\+?0*[1-9][0-9]*$`)

var (
	gName = term(func(r *Rec, s string) bool { return isNameTok(r.d, s) })
	gStr  = term(func(r *Rec, s string) bool { return isStringTok(r.d, s) })
	gNum  = term(func(r *Rec, s string) bool {
		if numRe.MatchString(s) {
			f, err := strconv.ParseFloat(s, 64)
			return r.max || err == nil && f-f == 0
		}
		return r.max && (hexRe.MatchString(s) || underRe.MatchString(s))
	})
	gPos = term(func(r *Rec, s string) bool {
		if r.max {
			return intRe.MatchString(s)
		}
		return posRe.MatchString(s)
	})
	gLit     = alt(gNum, gStr, k("NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"))
	gTimeKw  = k("CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP")
	gTable   = seq(gName, opt(seq(k("."), gName)))
	gCols    = seq(k("("), list(gName), k(")"))
	gCol1    = seq(k("("), gName, k(")"))
	gEq      = opt(k("="))
	gDigitN  = opt(seq(k("("), gPos, k(")")))
	gDigitPS = opt(seq(k("("), gPos, opt(seq(k(","), gPos)), k(")")))
)

// gBrackets is any balanced text in parentheses. In min a ";" may not occur
// inside, and the text may not be empty.
var gBrackets P = func(r *Rec, i int) []int {
	if i > r.far {
		r.far = i
	}
	if i >= len(r.toks) || r.toks[i] != "(" {
		return nil
	}
	depth := 0
	for j := i; ; j++ {
		if j > r.far {
			r.far = j
		}
		if j >= len(r.toks) {
			return nil
		}
		switch r.toks[j] {
		case "(":
			depth++
		case ")":
			depth--
			if depth == 0 {
				if !r.max && j == i+1 {
					return nil
				}
				return []int{j + 1}
			}
		case ";":
			if !r.max {
				return nil
			}
		}
	}
}

var gActions = func() P {
	on := func(ev string) P {
		return seq(ks("ON"), k(ev), alt(ks("SET NULL"), ks("SET DEFAULT"), k("CASCADE"), k("RESTRICT"), ks("NO ACTION")))
	}
	ons := alt(seq(opt(on("DELETE")), opt(on("UPDATE"))), seq(on("UPDATE"), opt(on("DELETE"))))
	match := seq(k("MATCH"), func(r *Rec, i int) []int {
		if r.d == SQLITE {
			return alt(k("SIMPLE", "PARTIAL", "FULL"), gName)(r, i)
		}
		return k("SIMPLE", "PARTIAL", "FULL")(r, i)
	})
	def := seq(opt(k("NOT")), k("DEFERRABLE"), opt(seq(k("INITIALLY"), k("DEFERRED", "IMMEDIATE"))))
	maxLite := star(alt(on("DELETE"), on("UPDATE"), match, def))
	maxAll := star(alt(on("DELETE"), on("UPDATE"), match))
	return func(r *Rec, i int) []int {
		switch {
		case r.max && r.d == SQLITE:
			return maxLite(r, i)
		case r.max:
			return maxAll(r, i)
		case r.d == SQLITE:
			return seq(ons, opt(match), opt(def))(r, i)
		}
		return seq(opt(match), ons)(r, i)
	}
}()

var gConflict = opt(seq(ks("ON CONFLICT"), k("ROLLBACK", "ABORT", "FAIL", "IGNORE", "REPLACE")))

var gIdxParams = seq(opt(seq(k("INCLUDE"), gCols)), opt(seq(k("WITH"), gBrackets)), opt(seq(ks("USING INDEX TABLESPACE"), gName)))

// MySQL index pieces
var (
	gIndexType = seq(k("USING"), k("BTREE", "HASH"))
	gIndexOpt1 = []P{
		seq(k("KEY_BLOCK_SIZE"), gEq, choose(gNum, gLit)),
		gIndexType,
		seq(ks("WITH PARSER"), gName),
		seq(k("COMMENT"), gStr),
		k("VISIBLE", "INVISIBLE"),
		seq(k("ENGINE_ATTRIBUTE"), gEq, gStr),
		seq(k("SECONDARY_ENGINE_ATTRIBUTE"), gEq, gStr),
	}
	gIndexOpts = choose(set(gIndexOpt1...), star(alt(gIndexOpt1...)))
	gKeyPart   = seq(alt(gBrackets, seq(gName, gDigitN)), opt(k("ASC", "DESC")))
	gKeyParts  = seq(k("("), list(gKeyPart), k(")"))
)

// named wraps a column constraint with its optional name.
func named(ps []P) []P {
	out := make([]P, len(ps))
	for i, p := range ps {
		out[i] = seq(opt(seq(k("CONSTRAINT"), gName)), p)
	}
	return out
}

var gConsSQLite = func() P {
	refs := seq(k("REFERENCES"), gTable, opt(gCol1), gActions)
	gen := seq(k("AS"), gBrackets, opt(k("STORED", "VIRTUAL")))
	base := []P{
		seq(ks("PRIMARY KEY"), opt(k("ASC", "DESC")), gConflict, opt(k("AUTOINCREMENT"))),
		seq(k("UNIQUE"), gConflict),
		seq(ks("NOT NULL"), gConflict),
		seq(k("CHECK"), gBrackets),
		seq(k("DEFAULT"), alt(gLit, gBrackets)),
		seq(k("COLLATE"), k("BINARY", "NOCASE", "RTRIM")),
		refs,
	}
	mn := set(named(append(append([]P{}, base...), seq(opt(ks("GENERATED ALWAYS")), gen)))...)
	mx := seq(set(named(append(append([]P{}, base...), seq(ks("GENERATED ALWAYS"), gen), gen))...), opt(seq(k("CONSTRAINT"), gName)))
	return choose(mn, mx)
}()

var gConsPG = func() P {
	base := []P{
		seq(ks("PRIMARY KEY"), gIdxParams),
		seq(k("UNIQUE"), gIdxParams),
		alt(ks("NOT NULL"), k("NULL")),
		seq(k("CHECK"), gBrackets, opt(ks("NO INHERIT"))),
		seq(k("DEFAULT"), alt(gLit, gBrackets)),
		seq(k("REFERENCES"), gTable, opt(gCol1), gActions),
	}
	id := opt(gBrackets)
	gen := alt(
		seq(ks("GENERATED ALWAYS AS"), gBrackets, k("STORED")),
		seq(k("GENERATED"), alt(k("ALWAYS"), ks("BY DEFAULT")), ks("AS IDENTITY"), id),
	)
	mn := set(named(append(append([]P{}, base...), gen))...)
	mx := seq(set(named(append(append([]P{}, base...), alt(gen, seq(ks("GENERATED AS IDENTITY"), id)), seq(k("AS"), gBrackets, opt(k("STORED", "VIRTUAL")))))...), opt(seq(k("CONSTRAINT"), gName)))
	return choose(mn, mx)
}()

var gConsMySQL = func() P {
	check := func(pre P) P { return seq(pre, k("CHECK"), gBrackets, opt(seq(opt(k("NOT")), k("ENFORCED")))) }
	base := []P{
		seq(opt(k("PRIMARY")), k("KEY")),
		seq(k("UNIQUE"), opt(k("KEY"))),
		k("AUTO_INCREMENT"),
		alt(ks("NOT NULL"), k("NULL")),
		seq(k("DEFAULT"), alt(
			seq(choose(gTimeKw, gLit), opt(seq(ks("ON UPDATE"), gTimeKw))),
			gLit, gBrackets)),
		seq(k("COMMENT"), gStr),
		seq(k("COLLATE"), gName),
		seq(k("COLUMN_FORMAT"), k("FIXED", "DYNAMIC", "DEFAULT")),
		seq(k("ENGINE_ATTRIBUTE"), gEq, gStr),
		seq(k("SECONDARY_ENGINE_ATTRIBUTE"), gEq, gStr),
		seq(k("STORAGE"), k("DISK", "MEMORY")),
		seq(opt(ks("GENERATED ALWAYS")), k("AS"), gBrackets),
		seq(k("REFERENCES"), gTable, choose(gCol1, opt(gCol1)), gActions),
	}
	mn := set(append(append([]P{}, base...), k("VISIBLE", "INVISIBLE"), k("VIRTUAL", "STORED"),
		check(opt(seq(k("CONSTRAINT"), opt(gName)))))...)
	mx := seq(set(append(named(append(append([]P{}, base...), k("VISIBLE"), k("INVISIBLE"), k("VIRTUAL"), k("STORED"))),
		check(opt(seq(k("CONSTRAINT"), opt(gName)))))...), opt(seq(k("CONSTRAINT"), gName)))
	return choose(mn, mx)
}()

var gTypes = func() [3]P {
	pgw := append([]string{}, pgTypes...)
	myw := append([]string{}, myTypes...)
	tz := opt(seq(k("WITH", "WITHOUT"), ks("TIME ZONE")))
	pg := alt(
		k(pgw...),
		seq(k(pgTypesN...), gDigitN),
		seq(k(pgTypesV...), k("VARYING"), gDigitN),
		seq(k(pgTypesPS...), gDigitPS),
		seq(k(pgTypesT...), gDigitN, tz),
		ks("DOUBLE PRECISION"),
	)
	my := alt(
		k(myw...),
		seq(k(myTypesN...), gDigitN),
		seq(k(myTypesPS...), gDigitPS),
		onlyMax(seq(k("TIME", "DATETIME", "TIMESTAMP", "YEAR"), gDigitN, tz)),
	)
	return [3]P{k(sqliteTypes...), pg, my}
}()

var gTCon = func() [3]P {
	cname := opt(seq(k("CONSTRAINT"), gName))
	lite := seq(cname, alt(
		seq(ks("PRIMARY KEY"), gCols, gConflict),
		seq(k("UNIQUE"), gCols, gConflict),
		seq(k("CHECK"), gBrackets),
		seq(ks("FOREIGN KEY"), gCols, k("REFERENCES"), gTable, opt(gCols), gActions),
	))
	pg := seq(cname, alt(
		seq(ks("PRIMARY KEY"), gCols, gIdxParams),
		seq(k("UNIQUE"), gCols, gIdxParams),
		seq(k("CHECK"), gBrackets, opt(ks("NO INHERIT"))),
		seq(k("EXCLUDE"), opt(seq(k("USING"), gName)), gBrackets, gIdxParams, opt(seq(k("WHERE"), gBrackets))),
		seq(ks("FOREIGN KEY"), gCols, k("REFERENCES"), gTable, opt(gCols), gActions),
	))
	mname := opt(seq(k("CONSTRAINT"), opt(gName)))
	idx := alt(
		seq(k("INDEX", "KEY"), opt(gName), opt(gIndexType), gKeyParts, gIndexOpts),
		seq(k("FULLTEXT", "SPATIAL"), opt(k("INDEX", "KEY")), opt(gName), gKeyParts, gIndexOpts),
	)
	my := alt(
		seq(mname, alt(
			seq(ks("PRIMARY KEY"), opt(gIndexType), gKeyParts, gIndexOpts),
			seq(k("UNIQUE"), opt(k("INDEX", "KEY")), opt(gName), opt(gIndexType), gKeyParts, gIndexOpts),
			seq(k("CHECK"), gBrackets, alt(opt(seq(opt(k("NOT")), k("ENFORCED"))), onlyMax(ks("NO INHERIT")))),
			seq(ks("FOREIGN KEY"), opt(gName), gCols, k("REFERENCES"), gTable, gKeyParts, gActions),
		)),
		idx,
		onlyMax(seq(k("CONSTRAINT"), gName, idx)),
	)
	return [3]P{lite, pg, my}
}()

var gOpts = func() [3]P {
	wr := ks("WITHOUT ROWID")
	st := k("STRICT")
	lite := alt(
		opt(alt(wr, st, seq(wr, k(","), st), seq(st, k(","), wr))),
		onlyMax(alt(seq(wr, st), seq(st, wr))),
	)
	pgo := []P{
		seq(k("WITH"), gBrackets), ks("WITHOUT OIDS"), seq(k("TABLESPACE"), gName), seq(k("INHERITS"), gBrackets),
		seq(ks("PARTITION BY"), k("RANGE", "LIST", "HASH"), gBrackets), seq(k("USING"), gName),
	}
	pg := choose(set(pgo...), star(seq(opt(k(",")), alt(pgo...))))
	val := choose(gNum, gLit)
	var myo []P
	for _, w := range []string{"AUTOEXTEND_SIZE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES"} {
		myo = append(myo, seq(k(w), gEq, val))
	}
	for _, w := range []string{"COMMENT", "ENGINE_ATTRIBUTE", "PASSWORD", "SECONDARY_ENGINE_ATTRIBUTE", "CONNECTION", "COMPRESSION", "ENCRYPTION"} {
		myo = append(myo, seq(k(w), gEq, gStr))
	}
	myo = append(myo,
		seq(opt(k("DEFAULT")), ks("CHARACTER SET"), gEq, gName),
		seq(opt(k("DEFAULT")), k("COLLATE"), gEq, gName),
		seq(k("ENGINE"), gEq, gName),
		seq(k("CHECKSUM", "DELAY_KEY_WRITE"), gEq, k("0", "1")),
		seq(k("PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"), gEq, k("0", "1", "DEFAULT")),
		seq(k("DATA", "INDEX"), k("DIRECTORY"), gEq, choose(gStr, gLit)),
		seq(k("TABLESPACE"), gName, opt(seq(k("STORAGE"), k("DISK", "MEMORY")))),
		seq(k("UNION"), gEq, k("("), list(gTable), k(")")),
		seq(k("INSERT_METHOD"), gEq, k("NO", "FIRST", "LAST")),
		seq(k("ROW_FORMAT"), gEq, k("DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT")),
	)
	o := alt(myo...)
	my := choose(opt(seq(o, star(seq(opt(k(",")), o)))), star(seq(opt(k(",")), o)))
	return [3]P{lite, pg, my}
}()

// the remainder of another CREATE statement up to its ";"
var gOtherBody P = func(r *Rec, i int) []int {
	if r.max {
		// may end at any ";"
		var out []int
		for j := i; j < len(r.toks); j++ {
			if r.toks[j] == ";" {
				out = append(out, j+1)
			}
		}
		if r.far < len(r.toks) {
			r.far = len(r.toks)
		}
		return out
	}
	depth := 0
	for j := i; j < len(r.toks); j++ {
		t := r.toks[j]
		switch {
		case t == "." && j+1 < len(r.toks) && r.toks[j+1] != ";" && r.toks[j+1] != ".":
			j++ // a qualified name
		case isKw(t, "BEGIN") || isKw(t, "CASE"):
			depth++
		case isKw(t, "END"):
			if j+1 < len(r.toks) && (isKw(r.toks[j+1], "IF") || isKw(r.toks[j+1], "LOOP") || isKw(r.toks[j+1], "WHILE") || isKw(r.toks[j+1], "REPEAT")) {
				j++
				continue
			}
			if depth == 0 {
				return nil // unclear
			}
			depth--
			if j+1 < len(r.toks) && isKw(r.toks[j+1], "CASE") {
				j++
			}
		case t == ";" && depth == 0:
			if r.far < j {
				r.far = j
			}
			return []int{j + 1}
		}
	}
	if r.far < len(r.toks) {
		r.far = len(r.toks)
	}
	return nil
}

var gOtherHeads = [3]P{
	k("VIRTUAL", "VIEW", "TRIGGER", "INDEX", "UNIQUE"),
	k("VIEW", "TRIGGER", "INDEX", "MATERIALIZED", "SEQUENCE", "FUNCTION", "TYPE", "PROCEDURE", "AGGREGATE", "SCHEMA", "ROLE", "USER", "GROUP",
		"TABLESPACE", "EXTENSION", "DATABASE", "LANGUAGE", "FOREIGN", "DOMAIN", "SERVER", "CONVERSION", "RULE", "COLLATION", "POLICY", "OPERATOR", "UNIQUE"),
	k("VIEW", "TRIGGER", "INDEX", "DATABASE", "UNIQUE", "PROCEDURE", "SERVER", "FUNCTION", "USER", "EVENT", "SEQUENCE", "TABLESPACE", "ROLE", "LOGIN"),
}

var gScript = func() [3]P {
	var out [3]P
	cons := [3]P{gConsSQLite, gConsPG, gConsMySQL}
	for d := SQLITE; d <= MYSQL; d++ {
		col := seq(gName, gTypes[d], cons[d])
		item := alt(col, gTCon[d])
		semi := k(";")
		if d == SQLITE {
			end := func(r *Rec, i int) []int {
				if i == len(r.toks) {
					return []int{i}
				}
				return nil
			}
			semi = alt(semi, end)
		}
		// IF always starts IF NOT EXISTS
		tname := func(r *Rec, i int) []int {
			if !r.max && i < len(r.toks) && isKw(r.toks[i], "IF") {
				if i > r.far {
					r.far = i
				}
				return nil
			}
			return gTable(r, i)
		}
		tbl := seq(k("TABLE"), opt(ks("IF NOT EXISTS")), tname, k("("), list(item), k(")"), gOpts[d], semi)
		oth := seq(gOtherHeads[d], gOtherBody)
		st := seq(k("CREATE"), alt(tbl, oth))
		if d == SQLITE {
			st = seq(k("CREATE"), opt(k("TEMP", "TEMPORARY")), alt(tbl, oth))
		}
		out[d] = star(st)
	}
	return out
}()

// recognise returns ok, or the index of the first offending token
// (len(toks) when the input ends too early).
func recognise(d Dialect, toks []string, max bool) (bool, int) {
	if d == PG {
		for i, t := range toks {
			if strings.HasPrefix(t, "`") {
				return false, i
			}
		}
	}
	r := &Rec{d: d, max: max, toks: toks, far: 0}
	for _, j := range gScript[d](r, 0) {
		if j == len(toks) {
			return true, 0
		}
	}
	return false, r.far
}

func spell(ts []*Tok) []string {
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = t.S
	}
	return out
}
