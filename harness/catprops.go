package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/kodaimura/ddlparse"
)

// Enumerations over the catalogue, per property. mk builds a case only when
// the shard that owns it asks for it; it may return nil (nothing to assert).

type mkCase func() *Case

func eachDialect(f func(d Dialect) bool) {
	for d := SQLITE; d <= MYSQL; d++ {
		if !f(d) {
			return
		}
	}
}

func catAll(d Dialect, y func(lazy) bool) bool {
	return catSingles(d, y) && catPairs(d, y) && catTyped(d, y)
}

// catModel: every catalogue script gives its model.
func catModel(asp int) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		eachDialect(func(d Dialect) bool {
			return catAll(d, func(mk lazy) bool {
				return yield(func() *Case {
					sc := mk()
					return &Case{Kind: "model", Dialect: d.String(), Texts: []Text{Text(plain(d, sc.Toks(nil)))}, Model: sc.Tables(), Aspect: asp, Labels: label(d, "catalogue")}
				})
			})
		})
	}
}

// catTypePairs: columns of every two types, next to each other or apart (C08).
func catTypePairs(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		n := len(catTypes(d))
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if !yield(func() *Case {
					ty := catTypes(d)
					ty2 := catTypes(d)
					items := []*Item{{Col: ty[i]}}
					for k := 0; k < (i+3*j)%8; k++ {
						items = append(items, &Item{Col: plainCol(d, "f"+itoa(k))})
					}
					items = append(items, &Item{Col: ty2[j]})
					sc := tableOf(d, &catB{}, nil, false, items...)
					return &Case{Kind: "model", Dialect: d.String(), Texts: []Text{Text(plain(d, sc.Toks(nil)))}, Model: sc.Tables(), Aspect: aTypes, Labels: label(d, "type pairs")}
				}) {
					return false
				}
			}
		}
		return true
	})
}

var longLens = []int{62, 128, 256, 300, 1030, 4100}

// catLongNames: every name of every single-clause script made long.
func catLongNames(asp int) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		eachDialect(func(d Dialect) bool {
			return catSingles(d, func(mk lazy) bool {
				for _, n := range longLens {
					for _, quoted := range []bool{false, true} {
						if !yield(func() *Case {
							sc := mk()
							for _, t := range nameSlots(sc.Toks(nil)) {
								t.S += strings.Repeat("Ab_9", (n+3)/4)[:n]
								if quoted {
									t.K, t.S = QT, quote(identQuotes(d)[0], t.S)
								}
							}
							ts := sc.Toks(nil)
							if good, _ := recognise(d, spell(ts), false); !good {
								return nil
							}
							return &Case{Kind: "model", Dialect: d.String(), Texts: []Text{Text(plain(d, ts))}, Model: sc.Tables(), Aspect: asp, Labels: label(d, "long names")}
						}) {
							return false
						}
					}
				}
				return true
			})
		})
	}
}

// catLongDefaults: string defaults of every length up to 300 and some above,
// and numbers of many digits (C10).
func catLongDefaults(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		put := func(lit string, v interface{}) bool {
			return yield(func() *Case {
				bt := baseType[d]
				m := []ddlparse.Table{{Name: "t1", Columns: []ddlparse.Column{
					{Name: "x1", DataType: ddlparse.DataType{Name: bt}, Constraint: ddlparse.Constraint{Default: v, IsNotNull: true}},
					{Name: "x2", DataType: ddlparse.DataType{Name: bt}}}}}
				return &Case{Kind: "model", Dialect: d.String(), Texts: []Text{Text("CREATE TABLE t1 (x1 " + bt + " DEFAULT " + lit + " NOT NULL, x2 " + bt + ");")}, Model: m, Aspect: aLits | aFlags, Labels: label(d, "long literals")}
			})
		}
		for _, q := range stringQuotes(d) {
			for i := 0; i < 340; i++ {
				n := i
				if i > 300 {
					n = []int{400, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 9999, 10000, 16384, 32767, 32768, 65535, 65536}[(i-300)%21]
				}
				for _, unit := range []string{"a", "日", "b ", "\n", "''"} {
					if n > 5000 && unit != "a" || unit[0] == byte(q) {
						continue
					}
					x := strings.Repeat(unit, n)
					if !put(string(q)+x+string(q), x) {
						return false
					}
				}
			}
		}
		if d == MYSQL { // a backslash before every character
			esc := map[rune]string{'0': "\x00", 'b': "\b", 'n': "\n", 'r': "\r", 't': "\t", 'Z': "\x1a", '%': "\\%", '_': "\\_"}
			for r := rune(0); r < 128+4; r++ {
				x := r
				if r >= 128 {
					x = []rune{'é', '　', '日', '\U0001F600'}[r-128]
				}
				v, ok := esc[x]
				if !ok {
					v = string(x)
				}
				for _, q := range []string{"'", "\""} {
					for _, around := range [][2]string{{"", ""}, {"a", "b"}, {"\\\\", ""}, {"", "\\\\"}, {q + q, q + q}, {"\\" + string(x), ""}} {
						den := strings.NewReplacer("\\\\", "\\", q+q, q, "\\"+string(x), v)
						if !put(q+around[0]+"\\"+string(x)+around[1]+q, den.Replace(around[0])+v+den.Replace(around[1])) {
							return false
						}
					}
				}
			}
		}
		for n := 1; n <= 320; n++ {
			for _, x := range []string{strings.Repeat("7", n), "-" + strings.Repeat("9", n), "0." + strings.Repeat("0", n) + "1", "1." + strings.Repeat("3", n), "1" + strings.Repeat("0", n) + "e-" + itoa(n), "5e" + itoa(n), "5E-" + itoa(n), "-0." + strings.Repeat("1", n) + "e+5"} {
				f, err := strconv.ParseFloat(x, 64)
				if err != nil {
					continue
				}
				if !put(x, f) {
					return false
				}
			}
		}
		return true
	})
}

// catFinite: a number that no float64 holds is never reported as one (C10, C20).
func catFinite(kind string) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		eachDialect(func(d Dialect) bool {
			for _, x := range []string{"1e309", "1e999", "-1e999", "+1e400", "1E+1000", "1e99999999999", "1e999999999999999999999", "-1e99999999999999", "0.1e5000", ".5e9999", strings.Repeat("9", 310), strings.Repeat("9", 400) + ".5", "-" + strings.Repeat("1", 5000),
				"inf", "Inf", "-inf", "+Inf", "INFINITY", "-Infinity", "nan", "NaN", "NAN", "+nan", "0x1p5000", "0x1p-5", "1_0e999", "1e-999999", "infinity", "1e+309", "179769313486231570000e300"} {
				for _, place := range []string{"DEFAULT %s", "DEFAULT %s NOT NULL", "NOT NULL DEFAULT %s"} {
					if !yield(func() *Case {
						return &Case{Kind: kind, Dialect: d.String(), Texts: []Text{Text("CREATE TABLE t1 (x1 " + baseType[d] + " " + strings.Replace(place, "%s", x, 1) + ", x2 " + baseType[d] + ");")}, Labels: label(d, "numbers out of range")}
					}) {
						return false
					}
				}
			}
			return true
		})
	}
}

// neighbourhood words: what a token is replaced by, or preceded by
var nearWords = strings.Fields("( ) , ; . = 1 'a' \"b\" `b` q1 * NULL NOT KEY DEFAULT CHECK UNIQUE ON CREATE AS SELECT")

// neighbours yields the token lists one edit away from ts.
func neighbours(ts []*Tok, words []string, yield func(mk func() []*Tok) bool) bool {
	n := len(ts)
	for i := 0; i <= n; i++ {
		if i < n {
			ops := []func() []*Tok{
				func() []*Tok { return append(append([]*Tok{}, ts[:i]...), ts[i+1:]...) },
				func() []*Tok { return insertAt(ts, i, ts[i]) },
				func() []*Tok { return append([]*Tok{}, ts[:i]...) },
				func() []*Tok {
					o := append([]*Tok{}, ts...)
					if i > 0 {
						o[i], o[i-1] = o[i-1], o[i]
					}
					return o
				},
			}
			for _, o := range ops {
				if !yield(o) {
					return false
				}
			}
		}
		for _, w := range words {
			if !yield(func() []*Tok { return insertAt(ts, i, spellTok(w)) }) {
				return false
			}
			if i < n && !yield(func() []*Tok { o := append([]*Tok{}, ts...); o[i] = spellTok(w); return o }) {
				return false
			}
		}
	}
	return true
}

func eachNeighbour(yield func(d Dialect, mk func() []*Tok) bool) {
	words := nearWords
	if os.Getenv("VERIF_TIER") == "thorough" {
		words = append(append([]string{}, words...), grammarWords...)
	}
	eachDialect(func(d Dialect) bool {
		return catSingles(d, func(mk lazy) bool {
			ts := mk().Toks(nil)
			return neighbours(ts, words, func(m func() []*Tok) bool { return yield(d, m) })
		})
	})
}

// onLines writes one token per line.
func onLines(ts []*Tok) Text { return Text(strings.Join(spell(ts), "\n")) }

func hasBacktick(ts []*Tok) bool {
	for _, t := range ts {
		if t.S[0] == '`' {
			return true
		}
	}
	return false
}

var catTails = []string{", x1 TEXT);", ");", "NULL);", "KEY", "(1) );", "; CREATE TABLE t9 (y1 INTEGER);", "'a'", "BOGUS", "= 1", ") , ( ;", ""}

// genTail is lexically complete text.
func genTail(s *Src, d Dialect) Text {
	if s.P(40) {
		return Text(s.Pick(catTails))
	}
	sc := genScript(s, d, smallProf())
	ts := sc.Toks(nil)
	if s.P(50) {
		ts = ts[s.N(len(ts)):]
	}
	x, _ := renderEdited(s, d, ts)
	return Text(x)
}

// eachJunction: two clauses of one level with every kind of separator between,
// before and after them.
func eachJunction(yield func(d Dialect, mk func() []*Tok) bool) {
	plainText := func(x string) string { return strings.TrimPrefix(x, "!") }
	eachDialect(func(d Dialect) bool {
		put := func(texts ...string) bool {
			return yield(d, func() []*Tok {
				var ts []*Tok
				for _, x := range texts {
					if x != "" {
						ts = append(ts, (&catB{}).toks(x)...)
					}
				}
				return ts
			})
		}
		col := "x1 " + baseType[d]
		for _, ta := range catOpts[d] {
			for _, tb := range catOpts[d] {
				for _, sep := range []string{"", ",", ", ,", ", , ,", ";", "(", "=", ")"} {
					if !put("CREATE TABLE t1 (", col, ")", ta, sep, tb, ";") {
						return false
					}
				}
			}
			for _, x := range []string{",", ", ,", "=", "( )", "CONSTRAINT k1"} {
				if !put("CREATE TABLE t1 (", col, ")", x, ta, ";") || !put("CREATE TABLE t1 (", col, ")", ta, x, ";") {
					return false
				}
			}
		}
		for _, ta := range catCons[d] {
			for _, tb := range catCons[d] {
				for _, sep := range []string{"", ",", "CONSTRAINT", "CONSTRAINT k1", "CONSTRAINT k1 CONSTRAINT k2", "CONSTRAINT k1 k2", "(", ")", "NOT", "NULL"} {
					if !put("CREATE TABLE t1 (", col, plainText(ta), sep, plainText(tb), ") ;") {
						return false
					}
				}
			}
		}
		for _, ta := range catTCons[d] {
			for _, tb := range catTCons[d] {
				for _, sep := range []string{"", ", ,", ";", ") ,", ", CONSTRAINT , ", ", CONSTRAINT", ", CONSTRAINT k1", ", k1", ", NOT NULL"} {
					if !put("CREATE TABLE t1 (", col, ",", plainText(ta), sep, plainText(tb), ") ;") {
						return false
					}
				}
			}
		}
		return true
	})
}

// eachNumber: every number of the catalogue replaced by what is no number or
// another kind of number.
func eachNumber(yield func(d Dialect, mk func() []*Tok) bool) {
	bad := strings.Fields("0 -0 +0 00 -1 -12 +1 01 1. .1 1.0 1.5 1e1 1E+2 0x0 0x1 0X1F 0b1 0o7 0x1p2 1_0 1_000 _1 1_ 1e 1e+ 1e_1 1ee1 1.2.3 1..2 ..1 . -.5 +-1 --1 ++1 1- 1+ 1a a1 1k 1K 1M 12 ١ ２ 1١ 1２ ½ inf -inf nan NaN Infinity '1' \"1\" `1` 9223372036854775807 9223372036854775808 99999999999999999999 -9223372036854775809 1e400 TRUE NULL x'01' $1 ? * @x :x 1%")
	eachDialect(func(d Dialect) bool {
		seen := map[string]bool{}
		each := func(mk lazy) bool {
			ts := mk().Toks(nil)
			for i, t := range ts {
				if !numRe.MatchString(t.S) {
					continue
				}
				key := plain(d, ts[:i+1])
				if seen[key] {
					continue
				}
				seen[key] = true
				for _, w := range bad {
					if strings.Contains(w, "--") || d == PG && strings.Contains(w, "`") {
						continue
					}
					if !yield(d, func() []*Tok { o := append([]*Tok{}, ts...); o[i] = spellTok(w); return splitGlued(o) }) {
						return false
					}
				}
			}
			return true
		}
		return catSingles(d, each) && catTyped(d, each)
	})
}

// splitGlued writes the tokens again as the lexer cuts them: a spelling with a
// dot that is no number is several tokens.
func splitGlued(ts []*Tok) []*Tok {
	var out []*Tok
	for _, t := range ts {
		if t.K != QT && len(t.S) > 1 && strings.ContainsAny(t.S, ".'") && !numRe.MatchString(t.S) {
			return nil
		}
		out = append(out, t)
	}
	return out
}

func catNumbers(what string) func(yield func(mkCase) bool) {
	return near(what, "a number replaced", eachNumber)
}

func catNear(what string) func(yield func(mkCase) bool) {
	return near(what, "one token from the catalogue", eachNeighbour)
}

func catJunctions(what string) func(yield func(mkCase) bool) {
	return near(what, "two clauses and a separator", eachJunction)
}

func near(what, lab string, each func(yield func(d Dialect, mk func() []*Tok) bool)) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		each(func(d Dialect, mk func() []*Tok) bool {
			return yield(func() *Case {
				ts := mk()
				if ts == nil {
					return nil
				}
				c := &Case{Kind: what, Dialect: d.String(), Texts: []Text{onLines(ts)}, Labels: label(d, lab)}
				switch what {
				case "outcome":
					return c
				case "relayout":
					for _, sep := range []string{" ", "\t\r\n", " /**/ ", " --'\n"} {
						c.Texts = append(c.Texts, Text(strings.Join(spell(ts), sep)))
					}
					return c
				case "recase":
					c.Texts = append(c.Texts, onLines(recase(ts, 1+len(ts)%3, uint64(len(ts)))))
					return c
				case "rewrite":
					r := parseD(d, string(c.Texts[0]))
					c.Trivial = r.err != nil || len(r.tables) == 0
					return c
				case "tail":
					v, ok := asVE(parseD(d, string(c.Texts[0])).err)
					if !ok || v.Near == "<EOF>" {
						return nil
					}
					c.Count = 1
					c.Texts = append(c.Texts, Text(catTails[len(ts)%len(catTails)]))
					return c
				case "accept":
					if good, _ := recognise(d, spell(ts), false); !good {
						return nil
					}
					return c
				}
				good, mx := recognise(d, spell(ts), true)
				if good {
					return nil
				}
				if what == "reject" {
					return c
				}
				if d == PG && hasBacktick(ts) {
					return nil
				}
				if good, mn := recognise(d, spell(ts), false); good || mn != mx {
					return nil
				}
				if mx < len(ts) {
					if mx > 0 && strings.EqualFold(ts[mx].S, "NULL") && strings.EqualFold(ts[mx-1].S, "NOT") {
						return nil
					}
					c.Near, c.LineLo, c.LineHi = ts[mx].S, mx+1, mx+1
				} else {
					c.Near, c.LineLo, c.LineHi = "<EOF>", max(1, len(ts)), max(1, len(ts))
				}
				return c
			})
		})
	}
}

// catAccept: every catalogue script is accepted, in plain and minimal layout.
func catAccept(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		return catAll(d, func(mk lazy) bool {
			return yield(func() *Case {
				ts := mk().Toks(nil)
				if ok, at := recognise(d, spell(ts), false); !ok {
					panic("harness: catalogue script not in the min grammar at " + ts[min(at, len(ts)-1)].S + ": " + plain(d, ts))
				}
				return &Case{Kind: "accept", Dialect: d.String(), Texts: []Text{Text(plain(d, ts))}, Labels: label(d, "catalogue")}
			})
		}) && catOther(d, func(mk func() []*Tok) bool {
			return yield(func() *Case {
				return &Case{Kind: "accept", Dialect: d.String(), Texts: []Text{Text(plain(d, mk()))}, Labels: label(d, "catalogue")}
			})
		})
	})
	both(catNear("accept"), catJunctions("accept"), catNumbers("accept"))(yield)
}

// catDrop: catalogue scripts with and without what the result leaves out (C14).
func catDrop(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		return catAll(d, func(mk lazy) bool {
			return yield(func() *Case {
				sc := mk()
				if sc.NGrp == 0 || sc.Stmts[0].Table.Items[0].Col == nil {
					return nil
				}
				all := map[int]bool{}
				for i := 1; i <= sc.NGrp; i++ {
					all[i] = true
				}
				c := &Case{Kind: "same", Dialect: d.String(), Model: sc.Tables(), Labels: label(d, "catalogue")}
				full := sc.Toks(nil)
				c.Texts = []Text{Text(plain(d, full))}
				put := func(drop map[int]bool) {
					ts := sc.Toks(drop)
					if !joinsUnique(full, ts) {
						c.Texts = append(c.Texts, Text(plain(d, ts)))
					}
				}
				put(all)
				for i := 1; i <= sc.NGrp && sc.NGrp > 1; i++ {
					put(map[int]bool{i: true})
				}
				return c
			})
		})
	})
}

// joinsUnique: leaving tokens out made UNIQUE take a KEY that was a primary key.
func joinsUnique(full, ts []*Tok) bool {
	next := map[*Tok]*Tok{}
	for i := range full[:len(full)-1] {
		next[full[i]] = full[i+1]
	}
	for i := range ts[:len(ts)-1] {
		if ts[i].S == "UNIQUE" && ts[i+1].S == "KEY" && next[ts[i]] != ts[i+1] {
			return true
		}
	}
	return false
}

// catAround: other statements before, between and after tables (C15).
func catAround(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		return catOther(d, func(mk func() []*Tok) bool {
			return yield(func() *Case {
				o := plain(d, mk())
				t1 := "CREATE TABLE t1 (x1 " + baseType[d] + " UNIQUE);"
				t2 := "CREATE TABLE t2 (x1 " + baseType[d] + ");"
				lo := strings.ToLower(o)
				if strings.Contains(o, "TABLE;") || strings.Contains(o, "';'") || strings.Contains(o, "$") {
					lo = o
				}
				c := &Case{Kind: "same", Dialect: d.String(), Labels: label(d, "catalogue")}
				c.Texts = []Text{Text(t1 + t2), Text(o + t1 + t2), Text(t1 + o + t2), Text(t1 + t2 + o), Text(o + o + t1 + "\n" + o + "\n" + t2 + o), Text(t1 + lo + t2)}
				return c
			})
		})
	})
}

// catAroundQuoted: quoted text of any one or two ASCII characters (before and
// after others) inside an other statement (C15).
func catAroundQuoted(yield func(mkCase) bool) {
	t1, t2 := "CREATE TABLE t1 (x1 ", ");"
	eachDialect(func(d Dialect) bool {
		quotes := []string{"'", "\"", "`"}
		if d == PG {
			quotes = []string{"'", "\"", "$$", "$t$", "$_T1$"}
		}
		for _, q := range quotes {
			for a := 0; a < 128; a++ {
				if !yield(func() *Case {
					c := &Case{Kind: "same", Dialect: d.String(), Labels: label(d, "quoted text in others")}
					c.Texts = []Text{Text(t1 + baseType[d] + t2 + t1 + baseType[d] + t2)}
					for b := -1; b < 128; b++ {
						x := string(rune(a))
						if b >= 0 {
							x += string(rune(b))
						}
						if q == "$$" && strings.Contains(x, "$") {
							continue
						}
						if d == MYSQL && q != "`" {
							x = strings.ReplaceAll(x, "\\", "\\\\")
						}
						if len(q) == 1 {
							x = strings.ReplaceAll(x, q, q+q)
						}
						body := q + x + ";BEGIN " + x + q
						if b < 0 {
							body = q + x + q
						}
						c.Texts = append(c.Texts, Text(t1+baseType[d]+t2+"CREATE VIEW v1 AS SELECT "+body+" ;"+t1+baseType[d]+t2))
					}
					return c
				}) {
					return false
				}
			}
		}
		return true
	})
}

var catSeps = [3][]string{
	{"\n", "\t", "\r\n", "\r", "\r\r", "\n\r", "  ", "-- x\n", "--\n", "--x'\n", "/* x */", "/**/", "/***/", "/* ' */", "/*\n*\n*/", "/* -- */", " -- ;\r\n ", "-- /*\n"},
	{"\n", "\t", "\r\n", "\r", "\r\r", "\n\r", "  ", "-- x\n", "--\n", "--x'\n", "/* x */", "/**/", "/***/", "/* ' */", "/*\n*\n*/", "/* -- */", "/* /* x */ ; */", "-- /*\n"},
	{"\n", "\t", "\r\n", "\r", "\r\r", "\n\r", "  ", "-- x\n", "# x\n", "#\n", "#'\r\n", "/* x */", "/**/", "/***/", "/* ' */", "/*\n*\n*/", "/* -- */", "/* # */", "-- /*\n"},
}

// catLayout: every gap of every single-clause script with every separator (C16).
func catLayout(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		return catSingles(d, func(mk lazy) bool {
			return yield(func() *Case {
				sc := mk()
				ts := sc.Toks(nil)
				c := &Case{Kind: "same", Dialect: d.String(), Model: sc.Tables(), Labels: label(d, "catalogue")}
				c.Texts = []Text{Text(plain(d, ts))}
				min := Layout{D: d, Mode: 1}
				x, _ := min.Render(ts)
				c.Texts = append(c.Texts, Text(x))
				sp := spell(ts)
				for _, sep := range catSeps[d] {
					for i := 0; i <= len(sp); i++ {
						a, b := strings.Join(sp[:i], " "), strings.Join(sp[i:], " ")
						if i > 0 && ts[i-1].K == OP && strings.HasPrefix(sep, "/") && strings.HasSuffix(ts[i-1].S, "*") || i < len(sp) && ts[i].K == OP && strings.HasSuffix(sep, "/") {
							a += " "
							b = " " + b
						}
						c.Texts = append(c.Texts, Text(a+sep+b))
					}
					c.Texts = append(c.Texts, Text(strings.Join(sp, " "+sep+" ")))
				}
				return c
			})
		})
	})
}

// catComments: comments that begin with any one or two ASCII characters (C16).
func catComments(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		a, b := "CREATE TABLE t1 (x1 "+baseType[d]+" NOT NULL", ", x2 "+baseType[d]+" CHECK (x2 > 1));"
		want := parseD(d, a+b)
		if want.err != nil {
			return true // C04's business
		}
		for i := 0; i < 128; i++ {
			for _, open := range []string{"/*", "--", "#"} {
				if open == "#" && d != MYSQL {
					continue
				}
				if !yield(func() *Case {
					c := &Case{Kind: "same", Dialect: d.String(), Texts: []Text{Text(a + b)}, Labels: label(d, "first characters of a comment")}
					for j := -1; j < 128; j++ {
						x := string(rune(i))
						if j >= 0 {
							x += string(rune(j))
						}
						end := "\n"
						if open == "/*" {
							end = "*/"
							if d == PG && strings.Contains(x, "/") || strings.HasPrefix(x, "/") || strings.Contains(x, "*/") {
								continue
							}
						} else if strings.ContainsAny(x, "\r\n") {
							continue
						}
						c.Texts = append(c.Texts, Text(a+" "+open+x+end+b), Text(open+x+" z' "+end+a+b))
					}
					return c
				}) {
					return false
				}
			}
		}
		return true
	})
}

// catCase: every keyword of every single-clause script in other cases (C17).
func catCase(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		return catSingles(d, func(mk lazy) bool {
			n := len(mk().Toks(nil))
			for i := -1; i < n; i++ {
				for m := 1; m <= 3; m++ {
					if !yield(func() *Case {
						sc := mk()
						ts := sc.Toks(nil)
						x := plain(d, ts)
						if i < 0 {
							applyCase(ts, m, 5)
						} else {
							applyCase(ts[i:i+1], m, 5)
						}
						y := plain(d, ts)
						if x == y {
							return nil
						}
						return &Case{Kind: "case", Dialect: d.String(), Texts: []Text{Text(x), Text(y)}, Model: sc.Tables(), Labels: label(d, "catalogue")}
					}) {
						return false
					}
				}
			}
			return true
		})
	})
}

// catStmts are single statements, tables and others.
func catStmts(d Dialect) []string {
	var out []string
	catSingles(d, func(mk lazy) bool {
		out = append(out, plain(d, mk().Toks(nil)))
		return true
	})
	catOther(d, func(mk func() []*Tok) bool {
		out = append(out, plain(d, mk()))
		return true
	})
	return out
}

// catConcat: all ordered pairs of (a third of the) single statements (C18).
func catConcat(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		st := catStmts(d)
		bad := []string{"CREATE TABLE t9 (x1 " + baseType[d], "DROP TABLE t1;", "CREATE TABLE t9 (x1 BOGUS);", "CREATE TABLE t9 (\nx1 " + baseType[d] + " 'oops);", ";", ";;", ")", "(", ",", ".", "=", "1", "'x'", "*/", "CREATE\n\nFOO;", "x"}
		for i, a := range st {
			for j, b := range st {
				if (i+2*j)%3 != 0 {
					continue
				}
				if !yield(func() *Case {
					return &Case{Kind: "concat", Dialect: d.String(), Texts: []Text{Text(a + "\n" + b), Text(a + "\n"), Text(b)}, Labels: label(d, "catalogue")}
				}) {
					return false
				}
			}
			for _, b := range bad {
				for _, glue := range []string{"", "\n\n"} {
					if !yield(func() *Case {
						return &Case{Kind: "concat", Dialect: d.String(), Texts: []Text{Text(a + glue + b), Text(a + glue), Text(b)}, Labels: label(d, "catalogue then invalid")}
					}) {
						return false
					}
				}
			}
		}
		return true
	})
}

// catLines: errors after very many lines (C06).
func catLines(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		bt := baseType[d]
		fill := []func(n int) string{
			func(n int) string { return strings.Repeat("\n", n) },
			func(n int) string { return strings.Repeat(" \r\n", n) },
			func(n int) string { return strings.Repeat("-- x\n", n) },
			func(n int) string { return "/*" + strings.Repeat(" *\n", n) + "*/" },
		}
		other := func(n int) string {
			return "CREATE VIEW v AS SELECT 1" + strings.Repeat(" ,\n2", n) + ";"
		}
		quoted := func(n int) string {
			return "CREATE TABLE t1 (x1 " + bt + " CHECK (x1 <> '" + strings.Repeat("\n", n) + "'));"
		}
		cols := func(n int) string {
			return "CREATE TABLE t1 (" + strings.Repeat("x1 "+bt+"\n,", n) + "x2 " + bt + ");"
		}
		tables := func(n int) string { return strings.Repeat("CREATE TABLE t1 (x1 "+bt+");\n", n) }
		for _, n := range []int{254, 255, 256, 999, 1000, 9999, 32767, 32768, 65534, 65535, 65536, 70000, 131072, 262145, 1100000} {
			pres := append([]func(int) string{}, fill...)
			if n > 131072 {
				pres = pres[:1]
			}
			if n <= 33000 {
				pres = append(pres, quoted)
			}
			if n <= 70000 {
				pres = append(pres, other, cols, tables)
			}
			for _, pre := range pres {
				for _, bad := range []string{"BOGUS;", "CREATE TABLE t9 (x1 " + bt, "　", "CREATE TABLE t9 (x1 " + bt + " CHECK (x1 = '", "*/"} {
					if !yield(func() *Case {
						c := &Case{Kind: "errpos", Dialect: d.String(), Texts: []Text{Text(pre(n) + " " + bad)}, LineLo: n + 1, LineHi: n + 1, Near: "<EOF>", Labels: label(d, "many lines")}
						switch bad {
						case "BOGUS;":
							c.Near = "BOGUS"
						case "　":
							c.Near = bad
						case "*/":
							c.Near = "*"
						}
						return c
					}) {
						return false
					}
				}
			}
			for _, f := range fill { // inside a table
				if n > 131072 && f(1) != "\n" {
					continue
				}
				if !yield(func() *Case {
					return &Case{Kind: "errpos", Dialect: d.String(), Texts: []Text{Text("CREATE TABLE t1 (x1 " + bt + f(n) + ", x2 BOGUS);")}, LineLo: n + 1, LineHi: n + 1, Near: "BOGUS", Labels: label(d, "many lines")}
				}) {
					return false
				}
			}
		}
		return true
	})
}

// catLongNear: errors whose offending text is very long (C06).
func catLongNear(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		bt := baseType[d]
		toks := []func(n int) string{
			func(n int) string { return strings.Repeat("z", n) },
			func(n int) string { return "1" + strings.Repeat("0", n-1) },
			func(n int) string { return "'" + strings.Repeat("s", n-2) + "'" },
			func(n int) string { return "\"" + strings.Repeat("é", n/2-1) + "\"" },
		}
		if d == PG {
			toks = append(toks,
				func(n int) string { return "$$" + strings.Repeat("s", n-4) + "$$" },
				func(n int) string { return "$t$" + strings.Repeat("'", n-6) + "$t$" })
		}
		places := [][2]string{
			{"", ";"},
			{"CREATE TABLE t1 (x1 ", ");"},
			{"CREATE TABLE t1 (x1 " + bt + ",\nx2 ", ", x3 " + bt + ");"},
			{"CREATE TABLE t1 (x1 " + bt + " NOT ", ");"},
			{"CREATE TABLE t1 (x1 " + bt + ") ", ";"},
			{"CREATE TABLE t1 (x1 " + bt + ", PRIMARY KEY ", " (x1));"},
			{"CREATE ", " t1 (x1 " + bt + ");"},
		}
		for _, n := range []int{20, 31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1026, 2000, 4096, 4098, 10000, 32770, 65538} {
			for k, t := range toks {
				if k >= 2 && n > 10000 {
					continue // string scanning is quadratic
				}
				for _, p := range places {
					if !yield(func() *Case {
						x := t(n)
						l := 1 + strings.Count(p[0], "\n")
						return &Case{Kind: "errpos", Dialect: d.String(), Texts: []Text{Text(p[0] + x + p[1])}, LineLo: l, LineHi: l, Near: x, Labels: label(d, "long offending text")}
					}) {
						return false
					}
				}
			}
		}
		return true
	})
}

// catNames: every name of every single-clause script replaced (C19).
func catNames(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		res := [][]string{{"SELECT", "table", "Check"}, {"SELECT", "table", "User"}, {"SELECT", "table", "Rank"}}[d]
		return catSingles(d, func(mk lazy) bool {
			n := len(nameSlots(mk().Toks(nil)))
			for i := 0; i < n; i++ {
				put := func(k Kind, w string) bool {
					return yield(func() *Case {
						sc := mk()
						sl := nameSlots(sc.Toks(nil))[i]
						return nameCase(d, sc, sl, k, w)
					})
				}
				for _, w := range append(res, "Zz_9", "_", "é1", "1a", "a-b") {
					if !put(NM, w) {
						return false
					}
				}
				for _, q := range "'\"`" {
					for _, w := range []string{"a b", "SELECT", "x;--(", "a" + string(q) + "b", "é　\n"} {
						if d == PG && q == '`' {
							continue
						}
						if !put(QT, quote(byte(q), w)) {
							return false
						}
					}
				}
			}
			return true
		})
	})
}

// catForeign: every catalogue script of one dialect in the others (C21).
func catForeign(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		one := func(mk func() []*Tok) bool {
			for e := SQLITE; e <= MYSQL; e++ {
				if e == d {
					continue
				}
				if !yield(func() *Case {
					ts := mk()
					if !portable(e, ts) {
						return nil
					}
					c := verdict(e, ts)
					if c != nil {
						c.Labels = label(e, d.String()+" catalogue "+c.Kind)
					}
					return c
				}) {
					return false
				}
			}
			return true
		}
		return catAll(d, func(mk lazy) bool {
			return one(func() []*Tok {
				ts := mk().Toks(nil)
				// the base type of the other dialects
				return ts
			}) && one(func() []*Tok {
				ts := cpToks(mk().Toks(nil))
				for _, t := range ts {
					if t.K == KW && t.S == baseType[d] {
						t.S = "INTEGER" // a type of all three
					}
				}
				return ts
			})
		}) && catOther(d, one)
	})
}

// catForce and catJSON: catalogue statements (C22, C20).
func catTexts(kind string) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		eachDialect(func(d Dialect) bool {
			return catAll(d, func(mk lazy) bool {
				return yield(func() *Case {
					return &Case{Kind: kind, Dialect: d.String(), Texts: []Text{Text(plain(d, mk().Toks(nil)))}, Labels: label(d, "catalogue")}
				})
			}) && catOther(d, func(mk func() []*Tok) bool {
				return yield(func() *Case {
					return &Case{Kind: kind, Dialect: d.String(), Texts: []Text{Text(plain(d, mk()))}, Labels: label(d, "catalogue")}
				})
			})
		})
	}
}

// catForeignWord: the near words in place of each token, through ParseForce.
func catForceNear(yield func(mkCase) bool) {
	catTexts("force")(yield)
	eachNeighbour(func(d Dialect, mk func() []*Tok) bool {
		return yield(func() *Case {
			return &Case{Kind: "force", Dialect: d.String(), Texts: []Text{onLines(mk())}, Labels: label(d, "one token from the catalogue")}
		})
	})
}

// ambigTypes and ambigParts make texts that more than one dialect accepts and
// reads differently: a backslash in a string, a comment inside a comment, dollar
// quotes, double quotes, "#".
var ambigTypes = strings.Fields("TEXT INTEGER REAL NUMERIC TIMESTAMP VARCHAR(7) DATE INT BLOB JSON SERIAL ENUM BYTEA TINYINT DATETIME")

var ambigParts = []string{
	"", " NOT NULL", " PRIMARY KEY", " UNIQUE", " AUTOINCREMENT", " AUTO_INCREMENT", " NULL", " KEY",
	" DEFAULT 'n\\n'", " DEFAULT '\\\\'", " DEFAULT 'a''b'", " DEFAULT '\\''", " DEFAULT '\\', y1 TEXT DEFAULT '\\'", " DEFAULT \"d\\t\"", " DEFAULT 1",
	" CHECK (x1 = 'n\\n')", " CHECK (x1 = '\\\\')", " CHECK ($$a$$ = 1)", " CHECK ($$ ( $$ = 1)", " CHECK (\"a\\\"\" = 1)", " CHECK (a # b\n)", " CHECK (`a` = 1)", " CHECK (a == b)",
	" /* /* */ , y1 TEXT -- */\n", " -- /* \n", " # /* \n", " /* # */ ", " DEFAULT (x1 # y\n)", " DEFAULT ('\\a' || \"b\")", " COLLATE BINARY", " COLLATE \"C\"", " REFERENCES o (k1)", " COMMENT 'c\\n'", " GENERATED ALWAYS AS (1) STORED",
}

var ambigTails = []string{"", ", UNIQUE (x1)", ", CHECK (x1 <> '\\n')", ", PRIMARY KEY (x1 ASC)", ", INDEX (x1)", ", UNIQUE KEY (x1)", ", EXCLUDE (x1 WITH =)", ", FOREIGN KEY (x1) REFERENCES \"o\" (\"k\")", ", UNIQUE (\"x1\")", ", UNIQUE (`x1`)"}
var ambigEnds = []string{";", "", " STRICT;", " WITHOUT ROWID;", " ENGINE = InnoDB;", " USING heap;", " COMMENT 'a\\n';", "; CREATE INDEX i ON t (x1);", "; CREATE VIEW v AS SELECT '\\n';"}
var ambigNames = []string{"x1", "`x1`", "\"x1\"", "x$1", "é", "text", "a", "rank", "user", "dual", "check1"}

func ambiguous(cols int, n func(int) int) Text {
	x := "CREATE TABLE " + ambigNames[n(3)*n(2)*n(2)] + " ("
	for i := 0; i < cols; i++ {
		if i > 0 {
			x += ", "
		}
		x += ambigNames[n(len(ambigNames))*n(2)*n(2)] + " " + ambigTypes[n(len(ambigTypes))]
		for k := n(3); k > 0; k-- {
			x += ambigParts[n(len(ambigParts))]
		}
	}
	if n(3) == 0 {
		x += ambigTails[n(len(ambigTails))]
	}
	x += ")"
	if n(4) == 0 {
		return Text(x + ambigEnds[n(len(ambigEnds))])
	}
	return Text(x + ";")
}

// catAmbig: all types, parts and ends, and all pairs of parts, through ParseForce.
func catAmbig(yield func(mkCase) bool) {
	put := func(x string) bool {
		return yield(func() *Case {
			return &Case{Kind: "force", Texts: []Text{Text(x)}, Labels: []string{"ambiguous"}}
		})
	}
	for _, t := range ambigTypes {
		for _, p := range ambigParts {
			for _, e := range ambigEnds {
				if !put("CREATE TABLE t (x1 " + t + p + ")" + e) {
					return
				}
			}
			for _, q := range ambigParts {
				if !put("CREATE TABLE t (x1 " + t + p + q + ");") {
					return
				}
			}
			for _, q := range ambigTails {
				if !put("CREATE TABLE t (x1 " + t + p + q + ");") {
					return
				}
			}
			for _, n := range ambigNames {
				if !put("CREATE TABLE t (" + n + " " + t + p + ");") {
					return
				}
			}
		}
	}
}

// catPrefixes: catalogue statements cut after every character (C01, C02).
func catPrefixes(kind string) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		eachDialect(func(d Dialect) bool {
			for _, x := range catStmts(d) {
				for i := 0; i <= len(x); i++ {
					if !yield(func() *Case {
						return &Case{Kind: kind, Texts: []Text{Text(x[:i])}, Labels: label(d, "catalogue cut"), Trivial: i == 0}
					}) {
						return false
					}
				}
			}
			return true
		})
		if kind == "outcome" {
			catNear(kind)(yield)
		}
	}
}

// catShort: every two very short pieces of text in every kind of place (C01, C02).
func catShort(kind string) func(yield func(mkCase) bool) {
	pieces := []string{"a", "é", "日", "\U0001F600", "\x80", "\xff", "\xe3\x80", "\xe3\x80\x80", "\ufeff", "\ufffd", "\x00", "\\", "'", "''", "\"", "\"\"", "`", "``", "'\\", "'é'", "\"é\"", "`é`", "$", "$$", "$1", "$é$", "#", "-", "--", "/", "/*", "*/", "*", "(", ")", ",", ".", ";", "=", "<", "1", "1.", ".1", "1e", "\n", "\r", "\t", "END", "CASE", "NOT", "[", "<EOF>", "x'"}
	places := []string{"CREATE TABLE t1 (x1 TEXT CHECK (%s), x2 TEXT);", "CREATE TABLE t1 (x1 TEXT DEFAULT (%s) NOT NULL);", "CREATE TABLE t1 (x1 TEXT DEFAULT %s);", "CREATE TABLE %s (x1 TEXT);", "CREATE TABLE t1 (%s TEXT, UNIQUE (x1));", "CREATE TABLE t1 (x1 %s);", "CREATE TABLE t1 (x1 TEXT, PRIMARY KEY (%s));", "CREATE TABLE t1 (x1 TEXT) %s;", "CREATE VIEW v1 AS %s ;", "%s"}
	return func(yield func(mkCase) bool) {
		for _, place := range places {
			for _, a := range pieces {
				for _, b := range pieces {
					for _, glue := range []string{"", " "} {
						if !yield(func() *Case {
							return &Case{Kind: kind, Texts: []Text{Text(strings.Replace(place, "%s", a+glue+b, 1))}, Labels: []string{"two short pieces"}}
						}) {
							return
						}
					}
				}
			}
		}
	}
}

var hostileWhole = []string{strings.Repeat("Ab c", 270), strings.Repeat("x", 4200), ";", "--", "-- x", "/*", "*/", "/* x */", "#", "# x", "(", ")", ",", ".", "=", "", " ", "\n", "\r\n", "a\nb", "CREATE TABLE q (z TEXT);", "NULL", "PRIMARY KEY", "END", "BEGIN", "CASE", "$$", "$a$", "　",
	"SELF", "SELFSELF", "aSELFb", "SELF;SELF", "'", "\"", "`", "''", "\"\"", "\\n", "%s", "\x00", "日本", "TRUE", "1", "CURRENT_TIMESTAMP", "<EOF>", "EOF"}

// catQuoted: every quoted text and every name (then quoted) of every
// single-clause script with every hostile content (C24).
func catQuoted(yield func(mkCase) bool) {
	eachDialect(func(d Dialect) bool {
		slots := func(ts []*Tok) []*Tok {
			var out []*Tok
			for _, t := range ts {
				if t.K == QT || t.K == NM {
					out = append(out, t)
				}
			}
			return out
		}
		return catSingles(d, func(mk lazy) bool {
			n := len(slots(mk().Toks(nil)))
			for i := 0; i < n; i++ {
				for k := 0; k < len(hostileWhole)+132; k++ {
					h, raw := "", k >= len(hostileWhole)
					if !raw {
						h = hostileWhole[k]
					} else { // a backslash before every character
						h = "a\\" + string([]rune{rune(k - len(hostileWhole)), 'é', '　', '日', '\U0001F600'}[max(0, k-len(hostileWhole)-127)]) + "b"
					}
					if !yield(func() *Case {
						sc := mk()
						ts := sc.Toks(nil)
						t := slots(ts)[i]
						q := identQuotes(d)[0]
						if t.K == QT {
							q = t.S[0]
						}
						isStr := strings.IndexByte(stringQuotes(d), q) >= 0
						content := strings.ReplaceAll(h, "SELF", string(q))
						if content == "" && !isStr && d != SQLITE || raw && t.K != QT {
							return nil // empty names exist in SQLite only
						}
						t.K = QT
						t.S = quote(q, "zq7_")
						c := &Case{Kind: "subst", Dialect: d.String(), Model: sc.Tables(), Labels: label(d, "catalogue")}
						y := plain(d, ts)
						w := quote(q, content)
						if d == MYSQL && isStr && raw {
							w = string(q) + content + string(q)
						} else if d == MYSQL && isStr {
							w = quote(q, strings.ReplaceAll(content, "\\", "\\\\"))
						}
						c.Subst = [][2]string{{t.S, w}}
						t.S = w
						c.Model = sc.Tables()
						c.Texts = []Text{Text(plain(d, ts)), Text(y)}
						return c
					}) {
						return false
					}
				}
			}
			return true
		})
	})
}

// catSize: every column clause on many columns, every table clause many
// times, every option after many columns (C23).
func catSize(yield func(mkCase) bool) { catSizeOf(0, 1100, yield) }

// catBig: the same for one aspect of the model.
func catBig(asp int) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) { catSizeOf(asp, 600, yield) }
}

// exprCases: every operator and every keyword between every two kinds of atoms,
// in a column CHECK, a DEFAULT and a table CHECK, spaced and as tight as can be.
func exprCases(yield func(mkCase) bool) {
	glued := func(pre, q string) []*Tok { return []*Tok{wd(pre), {K: QT, S: q, Glue: true}} }
	eachDialect(func(d Dialect) bool {
		q := identQuotes(d)[0]
		atoms := func() [][]*Tok {
			a := [][]*Tok{one(wd("c1")), one(wd("_")), one(wd("日付")), one(num("1")), one(num("0.5")), one(num("1.")), one(num("1e5")), one(wd("x٣")), one(&Tok{K: QT, S: "'x'"}), one(&Tok{K: QT, S: "''"}), one(&Tok{K: QT, S: "'a''(b'"}), one(&Tok{K: QT, S: quote(q, "q r")}), one(&Tok{K: QT, S: quote(q, string(q))}),
				{wd("t"), sym("."), wd("c")}, {wd("f"), sym("("), sym(")")}, {wd("f"), sym("("), wd("a"), sym(","), num("2"), sym(")")}, {sym("("), wd("a"), sym(")")}, {sym("("), sym("("), &Tok{K: QT, S: "')'"}, sym(")"), sym(")")},
				glued("x", "'ff'"), glued("N", "'n'")}
			if d == PG {
				a = append(a, glued("E", "'e'"), one(wd("$1")))
			}
			return a
		}
		n := len(atoms())
		var mids []func() []*Tok
		for _, o := range exprOps[d] {
			mids = append(mids, func() []*Tok { return one(op(o)) })
			mids = append(mids, func() []*Tok { return []*Tok{op(o), op("-")} })
		}
		for _, w := range strings.Split("AND|OR|NOT LIKE|IS|IN|BETWEEN 1 AND|IS NOT NULL AND|like|COLLATE|CASE WHEN a THEN b ELSE c END|PRIMARY KEY|REFERENCES|DEFAULT|CREATE TABLE|CHECK|NULL|,|= ,", "|") {
			mids = append(mids, func() []*Tok { return (&catB{}).toks(w) })
		}
		mids = append(mids, func() []*Tok { return nil }, func() []*Tok { return one(op("<EOF>")) }, func() []*Tok { return one(sym("=")) }, func() []*Tok { return []*Tok{sym("="), op("-")} })
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for _, mid := range mids {
					for mode := 0; mode <= 1; mode++ {
						if !yield(func() *Case {
							e := func() []*Tok { return cat(one(sym("(")), atoms()[i], mid(), atoms()[j], one(sym(")"))) }
							b := &catB{}
							con := func(k string) *Con {
								x := b.con(k+" ( a )", false)
								ts := e()
								x.Toks = cat(x.Toks[:1], ts)
								if k == "CHECK" {
									x.Check = ts
								} else {
									x.DefExpr = ts
								}
								return x
							}
							c1 := plainCol(d, "x1")
							c1.Cons = []*Con{con("CHECK"), con("DEFAULT")}
							it := b.tcon("CHECK ( a )", 0)
							ts := e()
							it.TC.Toks = cat(it.TC.Toks[:1], ts)
							it.TC.Check = ts
							sc := tableOf(d, b, nil, false, &Item{Col: c1}, it, &Item{Col: plainCol(d, "x2")})
							l := Layout{D: d, Mode: mode}
							x, _ := l.Render(sc.Toks(nil))
							return &Case{Kind: "model", Dialect: d.String(), Aspect: aExprs, Model: sc.Tables(), Texts: []Text{Text(x)}, Labels: label(d, "two atoms")}
						}) {
							return false
						}
					}
				}
			}
		}
		return true
	})
}

// catKeys: keys and references of every number of columns up to 70 and some
// above (C12, C13).
func catKeys(asp int) func(yield func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		eachDialect(func(d Dialect) bool {
			bt := baseType[d]
			for i := 1; i <= 78; i++ {
				n := i
				if i > 70 {
					n = []int{100, 127, 128, 129, 256, 300, 1000, 5000}[i-71]
				}
				if !yield(func() *Case {
					var a, b []string
					for k := 0; k < n; k++ {
						a, b = append(a, "k"+itoa(k)), append(b, "Z"+itoa(k*7%n))
					}
					la, lb := " ("+strings.Join(a, ", ")+")", " ("+strings.Join(b, ",")+")"
					x := "CREATE TABLE t1 (x1 " + bt + ", PRIMARY KEY" + la + ", CONSTRAINT u1 UNIQUE" + lb + ", CONSTRAINT f1 FOREIGN KEY" + la + " REFERENCES o1" + lb + ", x2 " + bt + " REFERENCES o2 (" + b[n-1] + ") NOT NULL, FOREIGN KEY" + lb + " REFERENCES o3" + la + " ON DELETE CASCADE, CHECK (x1 > 0));"
					m := ddlparse.Table{Name: "t1", Columns: []ddlparse.Column{{Name: "x1", DataType: ddlparse.DataType{Name: bt}}, {Name: "x2", DataType: ddlparse.DataType{Name: bt}, Constraint: ddlparse.Constraint{IsNotNull: true, References: ddlparse.Reference{TableName: "o2", ColumnNames: b[n-1:]}}}}}
					m.Constraints.PrimaryKey = []ddlparse.PrimaryKey{{ColumnNames: a}}
					m.Constraints.Unique = []ddlparse.Unique{{Name: "u1", ColumnNames: b}}
					m.Constraints.ForeignKey = []ddlparse.ForeignKey{{Name: "f1", ColumnNames: a, References: ddlparse.Reference{TableName: "o1", ColumnNames: b}}, {ColumnNames: b, References: ddlparse.Reference{TableName: "o3", ColumnNames: a}}}
					m.Constraints.Check = []ddlparse.Check{{Expr: "( x1 > 0 )"}}
					return &Case{Kind: "model", Dialect: d.String(), Aspect: asp, Model: []ddlparse.Table{m}, Texts: []Text{Text(x)}, Labels: label(d, "columns of a key")}
				}) {
					return false
				}
			}
			return true
		})
	}
}

func catSizeOf(asp, size int, yield func(mkCase) bool) {
	num := func(i int) string { return "c" + strings.Repeat("x", i%5) + itoa(i) }
	eachDialect(func(d Dialect) bool {
		put := func(mk func(n int) *Script) bool {
			return yield(func() *Case {
				big := mk(size)
				if asp != 0 {
					return &Case{Kind: "model", Dialect: d.String(), Aspect: asp, Model: big.Tables(), Labels: label(d, "catalogue, large"), Texts: []Text{Text(plain(d, big.Toks(nil)))}}
				}
				small := mk(2)
				return &Case{Kind: "sizemodel", Dialect: d.String(), Aspect: aAll, Model: big.Tables(), Labels: label(d, "catalogue"),
					Texts: []Text{Text(plain(d, big.Toks(nil))), Text(plain(d, small.Toks(nil)))}}
			})
		}
		for _, text := range catCons[d] {
			if !put(func(n int) *Script {
				b := &catB{}
				var items []*Item
				for i := 0; i < n; i++ {
					c := plainCol(d, num(i))
					c.Cons = []*Con{b.con(text, d != MYSQL && i%2 == 1)}
					items = append(items, &Item{Col: c})
				}
				return tableOf(d, b, nil, false, items...)
			}) {
				return false
			}
		}
		for _, text := range catTCons[d] {
			if !put(func(n int) *Script {
				b := &catB{}
				items := []*Item{{Col: plainCol(d, "x1")}}
				for i := 0; i < n; i++ {
					nm := i % 2
					if d == MYSQL && text[0] == '!' {
						nm = 0
					}
					items = append(items, b.tcon(text, nm))
					if i%10 == 3 {
						items = append(items, &Item{Col: plainCol(d, num(i))})
					}
				}
				return tableOf(d, b, nil, false, items...)
			}) {
				return false
			}
		}
		for _, text := range catOpts[d] {
			if !put(func(n int) *Script {
				b := &catB{}
				var sc *Script
				for i := 0; i < n; i++ {
					s1 := tableOf(d, b, []string{text}, true, &Item{Col: plainCol(d, num(i))})
					if sc == nil {
						sc = s1
					} else {
						sc.Stmts = append(sc.Stmts, s1.Stmts...)
					}
				}
				return sc
			}) {
				return false
			}
		}
		return true
	})
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func both(fs ...func(func(mkCase) bool)) func(func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		ok := true
		for _, f := range fs {
			f(func(m mkCase) bool { ok = ok && yield(m); return ok })
			if !ok {
				return
			}
		}
	}
}

func eager(f func(func(*Case) bool)) func(func(mkCase) bool) {
	return func(yield func(mkCase) bool) {
		f(func(c *Case) bool { return yield(func() *Case { return c }) })
	}
}

// addCatalogue appends the enumerations; props.go calls it once all are registered.
func addCatalogue() {
	add := func(id string, f func(func(mkCase) bool)) {
		p := props[id]
		if p.Enum != nil {
			f = both(p.Enum, f)
		}
		p.Enum = f
	}
	add("C01", both(catPrefixes("returns"), catShort("returns")))
	add("C02", both(catPrefixes("outcome"), catShort("outcome")))
	add("C04", catAccept)
	add("C05", both(catNear("reject"), catJunctions("reject"), catNumbers("reject")))
	add("C06", both(catLines, catLongNear, catNear("errpos"), catJunctions("errpos"), catNumbers("errpos")))
	add("C07", both(catModel(aNames), catBig(aNames), catLongNames(aNames)))
	add("C08", both(catModel(aTypes), catTypePairs, catBig(aTypes)))
	add("C09", both(catModel(aFlags), catBig(aFlags), catLongNames(aFlags)))
	add("C10", both(catModel(aLits), catBig(aLits), catLongDefaults, catFinite("finite")))
	add("C11", both(exprCases, catModel(aExprs), catBig(aExprs), catLongNames(aExprs)))
	add("C12", both(catModel(aTCons), catBig(aTCons), catLongNames(aTCons), catKeys(aTCons)))
	add("C13", both(catModel(aRefs|aFlags), catBig(aRefs|aFlags), catLongNames(aRefs|aFlags), catKeys(aRefs)))
	add("C14", catDrop)
	add("C15", both(catAround, catAroundQuoted))
	add("C16", both(catLayout, catComments, catJunctions("relayout")))
	add("C17", both(catCase, catJunctions("recase"), catNear("recase")))
	add("C18", catConcat)
	add("C19", both(catNames, catLongNames(aAll)))
	add("C20", both(catTexts("json"), catFinite("json")))
	add("C21", catForeign)
	add("C22", both(catAmbig, catForceNear))
	add("C23", both(catSize, eager(enumLarge)))
	add("C24", catQuoted)
	add("C25", both(catTexts("rewrite"), catNear("rewrite")))
	add("C26", catNear("tail"))
	add("C27", catItems)
	add("C28", catOwn)
}
