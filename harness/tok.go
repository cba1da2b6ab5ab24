package main

import (
	"strings"
)

type Dialect int

const (
	SQLITE Dialect = iota
	PG
	MYSQL
)

var dialectNames = []string{"SQLite", "PostgreSQL", "MySQL"}

func (d Dialect) String() string { return dialectNames[d] }

func dialectOf(s string) Dialect {
	for i, n := range dialectNames {
		if n == s {
			return Dialect(i)
		}
	}
	return SQLITE
}

type Kind int

const (
	KW  Kind = iota // keyword, letter case is free and not reported
	KV              // keyword reported as written
	NM              // unquoted name
	QT              // quoted text (name or string), quotes included
	NUM             // number
	WD              // word reported verbatim or skipped (expressions, bodies)
	SYM             // ( ) , . ; =
	OP              // operator
)

// Tok is one token of a generated script.
type Tok struct {
	K    Kind
	S    string
	G    int  // id of the removable (unrepresented) clause it belongs to, 0 = none
	Glue bool // nothing may stand between this token and the one before it
}

func wordish(k Kind) bool { return k != SYM && k != OP }

// needSep reports whether a and b must be separated.
func needSep(a, b *Tok) bool {
	if a.K == SYM && b.K == SYM {
		return a.S == "=" && b.S == "="
	}
	if wordish(a.K) && wordish(b.K) {
		return true
	}
	aop := a.K == OP || (a.K == SYM && a.S == "=")
	bop := b.K == OP || (b.K == SYM && b.S == "=")
	if aop && bop {
		return true
	}
	if a.K == OP && b.K == NUM && (b.S[0] == '-' || b.S[0] == '+') {
		return true
	}
	if a.K == NUM && b.K == SYM && b.S == "." || a.K == SYM && a.S == "." && b.K == NUM {
		return true
	}
	if a.K == SYM && a.S == "." && b.K == OP || a.K == OP && b.K == SYM && b.S == "." {
		return true
	}
	return false
}

// Layout is how separators are written.
type Layout struct {
	D        Dialect
	Mode     int  // 0 single spaces; 1 minimal; 2 pretty; 3 wild
	Always   bool // always separate tokens
	Comments bool
	NoHash   bool
	OpenEnd  bool // nothing is appended to the text: the last line may lack its newline
	Rng      uint64
}

func (l *Layout) r(n int) int { return int(splitmix(&l.Rng) >> 33 % uint64(n)) }

var commentBits = []string{
	"todo", " note: ", "it's", "\"", "'", "`", ";", "(", ")", ",", "CREATE TABLE x (y TEXT);", "--", "#", "DEFAULT",
	"日本語", "é", " - ", "=", "END", "BEGIN", "*", "/", "\\", "　", "$$", "\t", "1.5", "NOT NULL", "\r", "- -",
	"!", "+", "@", "?", "%", "&", "~", "<", ">", ":", "|", "^", "[", "]", "{", "}", "_", "0", "a", "\x00", "\f",
}

func (l *Layout) lineComment() string {
	var b strings.Builder
	if l.D == MYSQL && !l.NoHash && l.r(2) == 0 {
		b.WriteString("#")
	} else {
		b.WriteString("--")
		switch k := l.r(6); {
		case l.D == MYSQL && k == 0:
			b.WriteString("\t")
		case k == 0:
			b.WriteString(strings.Repeat("-", 1+l.r(9)))
		case k > 2:
			b.WriteString(" ")
		}
	}
	k := l.r(5)
	if l.r(100) == 0 {
		k = l.r(120)
	}
	for n := k; n > 0; n-- {
		b.WriteString(commentBits[l.r(len(commentBits))])
	}
	if l.r(12) == 0 {
		b.WriteString(" /* ")
	}
	if l.r(12) == 0 {
		b.WriteString(" */ ")
	}
	if l.r(3) == 0 {
		b.WriteString("\r")
	}
	b.WriteString("\n")
	return b.String()
}

func (l *Layout) blockComment(depth int) string {
	var b strings.Builder
	b.WriteString("/*")
	if l.r(3) == 0 {
		b.WriteString(strings.Repeat("*", l.r(4)))
	} else if l.r(6) == 0 { // hints and version comments are comments
		b.WriteString([]string{"!", "!50100 ", "!40101", "+", "+ ", "M!", "M!100100 ", "-", "#", "?", ":", "@"}[l.r(12)])
	}
	k := l.r(6)
	if l.r(100) == 0 {
		k = l.r(120)
	}
	for n := k; n > 0; n-- {
		switch l.r(10) {
		case 0, 1:
			b.WriteString("\n")
		case 2:
			b.WriteString("\n * ")
		case 3:
			b.WriteString(" *\n")
		case 4:
			if l.D == PG && depth == 0 && l.r(20) == 0 {
				n := 3 + l.r(40)
				b.WriteString(strings.Repeat(" /*", n) + " x ' " + strings.Repeat("*/", n) + " ")
			} else if l.D == PG && depth < 3 {
				b.WriteString(" " + l.blockComment(depth+1) + " ")
			} else if l.D != PG {
				b.WriteString(" /* ")
			}
		default:
			x := commentBits[l.r(len(commentBits))]
			s := b.String()
			// never create "*/" or "/*" by accident
			if (strings.HasSuffix(s, "*") && strings.HasPrefix(x, "/")) || (strings.HasSuffix(s, "/") && strings.HasPrefix(x, "*")) {
				b.WriteString(" ")
			}
			b.WriteString(x)
		}
	}
	s := b.String()
	if strings.HasSuffix(s, "/") && len(s) > 2 && l.D == PG {
		b.WriteString(" ")
	} else if l.D != PG && (s == "/*" || !strings.HasSuffix(s, "*")) && l.r(12) == 0 {
		b.WriteString("/") // "/" directly before "*/" opens nothing
	}
	if l.r(3) == 0 {
		b.WriteString(strings.Repeat("*", l.r(4)))
	}
	b.WriteString("*/")
	return b.String()
}

func (l *Layout) wild(prev *Tok) string {
	var b strings.Builder
	n := 1 + l.r(3)
	if l.r(400) == 0 { // a long gap
		x := []string{"\n", "\r\n", " ", "\t", " \n", "\r"}[l.r(6)]
		b.WriteString(strings.Repeat(x, 1+l.r(300)))
	}
	for i := 0; i < n; i++ {
		c := l.r(12)
		if !l.Comments && c >= 9 {
			c = l.r(9)
		}
		switch {
		case c < 4:
			b.WriteString(" ")
		case c == 4:
			b.WriteString("\t")
		case c == 5:
			b.WriteString([]string{"  ", "\r"}[l.r(2)])
		case c < 8:
			b.WriteString("\n")
		case c == 8:
			b.WriteString("\r\n")
		case c == 9:
			if i == 0 && prev != nil && prev.K != QT && strings.HasSuffix(prev.S, "-") {
				b.WriteString(" ")
			}
			b.WriteString(l.lineComment())
		default:
			b.WriteString(l.blockComment(0))
		}
	}
	return b.String()
}

type Pos struct{ First, Last int } // lines of the first and last character

// Render writes the tokens; it returns the text and the lines of every token.
func (l *Layout) Render(toks []*Tok) (string, []Pos) {
	var b strings.Builder
	pos := make([]Pos, len(toks))
	line := 1
	put := func(s string) {
		line += strings.Count(s, "\n")
		b.WriteString(s)
	}
	if l.Mode == 3 && l.r(3) == 0 {
		put(l.wild(nil))
	}
	depth := 0
	for i, t := range toks {
		if i > 0 && !t.Glue {
			prev := toks[i-1]
			need := l.Always || needSep(prev, t)
			switch l.Mode {
			case 0:
				put(" ")
			case 1:
				if need {
					put(" ")
				}
			case 2:
				if prev.S == ";" && prev.K == SYM {
					put("\n")
				} else if depth == 1 && prev.K == SYM && (prev.S == "," || prev.S == "(") {
					put("\n    ")
				} else if need || !(t.K == SYM && t.S != "(" || prev.K == SYM && prev.S != ",") {
					put(" ")
				}
			default:
				if need || l.r(2) == 0 {
					put(l.wild(prev))
				}
			}
		}
		pos[i].First = line
		put(t.S)
		pos[i].Last = line
		if t.K == SYM && t.S == "(" {
			depth++
		} else if t.K == SYM && t.S == ")" {
			depth--
		}
	}
	if l.Mode >= 2 && l.r(2) == 0 {
		var prev *Tok
		if len(toks) > 0 {
			prev = toks[len(toks)-1]
		}
		if l.Mode == 3 {
			x := l.wild(prev)
			if l.r(3) == 0 && l.OpenEnd {
				x = strings.TrimSuffix(x, "\n")
			}
			put(x)
		} else {
			put("\n")
		}
	}
	return b.String(), pos
}

func plain(d Dialect, toks []*Tok) string {
	l := Layout{D: d, Always: true}
	s, _ := l.Render(toks)
	return s
}

// genLayout draws a layout; the smallest choice is plain single spaces.
func genLayout(s *Src, d Dialect) Layout {
	m := s.W(25, 15, 25, 35)
	l := Layout{D: d, Mode: m, Comments: true}
	if m >= 2 {
		l.Rng = uint64(s.next())
		l.Comments = s.P(75)
	}
	return l
}

// applyCase rewrites the letter case of keywords. Mode 0 keeps upper case.
func applyCase(toks []*Tok, mode int, rng uint64) {
	if mode == 0 {
		return
	}
	for _, t := range toks {
		if t.K != KW && t.K != KV {
			continue
		}
		m := mode
		if mode == 4 {
			m = int(splitmix(&rng)>>33) % 4
		}
		switch m {
		case 0:
			t.S = strings.ToUpper(t.S)
		case 1:
			t.S = strings.ToLower(t.S)
		case 2:
			t.S = strings.ToUpper(t.S[:1]) + strings.ToLower(t.S[1:])
		default:
			bs := []byte(strings.ToLower(t.S))
			for i := range bs {
				if splitmix(&rng)>>63 == 0 && bs[i] >= 'a' && bs[i] <= 'z' {
					bs[i] -= 32
				}
			}
			t.S = string(bs)
		}
	}
}
