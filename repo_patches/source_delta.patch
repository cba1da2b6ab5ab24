From f243d5ddcf3246e341857d40e25d38e6a0c58d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:29 +0000
Subject: [PATCH 01/40] fix: ParseForce reports an error when every dialect
 rejects the DDL

The loop variable shadowed err, so rejected input came back as success with no tables.
---
 ddlparse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..8f51d07 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -67,10 +67,11 @@ func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
-		if err == nil {
+		tables, e := Parse(ddl, rdbms)
+		if e == nil {
 			return tables, nil
 		}
+		err = e
 	}
 	return []Table{}, err
 }
\ No newline at end of file
-- 
2.43.0


From 598df0fdd2bb5e0511ea4c4563083bb692800517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:30 +0000
Subject: [PATCH 02/40] fix: count a newline at the very start of the DDL in
 error lines

---
 internal/validator/validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..64aea62 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -47,8 +47,9 @@ func (v *validator) init(tokens []string) {
 	v.i = 0
 	v.line = 1
 	v.result = []string{}
-	if v.token() == "\n" {
-		v.next()
+	for v.token() == "\n" {
+		v.i += 1
+		v.line += 1
 	}
 }
 
-- 
2.43.0


From 5c70c5183e00015747f1e7c37ab13a7fc4c7765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:30 +0000
Subject: [PATCH 03/40] fix: report end of input inside brackets instead of
 recursing forever

CREATE TABLE t (a INTEGER CHECK (x   exhausted the stack and killed the process.
---
 internal/validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 64aea62..c475cc3 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -150,6 +150,9 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
+	if v.isOutOfRange() {
+		return v.syntaxError()
+	}
 	if v.matchToken(")") {
 		return nil
 	}
-- 
2.43.0


From 68c98ea4dc3bcc3e57e444f1f93658906e085e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:31 +0000
Subject: [PATCH 04/40] fix: recognise a comment that directly follows another
 comment or operator

A -- comment at the start of the line after a -- comment was read as a token,
as was a block comment directly after another comment, - or /.
---
 internal/lexer/lexer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..66eddb2 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -121,21 +121,19 @@ func (l *lexer) lex() error {
 			if err := l.lexHyphen(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "/" {
 			if err := l.lexSlash(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "*" {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
+			continue
 		}
 
-		if l.isOutOfRange() {
-			break
-		}
-
-		c = l.char()
 		if c == "\"" {
 			if err := l.lexDoubleQuote(&token); err != nil {
 				return err
-- 
2.43.0


From 9de1f019fbe9d2bc7a6e326910ce114cb34edf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:31 +0000
Subject: [PATCH 05/40] fix: scan block comments character by character

The character after a * or / inside a comment was skipped unseen, so /* **/ was
not closed and a newline after * or / was not counted in error lines.
---
 internal/lexer/lexer.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 66eddb2..6d718d5 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -338,25 +338,15 @@ func (l *lexer) skipComment() {
 
 func (l *lexer) skipMultiLineComment() error {
 	l.next()
-	c := ""
 	for !l.isOutOfRange() {
-		c = l.char()
+		c := l.next()
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "*" {
-			l.next()
-			if l.char() == "/" {
-				l.next()
-				return nil
-			}
-		} else if c == "/" {
+		} else if c == "*" && l.char() == "/" {
 			l.next()
-			if l.char() == "*" {
-				return l.skipMultiLineComment()
-			}
+			return nil
 		}
-		l.next()
 	}
 	return l.lexError()
 }
-- 
2.43.0


From 4b5f53e090a0e04740d94d2978b567fdd558ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 06/40] fix: let block comments nest in PostgreSQL

---
 internal/lexer/lexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 6d718d5..910f5b6 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -338,6 +338,7 @@ func (l *lexer) skipComment() {
 
 func (l *lexer) skipMultiLineComment() error {
 	l.next()
+	depth := 1
 	for !l.isOutOfRange() {
 		c := l.next()
 		if c == "\n" {
@@ -345,7 +346,13 @@ func (l *lexer) skipMultiLineComment() error {
 			l.appendToken("\n")
 		} else if c == "*" && l.char() == "/" {
 			l.next()
-			return nil
+			depth -= 1
+			if depth == 0 {
+				return nil
+			}
+		} else if c == "/" && l.char() == "*" && l.rdbms == common.PostgreSQL {
+			l.next()
+			depth += 1
 		}
 	}
 	return l.lexError()
-- 
2.43.0


From 61868c1f5587a37de36bc8edb5eaa7194fdc40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 07/40] fix: treat carriage return as whitespace

Every DDL with CRLF line ends was rejected.
---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 910f5b6..692ecbe 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -149,7 +149,7 @@ func (l *lexer) lex() error {
 		} else if c == "#" {
 			l.lexSharp(&token)
 
-		} else if c == " " || c == "\t"{
+		} else if c == " " || c == "\t" || c == "\r" {
 			l.lexSpace(&token)
 
 		} else if c == "\n" {
@@ -300,7 +300,7 @@ func (l *lexer) lexEOL(token *string) {
 
 func (l *lexer) lexSpace(token *string) {
 	c := l.char()
-	if c == " " || c == "\t" {
+	if c == " " || c == "\t" || c == "\r" {
 		l.appendToken(*token)
 		*token = ""
 	}
-- 
2.43.0


From 13c55cc0d4e4e95178fe9bb788a875e99631da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 08/40] fix: take other kinds of quotes inside quoted text
 literally

A quote of another kind started a nested string: 'x "y" z' lost the character
after the inner quote and "it's" was reported as unterminated.
---
 internal/lexer/lexer.go | 36 ------------------------------------
 1 file changed, 36 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 692ecbe..1e37278 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -371,18 +371,6 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -404,18 +392,6 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -437,18 +413,6 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
-- 
2.43.0


From d27d9ba2955a3922e3f2515f7ea98323ba9aa889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 09/40] fix: keep newlines inside quoted text

---
 internal/lexer/lexer.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 1e37278..4777fe9 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -371,9 +371,8 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
-		} else {
-			str += c
 		}
+		str += c
 		l.next()
 	}
 	return str, l.lexError()
@@ -391,10 +390,9 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 			l.appendToken("\n")
 		} else if c == "'" {
 			l.next()
-			return str + c, nil			
-		} else {
-			str += c
+			return str + c, nil
 		}
+		str += c
 		l.next()
 	}
 	return str, l.lexError()
@@ -412,10 +410,9 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 			l.appendToken("\n")
 		} else if c == "`" {
 			l.next()
-			return str + c, nil			
-		} else {
-			str += c
+			return str + c, nil
 		}
+		str += c
 		l.next()
 	}
 	return str, l.lexError()
-- 
2.43.0


From cd3d345da33f5cb6b33543d5007dee33d097fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 10/40] fix: support doubled quotes inside quoted text

DEFAULT 'it''s' and COMMENT 'it''s' were rejected as two adjacent strings.
---
 internal/converter/converter.go | 10 ++++++++--
 internal/lexer/lexer.go         | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..32a1a0a 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -175,13 +175,19 @@ func (c *converter) convertTableName() (string, string) {
 func (c *converter) convertName() string {
 	token := c.next()
 	if c.isIdentifier(token) {
-		return token[1 : len(token)-1]
+		return c.unquote(token)
 	} else {
 		return token
 	}
 }
 
 
+func (c *converter) unquote(token string) string {
+	quote := token[0:1]
+	return strings.ReplaceAll(token[1 : len(token)-1], quote + quote, quote)
+}
+
+
 func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstraint) {
 	c.next()
 	var columns []types.Column
@@ -351,7 +357,7 @@ func (c *converter) convertLiteralValue() interface{} {
 		return n
 	}
 	if c.isStringValue(token) {
-		return token[1 : len(token)-1]
+		return c.unquote(token)
 	}
 	if strings.ToUpper(token) == "NULL" {
 		return nil
diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 4777fe9..4dc8ce2 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -370,7 +370,10 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 			l.appendToken("\n")
 		} else if c == "\"" {
 			l.next()
-			return str + c, nil
+			if l.char() != c {
+				return str + c, nil
+			}
+			str += c
 		}
 		str += c
 		l.next()
@@ -390,7 +393,10 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 			l.appendToken("\n")
 		} else if c == "'" {
 			l.next()
-			return str + c, nil
+			if l.char() != c {
+				return str + c, nil
+			}
+			str += c
 		}
 		str += c
 		l.next()
@@ -410,7 +416,10 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 			l.appendToken("\n")
 		} else if c == "`" {
 			l.next()
-			return str + c, nil
+			if l.char() != c {
+				return str + c, nil
+			}
+			str += c
 		}
 		str += c
 		l.next()
-- 
2.43.0


From b44f1ce23f02afa383ef2a062978a77dc188c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:21 +0000
Subject: [PATCH 11/40] fix: read decimal numbers as one token

A fraction such as DEFAULT 0.5 was split at the point and rejected.
---
 internal/lexer/lexer.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 4dc8ce2..12e1f5d 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -1,6 +1,8 @@
 package lexer
 
 import (
+	"strings"
+
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -155,6 +157,10 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if c == "." && l.isDecimalPoint(token) {
+			token += c
+			l.next()
+
 		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
 			l.lexSymbol(&token)
 
@@ -321,6 +327,30 @@ func (l *lexer) lexSymbol(token *string) {
 }
 
 
+// isDecimalPoint reports whether the "." at the current position belongs to
+// the number that token is the beginning of (1.5, -1., .5).
+func (l *lexer) isDecimalPoint(token string) bool {
+	digits := strings.TrimLeft(token, "+-")
+	if len(token) - len(digits) > 1 {
+		return false
+	}
+	if digits == "" {
+		return l.i + 1 < l.size && isDigit(l.ddlr[l.i + 1])
+	}
+	for _, r := range digits {
+		if !isDigit(r) {
+			return false
+		}
+	}
+	return true
+}
+
+
+func isDigit(r rune) bool {
+	return '0' <= r && r <= '9'
+}
+
+
 func (l *lexer) skipComment() {
 	l.next()
 	for !l.isOutOfRange() {
-- 
2.43.0


From f95f3689f11619221d061e82db1205f01f4c21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:21 +0000
Subject: [PATCH 12/40] fix: accept options written without spaces around '='

ENGINE=InnoDB was read as one word and rejected.
---
 internal/lexer/lexer.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 12e1f5d..e9c1552 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -2,6 +2,7 @@ package lexer
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/kodaimura/ddlparse/internal/common"
 )
@@ -157,6 +158,9 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if c == "=" && l.isSingleEqual(token) {
+			l.lexSymbol(&token)
+
 		} else if c == "." && l.isDecimalPoint(token) {
 			token += c
 			l.next()
@@ -317,7 +321,7 @@ func (l *lexer) lexSpace(token *string) {
 
 func (l *lexer) lexSymbol(token *string) {
 	c := l.char()
-	if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+	if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 		l.appendToken(*token)
 		l.appendToken(c)
 		*token = ""
@@ -327,6 +331,21 @@ func (l *lexer) lexSymbol(token *string) {
 }
 
 
+// isSingleEqual reports whether the "=" at the current position is an operator
+// of its own, not part of a longer one such as ">=", "==" or "=>".
+func (l *lexer) isSingleEqual(token string) bool {
+	if l.i + 1 < l.size && strings.ContainsRune("=<>~!", l.ddlr[l.i + 1]) {
+		return false
+	}
+	if token == "" {
+		return true
+	}
+	r := []rune(token)
+	last := r[len(r) - 1]
+	return last == '_' || unicode.IsLetter(last) || unicode.IsDigit(last)
+}
+
+
 // isDecimalPoint reports whether the "." at the current position belongs to
 // the number that token is the beginning of (1.5, -1., .5).
 func (l *lexer) isDecimalPoint(token string) bool {
-- 
2.43.0


From 22b0ab0c70cbd64d80b8b4055c41fc0fd94ceec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:59 +0000
Subject: [PATCH 13/40] fix: match keywords in any letter case

Only all-upper and all-lower spellings were recognised, Create Table was not.
---
 internal/common/utils.go        | 11 +++++++++++
 internal/converter/converter.go |  6 +-----
 internal/validator/validator.go |  8 +-------
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/internal/common/utils.go b/internal/common/utils.go
index d823881..49af09e 100644
--- a/internal/common/utils.go
+++ b/internal/common/utils.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"strconv"
+	"strings"
 )
 
 func Filter(slice []string, f func(string) bool) []string {
@@ -31,6 +32,16 @@ func Contains(slice []string, key string) bool {
 	return false
 }
 
+// ContainsKeyword is Contains for ASCII keywords in any letter case.
+func ContainsKeyword(keywords []string, token string) bool {
+	for _, s := range keywords {
+		if len(s) == len(token) && strings.EqualFold(s, token) {
+			return true
+		}
+	}
+	return false
+}
+
 func Remove(slice []string, element string) []string {
     var ret []string
 
diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 32a1a0a..2cbceef 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -80,11 +80,7 @@ func (c *converter) next() string {
 
 
 func (c *converter) matchToken(keywords ...string) bool {
-	return common.Contains(
-		append(
-			common.MapSlice(keywords, strings.ToLower), 
-			common.MapSlice(keywords, strings.ToUpper)...,
-		), c.token())
+	return common.ContainsKeyword(keywords, c.token())
 }
 
 
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c475cc3..1436d06 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -1,8 +1,6 @@
 package validator
 
 import (
-	"strings"
-
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -98,11 +96,7 @@ func (v *validator) syntaxError() error {
 
 
 func (v *validator) matchToken(keywords ...string) bool {
-	return common.Contains(
-		append(
-			common.MapSlice(keywords, strings.ToLower), 
-			common.MapSlice(keywords, strings.ToUpper)...,
-		), v.token())
+	return common.ContainsKeyword(keywords, v.token())
 }
 
 
-- 
2.43.0


From e44ae7341f6771c8e2d7b5335fc94bd77ba9f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 14/40] fix: drop MySQL index definitions completely

The closing parenthesis of INDEX and the name of FULLTEXT / SPATIAL indexes
reached the converter, which lost the following columns or never returned.
---
 internal/validator/validator_mysql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 1ec885bd6a3d91e6d9c0693483a4a62a387058c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 15/40] fix: skip dropped table constraints that come first

An index or EXCLUDE before the first column produced a column named ','.
---
 internal/converter/converter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 2cbceef..2a84528 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -189,6 +189,11 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			// the definition before this comma was dropped by the validator
+			c.next()
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
-- 
2.43.0


From df72d0fa3f5be05cd59c4c1ad528b7df78b158c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 16/40] fix: keep NOT NULL that follows CHECK in MySQL

NOT was swallowed as the beginning of NOT ENFORCED.
---
 internal/validator/validator.go       | 13 +++++++++++++
 internal/validator/validator_mysql.go |  7 ++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 1436d06..4a84e92 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -100,6 +100,19 @@ func (v *validator) matchToken(keywords ...string) bool {
 }
 
 
+// isNotNull reports whether the current tokens are NOT NULL.
+func (v *validator) isNotNull() bool {
+	if !v.matchToken("NOT") {
+		return false
+	}
+	i, line := v.i, v.line
+	v.next()
+	isNull := v.matchToken("NULL")
+	v.i, v.line = i, line
+	return isNull
+}
+
+
 func (v *validator) matchTokenNext(set bool, keywords ...string) bool {
 	if v.matchToken(keywords...) {
 		if set {
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..02f17d2 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -555,7 +555,12 @@ func (v *mysqlValidator) validateConstraintCheck() error {
 	if err := v.validateExpr(true); err != nil {
 		return err
 	}
-	v.matchTokenNext(false, "NOT")
+	if v.isNotNull() {
+		return nil
+	}
+	if v.matchTokenNext(false, "NOT") {
+		return v.validateToken(false, "ENFORCED")
+	}
 	v.matchTokenNext(false, "ENFORCED")
 	return nil
 }
-- 
2.43.0


From 0bce6f195310f470094aa420006f8347d19b096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 17/40] fix: accept NOT NULL after REFERENCES in SQLite

NOT was taken for the beginning of NOT DEFERRABLE.
---
 internal/validator/validator_sqlite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..d2aae86 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -448,7 +448,7 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 		return v.validateConstraintReferencesAux()
 	}
 
-	if v.matchToken("NOT", "DEFERRABLE") {
+	if v.matchToken("NOT", "DEFERRABLE") && !v.isNotNull() {
 		v.matchTokenNext(false, "NOT")
 		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 			return err
-- 
2.43.0


From 0db8a18ff64b07a73b917e787a426de5dd573c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:02 +0000
Subject: [PATCH 18/40] fix: convert references to schema-qualified tables

The schema was reported as the table name and the rest was misread.
---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 2a84528..24fef12 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -376,7 +376,7 @@ func (c *converter) convertLiteralValue() interface{} {
 func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
-	reference.TableName = c.convertName()
+	_, reference.TableName = c.convertTableName()
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From 5e81750c42d4b660f136359e848b666c2af40280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 19/40] fix: do not take the words inf and nan for numbers

---
 internal/common/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/common/utils.go b/internal/common/utils.go
index 49af09e..cc026cd 100644
--- a/internal/common/utils.go
+++ b/internal/common/utils.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"math"
 	"strconv"
 	"strings"
 )
@@ -63,6 +64,6 @@ func IsPositiveIntegerToken(token string) bool {
 }
 
 func IsNumericToken(token string) bool {
-	_, err := strconv.ParseFloat(token, 64)
-	return err == nil
+	n, err := strconv.ParseFloat(token, 64)
+	return err == nil && !math.IsInf(n, 0) && !math.IsNaN(n)
 }
\ No newline at end of file
-- 
2.43.0


From 712e071c78d4162b50dc73a49557f56c902cfbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 20/40] fix: keep the words of an expression apart

CHECK (a IS NOT NULL) was reported as (aISNOTNULL).
---
 internal/converter/converter.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 24fef12..815f1f1 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -1,8 +1,10 @@
 package converter
 
 import (
+	"regexp"
 	"strings"
 	"strconv"
+	"unicode"
 
 	"github.com/kodaimura/ddlparse/internal/types"
 	"github.com/kodaimura/ddlparse/internal/common"
@@ -347,7 +349,35 @@ func (c *converter) convertExprAux() string {
 	if c.matchToken("(") {
 		return c.convertExpr() + c.convertExprAux()
 	}
-	return c.next() + c.convertExprAux()
+	token := c.next()
+	return token + c.exprSeparator(token, c.token()) + c.convertExprAux()
+}
+
+
+// exprSeparator returns what must stand between two tokens of an expression
+// so that they stay two tokens.
+func (c *converter) exprSeparator(token, next string) string {
+	symbols := []string{"(", ")", ",", ".", ";"}
+	if common.Contains(symbols, token) || common.Contains(symbols, next) {
+		return ""
+	}
+	last := []rune(token)[len([]rune(token))-1]
+	first := []rune(next)[0]
+	if isWordRune(last) != isWordRune(first) {
+		return ""
+	}
+	if (first == '\'' || first == '"') && literalPrefix.MatchString(token) {
+		return "" // x'ff', N'text', ...
+	}
+	return " "
+}
+
+
+var literalPrefix = regexp.MustCompile(`(?i)(^|[^a-z0-9_])([xbne]|u&)$`)
+
+
+func isWordRune(r rune) bool {
+	return unicode.IsLetter(r) || unicode.IsDigit(r) || strings.ContainsRune("_.'\"`", r)
 }
 
 
-- 
2.43.0


From 5c8773c9037b02009fb4f984e1ba255f8fc8fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:07 +0000
Subject: [PATCH 21/40] fix: accept UNIQUE USING without an index name in MySQL

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 02f17d2..7ddfb3e 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -801,7 +801,7 @@ func (v *mysqlValidator) validateTableConstraintUnique() error {
 		return err
 	}
 	v.matchTokenNext(false, "INDEX", "KEY")
-	if !v.matchToken("(") {
+	if !v.matchToken("USING", "(") {
 		if err := v.validateName(false); err != nil {
 			return err
 		}
-- 
2.43.0


From 0246cd2588db5081a2c84692dfca47bc595b7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 22/40] fix: make the final semicolon optional in SQLite

The README documents it as optional.
---
 internal/validator/validator_sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index d2aae86..41a0e3e 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -137,6 +137,9 @@ func (v *sqliteValidator) validateCreateTable() error {
 	if err := v.validateTableDefinition(); err != nil {
 		return err
 	}
+	if v.isOutOfRange() {
+		return nil
+	}
 	if err := v.validateToken(true, ";"); err != nil {
 		return err
 	}
-- 
2.43.0


From 060f4dc0e55ecb7b3ee0ace152cd5b55aa36715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 23/40] fix: accept any name after MATCH in SQLite

The README documents MATCH name.
---
 internal/validator/validator_sqlite.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 41a0e3e..91f2ed1 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -445,8 +445,10 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 	}
 
 	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
-			return err
+		if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
+			if err := v.validateName(false); err != nil {
+				return err
+			}
 		}
 		return v.validateConstraintReferencesAux()
 	}
-- 
2.43.0


From 3aa0a315b43861d4f4f93e343749469b602e12ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 24/40] fix: do not mistake a column constraint's name for a
 constraint

Only CHECK may follow CONSTRAINT directly; a constraint named auto_increment
set the auto-increment flag in SQLite and PostgreSQL.
---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 815f1f1..301efe9 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -263,7 +263,7 @@ func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
 	if c.matchToken("CONSTRAINT") {
 		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "AUTOINCREMENT", "AUTO_INCREMENT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
+		if !c.matchToken("CHECK") {
 			constraint.Name = c.convertName()
 		}
 	}
-- 
2.43.0


From f9155bfc069dd46e6216ef284da766895c015d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 25/40] fix: spell the reserved word INFILE

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 7ddfb3e..7989467 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -1320,7 +1320,7 @@ var ReservedWords_MySQL = []string{
 	"IGNORE",
 	"IN",
 	"INDEX",
-	"INFILEx",
+	"INFILE",
 	"INNER",
 	"INOUT",
 	"INSENSITIVE",
-- 
2.43.0


From 0bc2107437931e23e1be9563ef6a981908e67bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 26/40] fix: skip CREATE UNIQUE INDEX in PostgreSQL

---
 internal/validator/validator_postgresql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0461cd3..af20719 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -153,6 +153,7 @@ func (v *postgresqlValidator) validateCreateOther() error {
 		"PROCEDURE", "TYPE", "AGGREGATE", "SCHEMA", "ROLE", "USER", "GROUP",
 		"TABLESPACE", "EXTENSION", "DATABASE", "LANGUAGE", "FOREIGN", "DOMAIN",
 		"SERVER", "FOREIGN", "CONVERSION", "RULE", "COLLATION", "POLICY", "OPERATOR",
+		"UNIQUE",
 	); err != nil {
 		return err
 	}
-- 
2.43.0


From 465c133d44e0a73a0672c3b28ae51df41bb89c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:44 +0000
Subject: [PATCH 27/40] fix: find the end of statements with nested blocks or
 CASE

The first END was taken for the end of the BEGIN block, so that a trigger with
CASE ... END or a procedure with END IF ended the parse with an error.
---
 internal/validator/validator.go            | 22 ++++++++++++++++++++
 internal/validator/validator_mysql.go      | 24 +---------------------
 internal/validator/validator_postgresql.go | 24 +---------------------
 internal/validator/validator_sqlite.go     | 24 +---------------------
 4 files changed, 25 insertions(+), 69 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 4a84e92..9205a9f 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -142,6 +142,28 @@ func (v *validator) validateToken(set bool, keywords ...string) error {
 }
 
 
+// skipStatement skips the rest of a statement including its ";".
+// Semicolons inside BEGIN ... END do not end the statement.
+func (v *validator) skipStatement() error {
+	depth := 0
+	for !v.isOutOfRange() {
+		if v.matchTokenNext(false, "BEGIN", "CASE") {
+			depth += 1
+		} else if v.matchTokenNext(false, "END") {
+			if !v.matchTokenNext(false, "IF", "LOOP", "WHILE", "REPEAT") && depth > 0 {
+				depth -= 1
+				v.matchTokenNext(false, "CASE") // END CASE
+			}
+		} else if depth == 0 && v.matchToken(";") {
+			break
+		} else {
+			v.next()
+		}
+	}
+	return v.validateToken(false, ";")
+}
+
+
 func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 7989467..de14201 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -265,29 +265,7 @@ func (v *mysqlValidator) validateCreateOther() error {
 	); err != nil {
 		return err
 	}
-	begin := false
-	for true {
-		if v.isOutOfRange() {
-			return v.syntaxError()
-		}
-		if v.matchToken("BEGIN") {
-			begin = true
-		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
-			}
-		} else {
-			if v.matchToken(";") {
-				break
-			}
-		}
-		v.next()
-	}
-	if err := v.validateToken(false, ";"); err != nil {
-		return err
-	}
-	return nil
+	return v.skipStatement()
 }
 
 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index af20719..56d5d30 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -157,29 +157,7 @@ func (v *postgresqlValidator) validateCreateOther() error {
 	); err != nil {
 		return err
 	}
-	begin := false
-	for true {
-		if v.isOutOfRange() {
-			return v.syntaxError()
-		}
-		if v.matchToken("BEGIN") {
-			begin = true
-		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
-			}
-		} else {
-			if v.matchToken(";") {
-				break
-			}
-		}
-		v.next()
-	}
-	if err := v.validateToken(false, ";"); err != nil {
-		return err
-	}
-	return nil
+	return v.skipStatement()
 }
 
 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 91f2ed1..5bc658b 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -151,29 +151,7 @@ func (v *sqliteValidator) validateCreateOther() error {
 	if err := v.validateToken(false, "VIRTUAL", "VIEW", "TRIGGER", "INDEX", "UNIQUE"); err != nil {
 		return err
 	}
-	begin := false
-	for true {
-		if v.isOutOfRange() {
-			return v.syntaxError()
-		}
-		if v.matchToken("BEGIN") {
-			begin = true
-		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
-			}
-		} else {
-			if v.matchToken(";") {
-				break
-			}
-		}
-		v.next()
-	}
-	if err := v.validateToken(false, ";"); err != nil {
-		return err
-	}
-	return nil
+	return v.skipStatement()
 }
 
 
-- 
2.43.0


From 5b6d23d37ac351d0a9372637b05f546b15d55019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 28/40] fix: read dollar-quoted strings in PostgreSQL

The semicolons and quotes of a function body written between $$ ended the
statement.
---
 internal/converter/converter.go |  2 +-
 internal/lexer/lexer.go         | 42 +++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 301efe9..9c00b8d 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -377,7 +377,7 @@ var literalPrefix = regexp.MustCompile(`(?i)(^|[^a-z0-9_])([xbne]|u&)$`)
 
 
 func isWordRune(r rune) bool {
-	return unicode.IsLetter(r) || unicode.IsDigit(r) || strings.ContainsRune("_.'\"`", r)
+	return unicode.IsLetter(r) || unicode.IsDigit(r) || strings.ContainsRune("_.$'\"`", r)
 }
 
 
diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index e9c1552..5bacc60 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -149,6 +149,10 @@ func (l *lexer) lex() error {
 			if err := l.lexBackQuote(&token); err != nil {
 				return err
 			}
+		} else if tag := l.dollarTag(token); tag != "" {
+			if err := l.lexDollarQuote(tag); err != nil {
+				return err
+			}
 		} else if c == "#" {
 			l.lexSharp(&token)
 
@@ -279,6 +283,44 @@ func (l *lexer) lexBackQuote(token *string) error {
 }
 
 
+// dollarTag returns the opening tag ($$, $body$) of the dollar-quoted string
+// at the current position, or "" if there is none.
+func (l *lexer) dollarTag(token string) string {
+	if l.rdbms != common.PostgreSQL || token != "" || l.char() != "$" {
+		return ""
+	}
+	for j := l.i + 1; j < l.size; j++ {
+		r := l.ddlr[j]
+		if r == '$' {
+			return string(l.ddlr[l.i : j + 1])
+		}
+		if r != '_' && !unicode.IsLetter(r) && !(unicode.IsDigit(r) && j > l.i + 1) {
+			break
+		}
+	}
+	return ""
+}
+
+
+func (l *lexer) lexDollarQuote(tag string) error {
+	size := len([]rune(tag))
+	start := l.i
+	l.i += size
+	for !l.isOutOfRange() {
+		if l.i + size <= l.size && string(l.ddlr[l.i : l.i + size]) == tag {
+			l.i += size
+			l.appendToken(string(l.ddlr[start : l.i]))
+			return nil
+		}
+		if l.next() == "\n" {
+			l.line += 1
+			l.appendToken("\n")
+		}
+	}
+	return l.lexError()
+}
+
+
 func (l *lexer) lexSharp(token *string) {
 	c := l.char()
 	if c == "#" {
-- 
2.43.0


From 639f51eb06942ebf58ec4150ff8a3a5fbeae9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:24 +0000
Subject: [PATCH 29/40] fix: accept CONSTRAINT name before every column
 constraint

Only the first constraint of a column could be named. The first name is
reported when there are several.
---
 internal/converter/converter.go            | 17 +++++++++++------
 internal/validator/validator_mysql.go      | 14 +++++++-------
 internal/validator/validator_postgresql.go | 10 +++++-----
 internal/validator/validator_sqlite.go     | 10 +++++-----
 4 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 9c00b8d..184db49 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -261,12 +261,6 @@ func (c *converter) convertTypeDigit() (int, int) {
 
 func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
-	if c.matchToken("CONSTRAINT") {
-		c.next() // skip "CONSTRAINT"
-		if !c.matchToken("CHECK") {
-			constraint.Name = c.convertName()
-		}
-	}
 	c.convertConstraintAux(&constraint)
 	return constraint
 }
@@ -276,6 +270,17 @@ func (c *converter) convertConstraintAux(constraint *types.Constraint) {
 	if c.matchToken(",", ")") {
 		return
 	}
+	if c.matchToken("CONSTRAINT") {
+		c.next() // skip "CONSTRAINT"
+		if !c.matchToken("CHECK") {
+			name := c.convertName()
+			if constraint.Name == "" {
+				constraint.Name = name
+			}
+		}
+		c.convertConstraintAux(constraint)
+		return
+	}
 	if c.matchToken("PRIMARY") {
 		c.next() // skip "PRIMARY"
 		c.next() // skip "KEY"
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index de14201..557275b 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -376,13 +376,6 @@ func (v *mysqlValidator) validateColumnType() error {
 
 
 func (v *mysqlValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if !v.matchToken("CHECK") {
-			if err := v.validateName(true); err != nil {
-				return err
-			}
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
@@ -397,6 +390,13 @@ func (v *mysqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *mysqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if !v.matchToken("CHECK") {
+			if err := v.validateName(true); err != nil {
+				return err
+			}
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 56d5d30..e785405 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -322,11 +322,6 @@ func (v *postgresqlValidator) validatePositiveInteger() error {
 
 
 func (v *postgresqlValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if err := v.validateName(true); err != nil {
-			return err
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
@@ -340,6 +335,11 @@ func (v *postgresqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *postgresqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if err := v.validateName(true); err != nil {
+			return err
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 5bc658b..66c23d4 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -221,16 +221,16 @@ func (v *sqliteValidator) validateColumnType() error {
 
 
 func (v *sqliteValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if err := v.validateName(true); err != nil {
-			return err
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
 
 func (v *sqliteValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if err := v.validateName(true); err != nil {
+			return err
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
-- 
2.43.0


From ca7cb8b1f37351f05416cdca06f64ee07f9b8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:01 +0000
Subject: [PATCH 30/40] fix: see CASE and END next to an operator when skipping
 a statement

---
 internal/validator/validator.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 9205a9f..052c917 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -1,6 +1,8 @@
 package validator
 
 import (
+	"strings"
+
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -147,9 +149,12 @@ func (v *validator) validateToken(set bool, keywords ...string) error {
 func (v *validator) skipStatement() error {
 	depth := 0
 	for !v.isOutOfRange() {
-		if v.matchTokenNext(false, "BEGIN", "CASE") {
+		word := v.blockWord()
+		if common.ContainsKeyword([]string{"BEGIN", "CASE"}, word) {
+			v.next()
 			depth += 1
-		} else if v.matchTokenNext(false, "END") {
+		} else if common.ContainsKeyword([]string{"END"}, word) {
+			v.next()
 			if !v.matchTokenNext(false, "IF", "LOOP", "WHILE", "REPEAT") && depth > 0 {
 				depth -= 1
 				v.matchTokenNext(false, "CASE") // END CASE
@@ -164,6 +169,22 @@ func (v *validator) skipStatement() error {
 }
 
 
+// blockWord returns the current token without operators that are written
+// directly before or after it, such as CASE for "1+CASE" and END for "END||".
+func (v *validator) blockWord() string {
+	words := strings.FieldsFunc(v.token(), func(r rune) bool {
+		return strings.ContainsRune("+-*/%<>=!|&^~:", r)
+	})
+	if len(words) == 0 {
+		return v.token()
+	}
+	if common.ContainsKeyword([]string{"END"}, words[0]) {
+		return words[0]
+	}
+	return words[len(words) - 1]
+}
+
+
 func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
-- 
2.43.0


From 4b92f5aa860b751e476c783dbaebb61ec268057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 31/40] fix: see every CASE and END of a token when skipping a
 statement

A token such as END<>CASE holds two block words, and END<> followed by
CASE is not END CASE.
---
 internal/validator/validator.go | 43 ++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 052c917..6f1d506 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,39 +149,38 @@ func (v *validator) validateToken(set bool, keywords ...string) error {
 func (v *validator) skipStatement() error {
 	depth := 0
 	for !v.isOutOfRange() {
-		word := v.blockWord()
-		if common.ContainsKeyword([]string{"BEGIN", "CASE"}, word) {
-			v.next()
-			depth += 1
-		} else if common.ContainsKeyword([]string{"END"}, word) {
-			v.next()
+		if depth == 0 && v.matchToken(";") {
+			break
+		}
+		if v.matchTokenNext(false, "END") {
 			if !v.matchTokenNext(false, "IF", "LOOP", "WHILE", "REPEAT") && depth > 0 {
 				depth -= 1
 				v.matchTokenNext(false, "CASE") // END CASE
 			}
-		} else if depth == 0 && v.matchToken(";") {
-			break
-		} else {
-			v.next()
+			continue
+		}
+		for _, word := range splitOperators(v.next()) {
+			if common.ContainsKeyword([]string{"BEGIN", "CASE"}, word) {
+				depth += 1
+			} else if common.ContainsKeyword([]string{"END"}, word) && depth > 0 {
+				depth -= 1
+			}
 		}
 	}
 	return v.validateToken(false, ";")
 }
 
 
-// blockWord returns the current token without operators that are written
-// directly before or after it, such as CASE for "1+CASE" and END for "END||".
-func (v *validator) blockWord() string {
-	words := strings.FieldsFunc(v.token(), func(r rune) bool {
-		return strings.ContainsRune("+-*/%<>=!|&^~:", r)
-	})
-	if len(words) == 0 {
-		return v.token()
-	}
-	if common.ContainsKeyword([]string{"END"}, words[0]) {
-		return words[0]
+// splitOperators returns the words of a token that has operators written
+// directly between them, such as "1" and "CASE" for "1+CASE".
+// Quoted text has no operators.
+func splitOperators(token string) []string {
+	if strings.ContainsAny(token[:1], "'\"`$") {
+		return []string{token}
 	}
-	return words[len(words) - 1]
+	return strings.FieldsFunc(token, func(r rune) bool {
+		return strings.ContainsRune("+-*/%<>=!|&^~:@#?", r)
+	})
 }
 
 
-- 
2.43.0


From 8d0d07615e83439e90df0d4a1f07529ad1d9efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:59 +0000
Subject: [PATCH 32/40] fix: keep a decimal number whole after an operator
 without spaces

CHECK (a>1. AND b) was reported as (a>1.AND b), (0.=0. AND b) likewise.
---
 internal/lexer/lexer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 5bacc60..3846c31 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -384,17 +384,14 @@ func (l *lexer) isSingleEqual(token string) bool {
 	}
 	r := []rune(token)
 	last := r[len(r) - 1]
-	return last == '_' || unicode.IsLetter(last) || unicode.IsDigit(last)
+	return last == '_' || last == '.' || unicode.IsLetter(last) || unicode.IsDigit(last)
 }
 
 
 // isDecimalPoint reports whether the "." at the current position belongs to
-// the number that token is the beginning of (1.5, -1., .5).
+// the number that token ends with the beginning of (1.5, -1., .5, a>1.5).
 func (l *lexer) isDecimalPoint(token string) bool {
-	digits := strings.TrimLeft(token, "+-")
-	if len(token) - len(digits) > 1 {
-		return false
-	}
+	digits := token[strings.LastIndexAny(token, "+-*/%<>=!|&^~:@#?") + 1:]
 	if digits == "" {
 		return l.i + 1 < l.size && isDigit(l.ddlr[l.i + 1])
 	}
-- 
2.43.0


From 3270c6f92bd8e0185cc08d5ed9a452a4b99046cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:44 +0000
Subject: [PATCH 33/40] fix: read backslash escapes in MySQL strings

'it\'s' ended at the escaped quote, so the script was rejected or misread.
---
 internal/converter/converter.go | 31 ++++++++++++++++++++++++++++++-
 internal/lexer/lexer.go         |  8 ++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 184db49..91252c9 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -186,6 +186,35 @@ func (c *converter) unquote(token string) string {
 }
 
 
+// mysqlEscapes are the backslash escapes of MySQL that stand for another
+// character than the one after the backslash.
+var mysqlEscapes = map[string]string{
+	`\0`: "\x00", `\b`: "\b", `\n`: "\n", `\r`: "\r", `\t`: "\t", `\Z`: "\x1a", `\%`: `\%`, `\_`: `\_`,
+}
+
+var mysqlEscaped = regexp.MustCompile(`(?s)\\.|''|""`)
+
+
+func (c *converter) convertString(token string) string {
+	if c.rdbms != common.MySQL {
+		return c.unquote(token)
+	}
+	quote := token[0:1]
+	return mysqlEscaped.ReplaceAllStringFunc(token[1 : len(token)-1], func(s string) string {
+		if s == quote + quote {
+			return quote
+		}
+		if s[0] != '\\' {
+			return s
+		}
+		if char, ok := mysqlEscapes[s]; ok {
+			return char
+		}
+		return s[1:]
+	})
+}
+
+
 func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstraint) {
 	c.next()
 	var columns []types.Column
@@ -393,7 +422,7 @@ func (c *converter) convertLiteralValue() interface{} {
 		return n
 	}
 	if c.isStringValue(token) {
-		return c.unquote(token)
+		return c.convertString(token)
 	}
 	if strings.ToUpper(token) == "NULL" {
 		return nil
diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 3846c31..22bd66f 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -451,18 +451,20 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 	l.next()
 	str := "\""
 	c := ""
+	escaped := false
 	for !l.isOutOfRange() {
 		c = l.char()
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "\"" {
+		} else if c == "\"" && !escaped {
 			l.next()
 			if l.char() != c {
 				return str + c, nil
 			}
 			str += c
 		}
+		escaped = c == "\\" && !escaped && l.rdbms == common.MySQL
 		str += c
 		l.next()
 	}
@@ -474,18 +476,20 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 	l.next()
 	str := "'"
 	c := ""
+	escaped := false
 	for !l.isOutOfRange() {
 		c = l.char()
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "'" {
+		} else if c == "'" && !escaped {
 			l.next()
 			if l.char() != c {
 				return str + c, nil
 			}
 			str += c
 		}
+		escaped = c == "\\" && !escaped && l.rdbms == common.MySQL
 		str += c
 		l.next()
 	}
-- 
2.43.0


From 309f86cdae54d08857c4c420904be35e666c69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:38 +0000
Subject: [PATCH 34/40] fix: take * before a comment for an operator

---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 22bd66f..13931c3 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -224,7 +224,7 @@ func (l *lexer) lexAsterisk(token *string) error {
 	c := l.char()
 	if c == "*" {
 		l.next()
-		if l.char() == "/" {
+		if l.char() == "/" && !(l.i + 1 < l.size && l.ddlr[l.i + 1] == '*') {
 			l.i -= 1
 			return l.lexError()
 		} else {
-- 
2.43.0


From 13abcd9c431c2b4b466f3346fee7c822f089078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:03 +0000
Subject: [PATCH 35/40] fix: read brackets and expressions of any depth without
 overflowing the stack

---
 internal/converter/converter.go | 25 ++++++++++----------
 internal/validator/validator.go | 41 +++++++++++----------------------
 2 files changed, 27 insertions(+), 39 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 91252c9..c65b71a 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -372,19 +372,20 @@ func (c *converter) convertDefaultValue() interface{} {
 
 
 func (c *converter) convertExpr() string {
-	return c.next() + c.convertExprAux() + c.next()
-}
-
-
-func (c *converter) convertExprAux() string {
-	if c.matchToken(")") {
-		return ""
-	}
-	if c.matchToken("(") {
-		return c.convertExpr() + c.convertExprAux()
+	var expr strings.Builder
+	for depth := 0; ; {
+		if c.matchToken("(") {
+			depth += 1
+		} else if c.matchToken(")") {
+			depth -= 1
+		}
+		token := c.next()
+		expr.WriteString(token)
+		if depth == 0 {
+			return expr.String()
+		}
+		expr.WriteString(c.exprSeparator(token, c.token()))
 	}
-	token := c.next()
-	return token + c.exprSeparator(token, c.token()) + c.convertExprAux()
 }
 
 
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 6f1d506..e2ab016 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -188,33 +188,20 @@ func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
 	}
-	if err := v.validateBracketsAux(set); err != nil {
-		return err
-	}
-	if err := v.validateToken(set, ")"); err != nil {
-		return err
+	for depth := 1; depth > 0; {
+		if v.isOutOfRange() {
+			return v.syntaxError()
+		}
+		if v.matchToken("(") {
+			depth += 1
+		} else if v.matchToken(")") {
+			depth -= 1
+		}
+		if set {
+			v.set(v.next())
+		} else {
+			v.next()
+		}
 	}
 	return nil
 }
-
-
-func (v *validator) validateBracketsAux(set bool) error {
-	if v.isOutOfRange() {
-		return v.syntaxError()
-	}
-	if v.matchToken(")") {
-		return nil
-	}
-	if v.matchToken("(") {
-		if err := v.validateBrackets(set); err != nil {
-			return err
-		}
-		return v.validateBracketsAux(set)
-	}
-	if set {
-		v.set(v.next())
-	} else {
-		v.next()
-	}
-	return v.validateBracketsAux(set)
-}
\ No newline at end of file
-- 
2.43.0


From 5af9f2b8fe408db02ccca2ab0428faa9d588cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:04 +0000
Subject: [PATCH 36/40] fix: read any number of statements without overflowing
 the stack

---
 internal/converter/converter.go            |  5 +----
 internal/validator/validator_mysql.go      | 11 +++++------
 internal/validator/validator_postgresql.go | 11 +++++------
 internal/validator/validator_sqlite.go     | 11 +++++------
 4 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index c65b71a..d32e16b 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -115,13 +115,10 @@ func (c *converter) isStringValue(token string) bool {
 
 
 func (c *converter) convert() {
-	if c.isOutOfRange() {
-		return
-	} else {
+	for !c.isOutOfRange() {
 		table := c.convertTable()
 		c.result = append(c.result, table)
 	}
-	c.convert()
 }
 
 
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 557275b..3f37518 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -26,13 +26,12 @@ func (v *mysqlValidator) Validate(tokens []string) ([]string, error) {
 
 
 func (v *mysqlValidator) validate() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if err := v.validateDdl(); err != nil {
-		return err
+	for !v.isOutOfRange() {
+		if err := v.validateDdl(); err != nil {
+			return err
+		}
 	}
-	return v.validate()
+	return nil
 }
 
 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index e785405..ca32cf2 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -26,13 +26,12 @@ func (v *postgresqlValidator) Validate(tokens []string) ([]string, error) {
 
 
 func (v *postgresqlValidator) validate() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if err := v.validateDdl(); err != nil {
-		return err
+	for !v.isOutOfRange() {
+		if err := v.validateDdl(); err != nil {
+			return err
+		}
 	}
-	return v.validate()
+	return nil
 }
 
 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 66c23d4..9921f2f 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -26,13 +26,12 @@ func (v *sqliteValidator) Validate(tokens []string) ([]string, error) {
 
 
 func (v *sqliteValidator) validate() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if err := v.validateDdl(); err != nil {
-		return err
+	for !v.isOutOfRange() {
+		if err := v.validateDdl(); err != nil {
+			return err
+		}
 	}
-	return v.validate()
+	return nil
 }
 
 
-- 
2.43.0


From 79b8a2036e4903ebe701db1172e053d30cb56d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:38 +0000
Subject: [PATCH 37/40] fix: read lists of any length without overflowing the
 stack

---
 internal/converter/converter.go            |  4 +-
 internal/validator/validator_mysql.go      | 68 ++++++++++++----------
 internal/validator/validator_postgresql.go | 26 +++++----
 internal/validator/validator_sqlite.go     | 26 +++++----
 4 files changed, 66 insertions(+), 58 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d32e16b..bd4ab37 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -74,8 +74,8 @@ func (c *converter) next() string {
 	}
 	token := c.token()
 	c.i += 1
-	if token == "," && c.token() == "," {
-		return c.next()
+	for token == "," && c.token() == "," {
+		c.i += 1
 	}
 	return token
 }
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 3f37518..fde03ba 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -199,23 +199,24 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 }
 
 func (v *mysqlValidator) validateIndexKeysAux(set bool) error {
-	if v.matchToken("(") {
-		if err := v.validateExpr(false); err != nil {
-			return err
-		}
-	} else {
-		if err := v.validateName(set); err != nil {
-			return err
+	for {
+		if v.matchToken("(") {
+			if err := v.validateExpr(false); err != nil {
+				return err
+			}
+		} else {
+			if err := v.validateName(set); err != nil {
+				return err
+			}
+			if err := v.validateTypeDigitN(false); err != nil {
+				return err
+			}
 		}
-		if err := v.validateTypeDigitN(false); err != nil {
-			return err
+		v.matchTokenNext(false, "ASC", "DESC")
+		if !v.matchTokenNext(set, ",") {
+			return nil
 		}
 	}
-	v.matchTokenNext(false, "ASC", "DESC")
-	if v.matchTokenNext(set, ",") {
-		return v.validateIndexKeysAux(set)
-	}
-	return nil
 }
 
 
@@ -299,13 +300,14 @@ func (v *mysqlValidator) validateTableDefinition() error {
 
 
 func (v *mysqlValidator) validateColumnDefinitions() error {
-	if err := v.validateColumnDefinition(); err != nil {
-		return err
-	}
-	if v.matchTokenNext(true, ",") {
-		return v.validateColumnDefinitions()
+	for {
+		if err := v.validateColumnDefinition(); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(true, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -920,24 +922,26 @@ func (v *mysqlValidator) validateIndexOption() error {
 
 
 func (v *mysqlValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
 func (v *mysqlValidator) validateCommaSeparatedTableNames(set bool) error {
-	if err := v.validateTableName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedTableNames(set)
+	for {
+		if err := v.validateTableName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index ca32cf2..405c7f4 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -98,13 +98,14 @@ func (v *postgresqlValidator) validateExpr(set bool) error {
 
 
 func (v *postgresqlValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -191,13 +192,14 @@ func (v *postgresqlValidator) validateTableDefinition() error {
 
 
 func (v *postgresqlValidator) validateColumnDefinitions() error {
-	if err := v.validateColumnDefinition(); err != nil {
-		return err
-	}
-	if v.matchTokenNext(true, ",") {
-		return v.validateColumnDefinitions()
+	for {
+		if err := v.validateColumnDefinition(); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(true, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 9921f2f..35653cb 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -89,13 +89,14 @@ func (v *sqliteValidator) validateColumnName(set bool) error {
 
 
 func (v *sqliteValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -185,13 +186,14 @@ func (v *sqliteValidator) validateTableDefinition() error {
 
 
 func (v *sqliteValidator) validateColumnDefinitions() error {
-	if err := v.validateColumnDefinition(); err != nil {
-		return err
-	}
-	if v.matchTokenNext(true, ",") {
-		return v.validateColumnDefinitions()
+	for {
+		if err := v.validateColumnDefinition(); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(true, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
-- 
2.43.0


From f1e06b664f794e7fe67a74474853f53cff7bf980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:37 +0000
Subject: [PATCH 38/40] fix: keep every comma of an expression

CHECK (f(x,,y)) was reported as (f(x,y)). Definitions that the validator
drops are already handled in convertTableDefinition.
---
 internal/converter/converter.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index bd4ab37..523a75c 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -74,9 +74,6 @@ func (c *converter) next() string {
 	}
 	token := c.token()
 	c.i += 1
-	for token == "," && c.token() == "," {
-		c.i += 1
-	}
 	return token
 }
 
-- 
2.43.0


From b57733914404f38001b1ce703c84b63ef911efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:49 +0000
Subject: [PATCH 39/40] fix: take a keyword after "." for a name in skipped
 statements

NEW.end or t.case in the body of a trigger was counted as the end or the
start of a block.
---
 internal/validator/validator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index e2ab016..80ac0f3 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -148,18 +148,25 @@ func (v *validator) validateToken(set bool, keywords ...string) error {
 // Semicolons inside BEGIN ... END do not end the statement.
 func (v *validator) skipStatement() error {
 	depth := 0
+	qualified := false // after a "." follows a name, even if it is a keyword
 	for !v.isOutOfRange() {
 		if depth == 0 && v.matchToken(";") {
 			break
 		}
-		if v.matchTokenNext(false, "END") {
+		if !qualified && v.matchTokenNext(false, "END") {
 			if !v.matchTokenNext(false, "IF", "LOOP", "WHILE", "REPEAT") && depth > 0 {
 				depth -= 1
 				v.matchTokenNext(false, "CASE") // END CASE
 			}
 			continue
 		}
-		for _, word := range splitOperators(v.next()) {
+		token := v.next()
+		words := splitOperators(token)
+		if qualified && len(words) > 0 {
+			words = words[1:]
+		}
+		qualified = token == "."
+		for _, word := range words {
 			if common.ContainsKeyword([]string{"BEGIN", "CASE"}, word) {
 				depth += 1
 			} else if common.ContainsKeyword([]string{"END"}, word) && depth > 0 {
-- 
2.43.0


From 3575cff3040bfab1d5586acce95517cd4ed7eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:22 +0000
Subject: [PATCH 40/40] fix: see CASE and END of a token that starts with $
 when skipping a statement

---
 internal/validator/validator.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 80ac0f3..523cea2 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -182,7 +182,7 @@ func (v *validator) skipStatement() error {
 // directly between them, such as "1" and "CASE" for "1+CASE".
 // Quoted text has no operators.
 func splitOperators(token string) []string {
-	if strings.ContainsAny(token[:1], "'\"`$") {
+	if strings.ContainsAny(token[:1], "'\"`") || isDollarQuoted(token) {
 		return []string{token}
 	}
 	return strings.FieldsFunc(token, func(r rune) bool {
@@ -191,6 +191,17 @@ func splitOperators(token string) []string {
 }
 
 
+// isDollarQuoted reports whether a token is a dollar-quoted string ($$...$$,
+// $body$...$body$), not a word such as $1.
+func isDollarQuoted(token string) bool {
+	if token[0] != '$' || !strings.Contains(token[1:], "$") {
+		return false
+	}
+	tag := token[:strings.Index(token[1:], "$") + 2]
+	return len(token) >= 2 * len(tag) && strings.HasSuffix(token, tag)
+}
+
+
 func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
-- 
2.43.0

