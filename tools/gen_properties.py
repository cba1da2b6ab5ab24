#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
LEX = "internal/lexer/lexer.go"
VAL = "internal/validator/validator.go"
VS = "internal/validator/validator_sqlite.go"
VP = "internal/validator/validator_postgresql.go"
VM = "internal/validator/validator_mysql.go"
CON = "internal/converter/converter.go"
TOP = "ddlparse.go"
UT = "internal/common/utils.go"
TY = "internal/types/types.go"
ER = "internal/common/errors.go"

def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["return values of Parse / ParseSQLite / ParsePostgreSQL / ParseMySQL / ParseForce"],
                     hook_needed=None)))

p("C01", "Parsing terminates on every input without crashing",
  "For any input text (valid, truncated anywhere, unbalanced, unterminated, or arbitrary bytes) and any of the three dialects, the parse functions return normally. They never panic, overflow the stack, loop forever or allocate without bound.",
  ["inputs"], "all strings, all dialects and ParseForce",
  "The tests run a few dozen hand-written scripts; a crash or endless loop hides in the inputs they do not contain (e.g. end of input inside an expression, or a definition that leaves the second pass misaligned).",
  [LEX, VAL, VS, VP, VM, CON],
  [("scanner advances on every step", LEX), ("bracket skipping stops at end of input", VAL), ("second pass consumes exactly the tokens the first pass kept", CON)])

p("C02", "Every outcome is complete success or one typed error with no tables",
  "A parse either succeeds with a nil error and a non-nil list holding every table of the script, or fails with a ValidateError value and a non-nil, empty table list, even when earlier statements of the script were valid. On failure the error's line is between 1 and the number of lines of the input, its near text is '<EOF>' or text that occurs in the input, and the message shows both.",
  ["inputs"], "all strings, all dialects",
  "Tests check the error of single broken statements and ignore the returned tables; whether some input yields a partial list, a foreign error type or a nonsense position is a question over all inputs.",
  [TOP, ER, VAL, LEX],
  [("error construction", ER), ("early return with an empty list", TOP)])

p("C03", "Results depend only on the text and the dialect",
  "Parsing the same text with the same dialect always gives an equal result or an equal error, no matter which calls came before, which calls run concurrently in other goroutines, or whether the caller modified previously returned tables. Concurrent calls are free of data races.",
  ["histories", "schedules"], "all sequences and interleavings of parse calls, including mutation of returned values by the caller",
  "The tests call each function once per input, sequentially, and never modify or re-parse anything.",
  [TOP, LEX, VAL, CON],
  [("fresh lexer, validator and converter per call", TOP), ("state re-initialised at the start of every pass", LEX)])

p("C04", "Every statement of the documented syntax is accepted",
  "Every script built from the CREATE TABLE syntax that the README documents for a dialect (names and literals of that dialect, any combination and order of column constraints without repetition, table constraints, options) is accepted by Parse with that dialect, with one CREATE TABLE statement or many. For SQLite the final semicolon may be missing.",
  ["inputs", "programs"], "all sentences of the documented grammar of each dialect",
  "Tests hold one long example per construct; combinations and orders of constraints, options and operands are a combinatorial space they barely sample.",
  [VS, VP, VM, VAL, LEX],
  [("recursive-descent syntax check per dialect", VS), ("same", VP), ("same", VM)])

p("C05", "Text outside the supported syntax is rejected",
  "A token sequence that is not a sequence of statements of the dialect's supported syntax is rejected with an error: a missing, extra, misplaced or misspelt token, a repeated column constraint, NULL together with NOT NULL, a reserved word or string used as a name, a missing semicolon (PostgreSQL, MySQL) or an unbalanced parenthesis never parses.",
  ["inputs", "programs"], "all token sequences, in particular every small edit of a valid script",
  "Tests contain about thirty negative examples per dialect; which of the unboundedly many near-miss inputs slips through is not sampled.",
  [VS, VP, VM, VAL],
  [("keyword checks", VAL), ("duplicate-constraint bookkeeping", VM), ("reserved word lists", VP)])

p("C06", "Errors point at the first offending token and its line",
  "When a script is rejected, the reported near text is the first token that cannot continue any supported statement ('<EOF>' when the input ends too early) and the reported line is the line that token is on, counting from 1 over every newline before it, including blank lines and newlines inside comments and quoted text. An unterminated quote or block comment is reported as '<EOF>' on the last line, a stray '*/' as '*', and a character that is illegal in the dialect as itself.",
  ["inputs"], "all rejected inputs with every layout (newlines, CRLF, comments, multi-line strings)",
  "Tests check positions for a few statements with simple layouts; line counting through all layouts and the offending token for all error sites are not covered.",
  [LEX, VAL, ER],
  [("line counter of the scanner", LEX), ("newline tokens counted by the syntax check", VAL)])

p("C07", "Tables and columns come out complete, in order, under their names",
  "For every supported script the result holds exactly one table per CREATE TABLE statement in source order, with its schema (empty if none), table name and IF NOT EXISTS flag, and exactly its columns in source order with their names. Table-level constraints and indexes never appear as columns, wherever they stand among the columns.",
  ["inputs"], "all supported scripts, any number of tables and columns, any interleaving of columns and table constraints",
  "Tests compare a few fixed scripts in which constraints always come last.",
  [CON, VM, VP, VS],
  [("walk over the kept tokens", CON), ("dropping of tokens that are not converted", VM)])

p("C08", "Column data types are reported exactly",
  "Each column's type is reported as the upper-cased type word that was written (BIT VARYING as VARBIT, CHARACTER VARYING as VARCHAR, DOUBLE PRECISION as DOUBLE, time zone clauses dropped), with the length or precision as the first digit and the scale as the second, and 0 for each one that was not written. Neither the other columns nor the constraints that follow influence it.",
  ["inputs"], "all supported types with all positive lengths, precisions and scales, followed by any constraints",
  "Tests use the lengths 10, 5, 3 and 100 only and one following constraint per type.",
  [CON, VP, VM],
  [("type conversion", CON), ("type and digit checks", VP)])

p("C09", "Column constraint facts are reported iff they were stated",
  "For every column, primary-key, unique, not-null and auto-increment flags are true exactly when the corresponding clause is in that column's definition, and the constraint name and collation are exactly those written (unquoted; the first name when several constraints are named) or empty. This holds for every order of the constraints and whatever ignored clauses stand between them, and one column's constraints never leak into another.",
  ["inputs"], "all supported columns: subsets, orders and surroundings of the constraints",
  "Tests use a handful of combinations; an order in which one clause swallows part of the next is not sampled.",
  [CON, VS, VP, VM],
  [("constraint conversion", CON), ("constraint checks per dialect", VM)])

p("C10", "Literal defaults are reported with type and value",
  "A DEFAULT literal is reported as the number it denotes (float64, including sign, fraction and exponent), the exact text the string denotes, true or false, nil for NULL, or the current-time keyword as written; a column without DEFAULT reports nil. Text that is not a finite number, string or keyword literal of the dialect (such as inf, nan or a bare word) is not accepted as a default.",
  ["inputs"], "all literals of each dialect in all column contexts",
  "Tests use 10, -1, 'a' and the keywords only.",
  [CON, UT, VS, VP, VM, LEX],
  [("literal conversion", CON), ("numeric token test", UT)])

p("C11", "Expression text is kept token for token",
  "The text reported for CHECK and for a parenthesised DEFAULT consists of the outer parentheses and exactly the tokens of the source expression in order: words stay separate words, operators stay intact, quoted parts are unchanged character for character, nested parentheses are kept. Only whitespace and comments between tokens may differ.",
  ["inputs"], "all balanced expressions, any nesting depth",
  "Tests use single-word expressions and one function call.",
  [CON, LEX, VAL],
  [("expression assembly", CON), ("bracket matching", VAL)])

p("C12", "Table-level keys and checks are reported completely, in order",
  "Each table-level PRIMARY KEY, UNIQUE, CHECK and FOREIGN KEY constraint is reported once, in the list of its kind, in source order, with its constraint name (empty if none) and its column names exactly as written and in order. MySQL key lengths, sort orders, index names and expression key parts, and constraints of other kinds (EXCLUDE, INDEX, KEY, FULLTEXT, SPATIAL), contribute nothing to these lists.",
  ["inputs"], "all supported tables, any number and mix of table constraints in any position",
  "Tests hold one constraint of each kind in fixed order.",
  [CON, VS, VP, VM],
  [("table constraint conversion", CON), ("key part handling", VM)])

p("C13", "Foreign-key targets are reported exactly",
  "For a column REFERENCES clause and for each table-level FOREIGN KEY, the referenced table name (without its schema qualifier and quotes) and the referenced column names, as written and in order, are reported; without a column list the list is empty. The actions, MATCH and DEFERRABLE clauses that follow change nothing, nor does a following constraint such as NOT NULL get lost or misread.",
  ["inputs"], "all supported REFERENCES clauses in any position, qualified or not, with any trailing clauses",
  "Tests use unqualified targets with one column and REFERENCES as the last constraint.",
  [CON, VS, VP, VM],
  [("reference conversion", CON), ("trailing clause checks", VS)])

p("C14", "Clauses outside the Table object never change it",
  "Adding or removing any supported clause that the Table object does not represent (conflict clauses, sort orders, index parameters, generated-column clauses, identity, comments, storage, visibility, engine attributes, ON UPDATE, NO INHERIT, ENFORCED, referential actions, indexes, EXCLUDE, table options) leaves the parsed tables unchanged.",
  ["inputs"], "all supported scripts and all sets of ignorable clauses added at every place the syntax allows",
  "Tests do not compare a script with and without its ignored clauses and cover one placement each.",
  [VS, VP, VM],
  [("tokens consumed without being kept", VM), ("same", VP), ("same", VS)])

p("C15", "Other CREATE statements are skipped without a trace",
  "Supported CREATE statements other than CREATE TABLE (views, triggers, indexes, sequences, functions, ...), with bodies whose BEGIN ... END block contains semicolons, nested blocks, CASE ... END or END IF, can stand before, between and after the tables: they add no table, and the tables around them are parsed as if the statement were absent.",
  ["inputs", "programs"], "all interleavings of tables with non-table CREATE statements of each dialect",
  "Tests have one script per dialect with one trigger body holding a single UPDATE.",
  [VS, VP, VM, VAL],
  [("statement skipping", VM), ("statement keyword lists", VP)])

p("C16", "Layout and comments between tokens do not matter",
  "Replacing the separator between any two tokens by any mix of spaces, tabs, LF or CRLF newlines, '--' comments, block comments (multi-line, decorated with stars, nested in PostgreSQL) and, in MySQL, '#' comments, with any text in them, gives the same tables, or a rejection at the same token. No separator is needed next to parentheses, commas, dots, semicolons or '='.",
  ["inputs"], "all supported scripts times all layouts",
  "Tests use one layout per script; comment-after-comment, stars inside comments, CRLF, glued tokens are not sampled.",
  [LEX, VAL],
  [("comment and whitespace skipping", LEX), ("newline tokens skipped by the syntax check", VAL)])

p("C17", "Keyword and type letter case does not matter",
  "Changing the letter case of any keyword or type name of a script (upper, lower or mixed, each word independently) gives the same tables, or the same rejection at the same place; only text that is reported verbatim (names, expression text, current-time and collation keywords, near text) keeps the case it was written in.",
  ["inputs"], "all supported scripts times all letter-case variants of their keywords",
  "Tests are written in all-upper or all-lower case.",
  [VAL, CON],
  [("case-insensitive keyword match", VAL), ("case-insensitive keyword match", CON)])

p("C18", "A script parses as the concatenation of its statements",
  "Parsing the concatenation of two scripts of complete statements gives the tables of the first followed by the tables of the second. If the first is valid and the second is not, the error is that of the second with its line shifted by the number of newlines before it.",
  ["inputs"], "all pairs and lists of scripts, empty and comment-only scripts included",
  "Tests parse fixed two-statement scripts.",
  [TOP, VAL, CON, LEX],
  [("statement loop of the syntax check", VM), ("statement loop of the conversion", CON)])

p("C19", "Names: quoting, verbatim content and reserved words",
  "A quoted name (double quotes or backticks in SQLite, double quotes in PostgreSQL, backticks in MySQL) may hold any characters and is reported without its quotes, a doubled quote meaning one, except in key column lists, where names stay as written. An unquoted name is accepted and reported verbatim exactly when it is an ASCII identifier that is not a reserved word of the dialect in any letter case; every reserved word is usable when quoted.",
  ["inputs"], "all names in every name position of each dialect, all reserved words",
  "Tests try one reserved word per dialect and simple lowercase quoted names.",
  [VS, VP, VM, CON, LEX],
  [("name check and reserved word lists", VP), ("quote stripping", CON)])

p("C20", "Results survive JSON under the documented keys",
  "Every successful result can be encoded as JSON, uses exactly the keys the README documents at every level, encodes an empty script as an empty array, and decodes back to an equal value.",
  ["inputs"], "all successful results",
  "Tests encode a few results; whether some accepted literal yields a value JSON cannot carry is a question over all accepted inputs.",
  [TY, CON, UT],
  [("json tags", TY), ("literal conversion", CON)])

p("C21", "Each dialect accepts only its own syntax",
  "A script written for one dialect is accepted by another dialect only if it also belongs to that other dialect's supported syntax (its types, constraints, options, quoting and comment style); otherwise it is rejected. The three entry points named after a dialect behave exactly like Parse with that dialect.",
  ["inputs", "configurations"], "all scripts of each dialect under each other dialect",
  "Tests almost never run one dialect's script under another.",
  [VS, VP, VM, LEX, TOP],
  [("dialect dispatch", VAL), ("dialect-specific quoting and comments", LEX)])

p("C22", "ParseForce returns the first dialect that accepts, else an error",
  "ParseForce gives exactly the result of the first of SQLite, PostgreSQL, MySQL (in this order) whose parse succeeds. If all three reject the text it returns a ValidateError and no tables.",
  ["inputs"], "all strings",
  "Tests call ParseForce on three accepted scripts and never on a rejected one.",
  [TOP],
  [("dialect loop", TOP)])

p("C23", "Size does not change meaning",
  "Scripts with thousands of columns, tables, constraints or expression tokens, deeply nested parentheses, very long names, strings, comments or many lines are parsed with the same rules and results as small ones.",
  ["inputs"], "all sizes up to the bounds stated by the check (thousands of elements, hundreds of kilobytes)",
  "Tests hold at most sixty columns and two tables.",
  [LEX, VAL, CON],
  [("index arithmetic and recursion over the token list", CON), ("recursion over the token list", VAL)])

p("C24", "Quoted text is opaque",
  "The content of a quoted string or name is taken verbatim up to its matching closing quote (a doubled quote stands for one; in MySQL strings a backslash escapes the next character): comment markers, semicolons, parentheses, commas, keywords, newlines and the other kinds of quotes inside it have no effect. In particular a string default is reported with exactly the characters it denotes and the rest of the script parses as if the string were any other.",
  ["inputs"], "all quoted texts in every position that takes one (names, defaults, comments, options, expressions)",
  "Tests have one string with a nested quote and only count tokens.",
  [LEX, CON],
  [("quoted text scanning", LEX), ("quote stripping", CON)])

p("C25", "A result written back as DDL parses to itself",
  "For every text a dialect accepts, the returned tables hold all that is needed to write them again: writing them as plain CREATE TABLE statements of that dialect (names quoted; types, digits, constraints, defaults, key columns, expressions and references exactly as reported) gives a script that the same dialect accepts and that parses to equal tables.",
  ["inputs"], "all accepted texts, including forms the documentation does not mention",
  "No test writes a result back; the property ties the reported values to the accepted syntax for every accepted input, also where no expected result is known.",
  [LEX, VAL, VS, VP, VM, CON],
  [("what the validators keep for the converter", VAL), ("conversion to the Table object", CON)])

p("C26", "The first error stands whatever follows it",
  "When a text is rejected at a token, the error (near text and line) depends only on the text up to and including that token: appending further lexically complete text, or replacing everything after the token by other lexically complete text, gives exactly the same error. (A table-level NOT, which may be reported because NULL follows it, is excepted from the replacement.)",
  ["inputs"], "all texts rejected at a token, all lexically complete continuations",
  "Tests never compare the errors of two texts; that no later part of a script can mask, move or suppress an error is a statement about all continuations.",
  [LEX, VAL, VS, VP, VM],
  [("left-to-right validation without recovery", VAL)])

p("C27", "A table is parsed item by item",
  "Within the brackets of a CREATE TABLE statement each item (column or table constraint) is parsed independently of the others: a table with several items is accepted exactly when a table with each single one of them (with the same plain columns around it) is, its columns and its constraint lists are those of the single items in order, and its error is the one a faulty item gives alone, at the line it stands on.",
  ["inputs"], "all sequences of bracket-balanced items, valid or not",
  "Tests never compare a table with its parts; state that leaks from one item into another shows only for particular neighbours.",
  [VAL, VS, VP, VM, CON],
  [("item loop of the validators", VS), ("item loop of the converter", CON)])

p("C28", "A result is owned by the caller and shares no memory inside",
  "The tables returned by one call are independent values: appending to any list of the result or overwriting any value in it changes no other part of the result, and nothing that was appended to another list of it or to a list of another call's result.",
  ["inputs", "histories"], "all accepted scripts and every list and value in their results",
  "Tests only read results; sharing shows only when a caller changes one part and looks at another.",
  [CON, TY],
  [("lists built by the converter", CON)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
