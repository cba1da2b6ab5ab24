#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('fuzzing of all entry points with truncated, mutated, random and repeated input', 'no panic, hang (25 s, confirmed in a process of its own), stack overflow or 3 GB heap on the generated inputs'),
 'C02': ('fuzzing with an invariant over every outcome', 'shape of result and error checked on every generated input; completeness against the generator model'),
 'C03': ('stateful generation of call histories, model = result of the same call in a fresh history; race detector on concurrent histories', 'histories of up to a few dozen calls, with mutation of results and concurrent calls'),
 'C04': ('grammar-based generation, acceptance oracle (independent reference grammar)', 'trusts the reference grammar written from the README'),
 'C05': ('mutation of valid scripts, rejection oracle (independent recogniser of the widest reading of the grammar)', 'forms the documentation leaves open are not judged'),
 'C06': ('mutation of valid scripts, oracle = first token the reference recogniser cannot continue, and its line', 'positions are judged only where the narrow and the wide reference grammar agree'),
 'C07': ('model-based generation: script and expected result generated together', 'compares names, schemas, flags, order'),
 'C08': ('model-based generation plus enumeration of every type form', 'all type words of the documentation in every form are enumerated'),
 'C09': ('model-based generation over constraint sets and orders', 'compares all flags, constraint name and collation'),
 'C10': ('model-based generation of literals; rejection of non-literals', 'numbers compared as float64 with strconv.ParseFloat of the written text'),
 'C11': ('model-based generation of expressions, token-wise comparison', 'the independent tokeniser of the comparison is trusted'),
 'C12': ('model-based generation of table constraints', 'compares all four lists'),
 'C13': ('model-based generation of references', 'compares targets of column and table references'),
 'C14': ('metamorphic: clauses the Table object does not represent are added and removed', 'the clause inventory of the generator follows the documentation'),
 'C15': ('metamorphic: other CREATE statements inserted anywhere', 'bodies are generated from blocks, CASE, IF, loops and hostile quoted text'),
 'C16': ('metamorphic: the same tokens in several layouts', 'comments and whitespace of every kind at every token boundary'),
 'C17': ('metamorphic: the same tokens in several letter cases', 'each keyword independently'),
 'C18': ('metamorphic: concatenation of scripts', 'tables and shifted error compared'),
 'C19': ('model-based generation of names plus enumeration of the reserved words in every name position', 'reserved words are written down independently of the code'),
 'C20': ('round-trip through encoding/json, key sets compared with the documentation', 'results of generated scripts'),
 'C21': ('differential between dialects with reference grammars as oracle; enumeration of foreign clauses; entry points compared', 'trusts the reference grammars'),
 'C22': ('differential: ParseForce against the three dialects', 'oracle is the composition of the three public parse functions'),
 'C23': ('model-based generation of large scripts', 'sizes up to the bounds in DESIGN.md; time is not judged except for hangs'),
 'C25': ('round-trip: every accepted text is rewritten from its tables and parsed again', 'expression spacing is compared up to blanks; a scale without precision is skipped'),
 'C27': ('metamorphic: a table with several items against tables with the single items', 'items with balanced brackets; of several faulty items any may be the one reported (the first is C06)'),
 'C28': ('fuzzing with an aliasing invariant: every list appended to and every value overwritten, other parts compared with a copy', 'results of generated scripts'),
 'C26': ('metamorphic: text after the reported token appended or replaced', 'continuations are lexically complete'),
 'C24': ('metamorphic: quoted texts replaced by hostile texts, substituted in the result', 'hostile content from markers, quotes, newlines, control and random characters'),
}
m = {
 'version': 1,
 'setup_cmd': 'bash run.sh build',
 'checks': [{
   'property': i,
   'quick_cmd': f'bash run.sh {i} quick',
   'thorough_cmd': f'bash run.sh {i} thorough',
   'technique': 'property-based testing: ' + t,
   'level': 'exploration',
   'level_note': 'Generated-input search with a fixed seed, not a proof. ' + n[0].upper() + n[1:] + '.',
 } for i, (t, n) in sorted(T.items())],
 'not_applicable': [],
 'notes': 'No hooks in /repo are needed: the checks use the public API only. Repairs of genuine defects are the "fix:" commits listed in known_findings.txt.',
}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
