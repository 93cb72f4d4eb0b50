"""What each check runs: harnesses (entry points in harness/src), the stated
bounds, and the assumptions that go into the evidence."""

COMMON = [
    "the LLVM IR rustc 1.99.1 emits for /repo, its dependencies and std (before optimisation, then -O2 without vectorisation) behaves as the program does; the executor's semantics of that IR are cross-checked by replaying sampled paths natively (dev and release builds) and comparing traces",
    "allocation never fails; addresses are concrete; the hashing functions are executed as code with fixed keys (so iteration order of HashMap, which the code under test never observes, is fixed)",
]

REG = {}
def reg(pid, harnesses, bounds, thorough_bounds=None, assumptions=(), **kw):
    REG[pid] = dict(harnesses=harnesses, bounds=bounds, thorough_bounds=thorough_bounds or {}, assumptions=list(assumptions), **kw)

reg("C01", ["h_c01_bytes"], {
    "h_c01_bytes": "every ASCII text of length 0..3, through scanner, parse, parse_repl_line, parse_expression and resolve",
}, {"h_c01_bytes": "every ASCII text of length 0..4"})

TREE = "token sequences with their own texts, literals and positions, so that every token can be told apart in the tree; the oracle is a reference parser (harness/src/refp.rs) written with precedence tables"
reg("C02", ["h_c02_any", "h_c02_near"], {
    "h_c02_any": "every sequence of 0..5 tokens of any of the 47 types",
    "h_c02_near": "26 programs covering every construct, with any 0..2 consecutive tokens replaced by any 2 tokens",
}, {"h_c02_any": "every sequence of 0..6 tokens", "h_c02_near": "0..2 consecutive tokens replaced by any 3 tokens"},
    reach={"h_c02_any": [1], "h_c02_near": [1]},
    assumptions=["the token stream is built directly (scanning is C04-C09); lexemes and literals are distinct per token"])
reg("C03", ["h_c03_full", "h_c03_levels", "h_c03_postfix"], {
    "h_c03_full": "every sequence of 1..6 tokens over operands, all operators, parentheses, dot and brackets",
    "h_c03_levels": "every well-formed sequence of 7..9 tokens over one operator per level, unary operators, assignment, parentheses",
    "h_c03_postfix": "every well-formed sequence of 6..8 tokens over one operator per level, calls, properties, elements, assignment",
}, {"h_c03_full": "1..7 tokens", "h_c03_levels": "7..11 tokens", "h_c03_postfix": "6..9 tokens"},
    reach={"h_c03_full": [1, 2], "h_c03_levels": [1], "h_c03_postfix": [1]}, assumptions=[TREE])
reg("C10", ["h_c10_seq", "h_c10_near"], {
    "h_c10_seq": "every well-formed program of 0..10 tokens over 18 statement tokens (print, return, var, if, else, while, for, braces, indented blocks)",
    "h_c10_near": "26 programs covering every construct, with any 0..2 consecutive tokens replaced by any 2 tokens: same tree or rejected, as the reference parser says",
}, {"h_c10_seq": "0..12 tokens", "h_c10_near": "replaced by any 3 tokens"},
    reach={"h_c10_seq": [1], "h_c10_near": [1, 2]}, assumptions=[TREE])
reg("C11", ["h_c11_seq", "h_c11_seq2"], {
    "h_c11_seq": "every program of 2..13 tokens over while, if, else, fun, braces, break, continue: accepted when the reference accepts, rejected at the break or continue when it stands outside of a loop",
    "h_c11_seq2": "the same over while, for, class, fun, braces and indented blocks, break",
}, {"h_c11_seq": "2..15 tokens", "h_c11_seq2": "2..15 tokens"}, reach={"h_c11_seq": [1, 2], "h_c11_seq2": [1, 2]}, assumptions=[TREE])
reg("C12", ["h_c12_expr", "h_c12_kinds", "h_c12_limit"], {
    "h_c12_expr": "every well-formed expression of 1..7 tokens over calls of both forms, operators, assignment, elements",
    "h_c12_kinds": "every well-formed program of 1..7 tokens over all tokens that can start an argument",
    "h_c12_limit": "0, 1, 2, 254..257 arguments or parameters in each of five forms",
}, {"h_c12_expr": "1..9 tokens", "h_c12_kinds": "1..8 tokens"}, reach={"h_c12_expr": [1], "h_c12_kinds": [1], "h_c12_limit": [1, 2]}, assumptions=[TREE])
reg("C13", ["h_c13_braced", "h_c13_bare", "h_c13_array"], {
    "h_c13_braced": "print { X } for every X of 0..8 tokens over keys, values, separators, nested braces and brackets, key equalities symbolic",
    "h_c13_bare": "bare maps of 3..8 tokens as statement, initializer and indented initializer, key equalities symbolic",
    "h_c13_array": "print [ X ] for every X of 0..7 tokens",
}, {"h_c13_braced": "0..10 tokens", "h_c13_bare": "3..10 tokens", "h_c13_array": "0..9 tokens"},
    reach={"h_c13_braced": [1, 2], "h_c13_bare": [1, 2], "h_c13_array": [1]}, assumptions=[TREE])
reg("C14", ["h_c14_seq", "h_c14_left"], {
    "h_c14_seq": "every expression of 1..8 tokens over targets, assignment, operators, calls: accepted with the reference tree, or rejected at the equals sign",
    "h_c14_left": "X = name for every expression X of 1..5 tokens over 24 token types",
}, {"h_c14_seq": "1..9 tokens", "h_c14_left": "1..7 tokens"}, reach={"h_c14_seq": [1, 2], "h_c14_left": [1, 2]}, assumptions=[TREE])
reg("C15", ["h_c15_seq", "h_c15_class", "h_c15_value"], {
    "h_c15_seq": "every definition of 1..12 tokens over fun, class, names that may be init, parameters, braces and indented blocks (ill-formed ones up to 7 tokens too)",
    "h_c15_class": "class N { X } for every X of 0..13 tokens over class, names that may be init, parameters and bodies",
    "h_c15_value": "print fun X for every X of 0..10 tokens",
}, {"h_c15_seq": "1..14 tokens", "h_c15_class": "0..15 tokens", "h_c15_value": "0..12 tokens"},
    reach={"h_c15_seq": [1, 2], "h_c15_class": [1, 2], "h_c15_value": [1, 2]}, assumptions=[TREE])

SCAN = "the oracle is a reference scanner (harness/src/refs.rs) written line by line over grapheme clusters; it gives no answer (and the run says so by a cover point) where the properties leave the outcome open"
reg("C04", ["h_c04_lines", "h_c04_deep", "h_c04_mixed"], {
    "h_c04_lines": "1..6 lines, each indented by any 0..5 spaces, with and without a final line end",
    "h_c04_deep": "2..3 lines with indentations around 126 and 253..258 columns",
    "h_c04_mixed": "2..4 lines, each blank, comment, ordinary, ending in an operator or in a backslash, at any of several indentations",
}, {"h_c04_lines": "1..7 lines", "h_c04_mixed": "2..5 lines"}, reach={"h_c04_lines": [1, 2], "h_c04_deep": [1, 2], "h_c04_mixed": [1, 2]}, assumptions=[SCAN])
reg("C05", ["h_c05_bytes", "h_c05_one", "h_c05_all", "h_c05_crlf"], {
    "h_c05_bytes": "every text of 0..2 ASCII bytes placed on a line of a small program, each of 10 insertions at every line",
    "h_c05_one": "2..3 lines of symbolic indentation and ending, one of them changed by any insertion",
    "h_c05_all": "2 lines, both changed",
    "h_c05_crlf": "every text of 0..3 bytes, with LF against CRLF line ends",
}, {"h_c05_bytes": "0..3 bytes", "h_c05_crlf": "0..4 bytes"}, reach={h: [1, 2] for h in ("h_c05_bytes", "h_c05_one", "h_c05_all", "h_c05_crlf")}, assumptions=["relational: the same real scanner on the text and on the changed text, token sequences compared"])
reg("C06", ["h_c06_last", "h_c06_rows", "h_c06_backslash"], {
    "h_c06_last": "a line ending in any 1..2 bytes, 10 endings, 6 kinds of line between, next line at any of several indentations",
    "h_c06_rows": "2..3 lines, each ending in one of 22 last tokens, indentations and backslashes symbolic",
    "h_c06_backslash": "a backslash followed by any 0..2 bytes and a line end",
}, reach={h: [1, 2] for h in ("h_c06_last", "h_c06_rows", "h_c06_backslash")}, assumptions=[SCAN])
reg("C07", ["h_c07_bytes", "h_c07_alpha", "h_c07_words", "h_c07_unicode"], {
    "h_c07_bytes": "every ASCII text of 0..3 bytes",
    "h_c07_alpha": "texts of 4..5 characters over an alphabet of one character per lexical class",
    "h_c07_words": "every reserved word with any one letter replaced, inserted before or after, or removed",
    "h_c07_unicode": "non-ASCII letters, marks, joined clusters and symbols next to every class of ASCII character",
}, {"h_c07_bytes": "0..4 bytes", "h_c07_alpha": "4..6 characters"}, reach={"h_c07_bytes": [1, 2], "h_c07_alpha": [1, 2], "h_c07_words": [1], "h_c07_unicode": [1, 2]}, assumptions=[SCAN])
reg("C08", ["h_c08_bytes", "h_c08_pieces", "h_c08_strings", "h_c08_unicode", "h_c08_long"], {
    "h_c08_bytes": "every ASCII text of 0..3 bytes",
    "h_c08_pieces": "3..4 pieces of 12 kinds (multi-line strings, comments, continued lines, wide characters) in any order",
    "h_c08_strings": "a string of any 0..4 bytes, then further tokens",
    "h_c08_unicode": "clusters of 1..7 code points in strings and comments, then further tokens",
    "h_c08_long": "a line of 65529..65532 columns followed by any 2 characters (columns up to and beyond the 16-bit maximum)",
}, {"h_c08_bytes": "0..4 bytes", "h_c08_pieces": "3..5 pieces", "h_c08_strings": "0..5 bytes", "h_c08_long": "any 3 characters"},
    reach={h: [1] for h in ("h_c08_bytes", "h_c08_pieces", "h_c08_strings", "h_c08_unicode", "h_c08_long")}, assumptions=[SCAN])
reg("C09", ["h_c09_digits", "h_c09_long", "h_c09_ends", "h_c09_string", "h_c09_among"], {
    "h_c09_digits": "every numeral of up to 3 digits, with and without a fraction",
    "h_c09_long": "12 long numerals (halfway cases, 17 to 30 digits) with any digit replaced; the nearest double is found with exact integer arithmetic in the oracle",
    "h_c09_ends": "a numeral followed by any two characters",
    "h_c09_string": "a string of any 0..4 bytes or wide characters, closed or not, scanned and parsed",
    "h_c09_among": "literals among other tokens, values in the tree",
}, {"h_c09_digits": "up to 4 digits", "h_c09_long": "any two digits replaced", "h_c09_string": "0..5 bytes"},
    reach={"h_c09_digits": [1], "h_c09_long": [1], "h_c09_ends": [1], "h_c09_string": [1, 2], "h_c09_among": [1]}, assumptions=[SCAN])
RTREE = "trees are built directly from the public AST types (h_*_parsed: by the real parser); the oracle (harness/src/refr.rs) recomputes every binding and every broken rule from the scoping rules, with names instead of slots"
reg("C16", ["h_c16_scopes", "h_c16_deep", "h_c16_classes", "h_c16_places", "h_c16_parsed"], {
    "h_c16_scopes": "every program of 4 actions over declaring, using, assigning, blocks, functions, lambdas, 0..1 parameters and two names",
    "h_c16_deep": "every program of 6 actions over a smaller menu (var, use, blocks, functions) and two names",
    "h_c16_classes": "every program of 5 actions over classes, superclasses, methods, this, super, uses",
    "h_c16_places": "something to resolve (a use, an assignment, this, super, a function) in each of 34 places of statements and expressions, within 0..2 enclosing constructs",
    "h_c16_parsed": "20 parsed programs about scopes and classes, every identifier one of two names",
}, {"h_c16_scopes": "5 actions", "h_c16_deep": "7 actions", "h_c16_classes": "6 actions", "h_c16_places": "within 0..3 enclosing constructs"},
    reach={h: [1] for h in ("h_c16_scopes", "h_c16_deep", "h_c16_classes", "h_c16_places", "h_c16_parsed")}, assumptions=[RTREE])
reg("C17", ["h_c17_ways", "h_c17_limit", "h_c17_session"], {
    "h_c17_ways": "every sequence of 3 declarations and uses of three names (var, assignment, function, class, lambda), at top level or in a function with 0..2 parameters",
    "h_c17_limit": "254..255 names declared in one way in the global scope, a block, a function, a lambda or a method (parameters and locals), then any 2 further declarations or uses of old or new names",
    "h_c17_session": "254..255 globals in one of six ways, then any 3 lines, each declaring or using an old or a new name",
}, {"h_c17_ways": "4 declarations", "h_c17_limit": "3 further", "h_c17_session": "4 lines"},
    reach={h: [1, 2] for h in ("h_c17_ways", "h_c17_limit", "h_c17_session")}, assumptions=[RTREE])
reg("C18", ["h_c18_decls", "h_c18_returns", "h_c18_this", "h_c18_inherit", "h_c18_places", "h_c18_parsed"], {
    "h_c18_decls": "every program of 5 actions over var, functions, classes, blocks, parameters, two names",
    "h_c18_returns": "every program of 6 actions over returns, blocks, functions, lambdas, classes, methods of every kind",
    "h_c18_this": "every program of 6 actions over this, super, blocks, functions, classes, subclasses, methods",
    "h_c18_inherit": "every program of 6 actions over classes and subclasses of two names",
    "h_c18_places": "each rule in each of 34 places of statements and expressions, within 0..2 enclosing constructs",
    "h_c18_parsed": "20 parsed programs about scopes and classes, every identifier one of two names",
}, {"h_c18_decls": "6 actions", "h_c18_returns": "8 actions", "h_c18_this": "7 actions", "h_c18_inherit": "7 actions", "h_c18_places": "within 0..3"},
    reach={h: [1, 2] for h in ("h_c18_decls", "h_c18_returns", "h_c18_this", "h_c18_inherit", "h_c18_places", "h_c18_parsed")}, assumptions=[RTREE])
reg("C19", ["h_c19_nested", "h_c19_lines", "h_c19_places"], {
    "h_c19_nested": "a line of 3 actions of nesting and one that may fail, then each of 16 probing lines, compared with a fresh session",
    "h_c19_lines": "two lines of 2 actions over two names, then each of 16 probing lines",
    "h_c19_places": "a line failing in each of 34 places, then each of 16 probing lines",
}, {"h_c19_nested": "4 actions", "h_c19_lines": "3 and 2 actions", "h_c19_places": "2 levels"},
    reach={h: [1, 2, 3] for h in ("h_c19_nested", "h_c19_lines", "h_c19_places")}, assumptions=[RTREE])
reg("C20", ["h_c20_any", "h_c20_near", "h_c20_seq", "h_c20_expr", "h_c20_bytes", "h_c20_unicode", "h_c20_pieces", "h_c20_names"], {
    "h_c20_any": "every sequence of 0..4 tokens, as program and REPL line",
    "h_c20_near": "26 programs with 0..2 consecutive tokens replaced by any 2 tokens",
    "h_c20_seq": "0..6 tokens over 14 types",
    "h_c20_expr": "single expressions of arbitrary tokens",
    "h_c20_bytes": "every ASCII text of 0..3 bytes",
    "h_c20_unicode": "non-ASCII texts: scanner errors at the offending character",
    "h_c20_pieces": "pieces of programs with faulty pieces among them",
    "h_c20_names": "name resolution errors in 20 parsed programs, every identifier one of two names",
}, {"h_c20_any": "0..5 tokens", "h_c20_near": "replaced by any 3 tokens", "h_c20_seq": "0..7 tokens"},
    reach={"h_c20_any": [1, 2, 3], "h_c20_near": [1, 2, 3], "h_c20_seq": [1, 2, 3], "h_c20_expr": [1, 2], "h_c20_bytes": [1, 2], "h_c20_unicode": [1, 2], "h_c20_pieces": [1, 2], "h_c20_names": [1, 2]}, assumptions=[TREE, SCAN])
reg("C21", ["h_c21_any", "h_c21_near", "h_c21_ends", "h_c21_expr", "h_c21_expr_near", "h_c21_bytes", "h_c21_pieces"], {
    "h_c21_any": "every sequence of 0..4 tokens under both modes",
    "h_c21_near": "26 programs with 0..2 consecutive tokens replaced by any 2 tokens",
    "h_c21_ends": "up to 6 tokens over statement ends",
    "h_c21_expr": "expressions alone against the same tokens as a statement",
    "h_c21_expr_near": "expressions of the corpus with tokens replaced",
    "h_c21_bytes": "every ASCII text of 0..3 bytes, three entry points",
    "h_c21_pieces": "texts of pieces, three entry points",
}, {"h_c21_any": "0..5 tokens", "h_c21_near": "replaced by any 3 tokens", "h_c21_ends": "up to 7 tokens"},
    reach={"h_c21_any": [1, 2], "h_c21_near": [1, 2], "h_c21_ends": [1, 2], "h_c21_expr": [1, 2], "h_c21_expr_near": [1, 2], "h_c21_bytes": [1, 2], "h_c21_pieces": [1, 2]},
    assumptions=["relational: the three real entry points on the same tokens or text"])


reg("C22", ["h_c22_bytes", "h_c22_sources", "h_c22_two", "h_c22_session", "h_c22_typed", "h_c22_long"], {
    "h_c22_bytes": "files of any 0..2 ASCII bytes",
    "h_c22_sources": "40 source files (accepted, syntax errors, name resolution errors, several errors), intact with reads of 1, 3 or all bytes at a time, and with any one character replaced by one of 6",
    "h_c22_two": "every pair of the 40 sources in one file",
    "h_c22_session": "sessions of 0..3 lines out of 28 (14 for three lines), the last with or without line end, reads of 1, 3 or all bytes at a time",
    "h_c22_typed": "a session of three lines, one of them any 0..2 ASCII bytes",
    "h_c22_long": "20..59 lines of output and errors, as file and as session, reads of 1, 3 or all bytes at a time",
}, {"h_c22_bytes": "0..3 bytes", "h_c22_sources": "replaced by or preceded by one of 12 characters", "h_c22_two": "every three sources", "h_c22_session": "0..4 lines", "h_c22_typed": "0..3 bytes", "h_c22_long": "20..319 lines"},
    reach={h: [1, 2] for h in ("h_c22_bytes", "h_c22_sources", "h_c22_two", "h_c22_session", "h_c22_typed", "h_c22_long")},
    assumptions=["the whole program is executed from C main on (argument parsing, std::io buffering, process::exit included); the system calls open, stat, read, write, poll, sigaction and exit are modelled: the file exists and is readable, reads give up to the chosen number of bytes, writes write everything", "the expected output is what the library gives for the same text; replays run the real binary built from /repo as a process"],
    outside="files that do not exist or are not UTF-8, other command line options, failing system calls, larger inputs")

def more(pid, harness, bounds, thorough=None, reach=(1,)):
    r = REG[pid]
    r['harnesses'].append(harness)
    r['bounds'][harness] = bounds
    if thorough: r['thorough_bounds'][harness] = thorough
    if reach: r.setdefault('reach', {})[harness] = list(reach)

NEST = "templates of harness/src/nest.rs put into each other (25 statement contexts, 21 statement forms, 38 expression contexts, 12 leaves)"
more("C01", "h_c01_tokens", "every sequence of 0..4 tokens through the parser's three modes and name resolution", "0..5 tokens", [1, 2, 3])
more("C01", "h_c01_edit", "every statement form in every statement context with one token replaced by, preceded by or removed for any token", "in 8 expression contexts too", [1, 2, 3])
more("C01", "h_c01_cut", NEST + ", cut off at any token (2 leaves)", "all leaves", [1, 2, 3])
more("C01", "h_c01_pieces", "texts of 0..3 of 24 pieces through all entry points", "0..4 pieces", [])
more("C01", "h_c01_wide", "65533..65536 blanks or letters at the start of the text, in a line, a string or a comment, followed by one of 7 endings", "65533..65538 blanks, letters, digits or operators", [1, 2])
more("C02", "h_c02_nest", NEST + ": every composition", None)
more("C02", "h_c02_edit", "every statement form in every statement context with one token replaced, inserted or removed", "in 8 expression contexts too")
more("C03", "h_c03_nest", NEST + ": every expression context in every expression context", None, [1])
more("C04", "h_c04_levels", "1..40 blocks in one another, each indented by 1 or 2, then a line at any indentation, then another or none", "1..130 blocks", [1, 2])
more("C10", "h_c10_nest", NEST + ": every statement form within two contexts", "within three contexts", [1, 2])
more("C10", "h_c10_deep", NEST + ": 25 contexts within one another, three deep, around 6 statements", "three expressions in them", [1, 2])
more("C11", "h_c11_nest", NEST + ": break and continue in two contexts with something after them", None, [1, 2])
more("C11", "h_c11_heads", "a function doing one of 8 things, in one of 4 expressions, in one of 14 places of a statement, in 5 loops and functions with a break or continue behind, in 8 contexts", "in 30 contexts", [1, 2])
more("C12", "h_c12_nest", NEST + ": calls of 7 forms in calls, expressions and statements", None)
more("C13", "h_c13_many", "2..20 entries in four forms of a map and three separators, with no repeated key or any key repeating any earlier one", "2..60 entries", [1, 2])
more("C13", "h_c13_nest", NEST + ": maps and arrays of 8 forms in each other, in expressions and in statements", "with all leaves")
more("C14", "h_c14_nest", NEST + ": every expression as target and as value, in every place", None, [1, 2])
more("C15", "h_c15_methods", "classes of 0..3 methods, each class method or not, init or not, with 0..2 parameters and four bodies, with and without superclass, in braces and indented", "0..4 methods", [1])
more("C15", "h_c15_nest", NEST + ": definitions of 6 forms in each other, intact and with one token changed", None, [1])
REG["C12"]["bounds"]["h_c12_limit"] = "every number of arguments or parameters from 0 to 259 in each of five forms"
more("C16", "h_c16_branches", "every program of 6 actions over var, use, blocks, if, else, while with and without braces", "7 actions")
more("C16", "h_c16_nest", NEST + ", parsed and resolved, identifiers of two names in 4 patterns", "8 patterns, more contexts", [1, 2])
more("C18", "h_c18_branches", "every program of 6 actions over declarations, returns, this, blocks, if, else with and without braces, functions", "7 actions", [1, 2])
more("C18", "h_c18_nest", NEST + ", parsed and resolved, identifiers of two names in 4 patterns", "8 patterns, more contexts", [1, 2])
more("C19", "h_c19_params", "a line of 3 actions over functions, classes and blocks with 0..2 parameters of one name, then each of 16 probing lines", "4 actions", [1, 2, 3])
more("C19", "h_c19_branches", "a line of 4 actions over branches, loops, returns, then each of 16 probing lines", "5 actions", [1, 2, 3])
more("C19", "h_c19_nest", NEST + " as a line, parsed, then a probing line of blocks and uses", "6 probing lines", [1, 3])
more("C20", "h_c20_edit", "every statement form in every statement context with one token replaced, inserted or removed: the error stands where the reference rejects", "in all expression contexts too", [1, 2, 3])
more("C20", "h_c20_limit", "253..257 arguments or parameters in five forms, with and without any token behind the last", None, [1, 2, 3])

H23 = ("h_c23_bytes", "h_c23_sources", "h_c23_two", "h_c23_nest", "h_c23_map", "h_c23_literals", "h_c23_scopes")
reg("C23", list(H23), {
    "h_c23_bytes": "every ASCII text of 0..2 bytes",
    "h_c23_sources": "48 texts (accepted, syntax errors, name resolution errors, several errors), intact and with any one character removed or replaced by one of 5",
    "h_c23_two": "every pair of the 48 texts, one after the other",
    "h_c23_nest": NEST + ", written as text: three compositions of four",
    "h_c23_map": "maps of 0..23 entries in 5 orders of keys, with no key, the first or all keys repeated",
    "h_c23_literals": "numbers of 1..2 digits with a fraction of 0..1 and 0, 20, 300 or 320 zeros behind; strings of 0..3 of 14 characters",
    "h_c23_scopes": "uses across 0..11 blocks of one of 1..12 variables or of a global",
}, {"h_c23_bytes": "0..3 bytes", "h_c23_sources": "replaced by or preceded by one of 12 characters", "h_c23_nest": "more contexts and leaves", "h_c23_map": "0..79 entries, 12 orders",
    "h_c23_literals": "1..3 digits, fraction of 0..2, strings of 0..4", "h_c23_scopes": "0..39 blocks, 1..40 variables"},
    reach={"h_c23_bytes": [1, 2, 3], "h_c23_sources": [1, 2, 3] + list(range(101, 114)) + [121, 122] + list(range(124, 142)) + list(range(143, 150)), "h_c23_two": [1, 2, 3], "h_c23_nest": [1, 2, 3], "h_c23_map": [1, 3], "h_c23_literals": [1, 3], "h_c23_scopes": [3]},
    assumptions=["/repo's library is compiled a second time with the code it has for wasm32-unknown-unknown (serde and its derive macros are the real ones), for a 64-bit target, on top of stand-ins for wasm-bindgen and serde-wasm-bindgen (js/) that keep a JavaScript value as the tree it denotes and build what serde-wasm-bindgen 0.6.5 builds", "the expected tree is what the library compiled the usual way gives for the same text"],
    outside="the JavaScript glue wasm-bindgen generates; 32-bit sizes; larger inputs")
REG["C23"]["native"] = ["js"]

SCALE = "one of 54 forms of harness/src/scale.rs (31 of expressions, 23 of statements) repeated, side by side or in itself, 1..32, 62..64, 126..129, 254..257 or 300 times"
more("C01", "h_c01_scale", SCALE + ", whole, cut off at its last token or halfway", None, [1, 3])
more("C02", "h_c02_scale", SCALE + ", the last literal and the last operator of each level any of their class")
more("C03", "h_c03_scale", SCALE + " (expressions), last operators symbolic")
more("C10", "h_c10_scale", SCALE + " (statements), another statement behind")
more("C11", "h_c11_scale", "1..12, 64, 127, 128, 255, 256 or 257 loops, functions, blocks, branches or methods of one kind around one of any kind, a break or continue inside, between their ends or behind", None, [1, 2])
more("C14", "h_c14_scale", SCALE + " (expressions), as the target of an assignment", None, [1, 2])
more("C15", "h_c15_scale", "8 forms of classes, methods, functions repeated as above; one of the first or last names is init")
more("C20", "h_c20_scale", SCALE + " with one token near the middle or end replaced by or preceded by one of 6", None, [1, 2, 3])

TIMES = "1..12, 64, 127, 128, 255, 256 or 257 times"
TIMES2 = "1..32, 62..64, 126..129, 254..257 or 300 times"
NAMES = "33 names (alike up to case, last character or composition, near keywords, non-ASCII, up to 304 bytes)"
more("C01", "h_c01_many", "65535 or 65537 lines, blank lines, array entries, faulty characters, faulty statements, blocks or lines of a string, scanned, parsed and resolved", "65534..65538 of 12 kinds", [1, 2])
more("C01", "h_c01_spelling", "every statement form with a name, string or number put in any place; names and strings of 45 spellings", None, [1, 2, 3])
more("C02", "h_c02_spelling", "every statement form with every expression in it; names and strings of 45 spellings (long, nearly equal, non-ASCII, blank)", "all leaves")
more("C04", "h_c04_wide", "2..3 lines indented by 0, 1, 32768, 65533 or 65534 blanks", "also 255, 256, 32767", [1, 2])
more("C04", "h_c04_stack", "127, 128, 255, 256 or 257 blocks in one another, then a line at one of 8 indentations, then another or none", "also 300", [1])
more("C05", "h_c05_scale", "each insertion made 1..3, 15..17, 127, 128, 255..257 times, blank lines, comments and trailing blanks also 65534..65537 times", "also 4, 5, 8, 31..33, 254 times", [1])
more("C05", "h_c05_comment", "a comment line or trailing comment of any 0..2 bytes, wide characters, 0, 1, 255, 256, 65533 or 65536 quotes", "any 0..3 bytes", [1])
more("C06", "h_c06_scale", "9 continued lines, or 4 kinds of lines between the two parts of one, " + TIMES, TIMES2, [1, 2])
more("C07", "h_c07_long", "one of 13 characters repeated 1..3, 15..17, 127, 128, 255..257 (some 65534..65537) times after 12 beginnings, any character behind", "any two characters behind", [1, 2])
more("C07", "h_c07_wide", "6 non-ASCII characters repeated 1..3, 63, 64, 85, 86, 127, 128, 255, 256 times after 5 beginnings, any character behind", "any two characters behind", [1, 2])
more("C08", "h_c08_wide", "6 clusters of several bytes repeated 1..3, 64, 127, 128, 255..257 times in names, strings and comments, 8 ends behind")
for c, r in (("C07", [1, 2]), ("C08", [1]), ("C20", [1, 2])): more(c, "h_%s_mixed" % c.lower(), "texts of 1..5 of 13 characters: four of several bytes (letter, mark, symbol) and nine of ASCII", "1..6 of 16 characters", r)
more("C08", "h_c08_lines", "1..65537 lines of one of 9 kinds, then further tokens")
more("C09", "h_c09_scale", "strings of 1..65537 characters of 6 kinds, any byte in the middle or at the end")
more("C09", "h_c09_wide", "numerals of 1..308 digits before and 0..200 after the dot in 27 patterns", "up to 330 after the dot")
more("C13", "h_c13_limit", "126..129, 254..257 or 300 entries of a map in two forms or of an array, the last key repeating one of three earlier ones or none", None, [1, 2])
more("C13", "h_c13_spelling", "pairs of keys out of 45 spellings, as names or strings, in a braced or indented map, next to each other or one entry between", "four forms, up to 20 entries between", [1, 2])
more("C13", "h_c13_letters", "two keys of 1..10 letters, alike but for one place, where both are any character", "1..20 letters", [1, 2])
more("C15", "h_c15_spelling", "methods, functions and classes of every pair of " + NAMES)
more("C16", "h_c16_spelling", "12 programs over three names, every pair of " + NAMES + ", scanned, parsed and resolved", None, [1, 2])
more("C17", "h_c17_spelling", "12 programs over three names, every pair of " + NAMES + ", scanned, parsed and resolved", None, [1, 2])
more("C18", "h_c18_spelling", "12 programs over three names, every pair of " + NAMES + ", scanned, parsed and resolved", None, [1, 2])
FAR = "8 constructs 1..3, 126, 127, 255 or 256 deep around or within another, with one of 10 statements inside"
more("C16", "h_c16_far", FAR, "every pair of constructs, " + TIMES, [1, 2])
more("C18", "h_c18_far", FAR, "every pair of constructs, " + TIMES, [1, 2])
more("C18", "h_c18_many", "9 statements, 8 of them breaking a rule, repeated " + TIMES2 + ", then another", None, [1, 2])
more("C19", "h_c19_many", "sessions of 1..3, 16, 17, 64, 127, 128, 255..257 lines of one of 16 kinds, then each of 16 probing lines", "up to 513 lines", [1, 2])
more("C20", "h_c20_spelling", "every statement form with a name, string or number put in any place; names and strings of 45 spellings", None, [1, 2, 3])
more("C20", "h_c20_many", "9 pieces with faulty characters or indentation repeated " + TIMES + ", then another and any character", TIMES2, [1, 2, 3])
more("C20", "h_c20_errors", "10 faulty statements repeated " + TIMES + ", then another", TIMES2, [2, 3])
more("C21", "h_c21_scale", "54 forms repeated " + TIMES + ", with and without their last token", TIMES2, [1, 2, 3])
more("C21", "h_c21_alone", "31 forms of expressions repeated " + TIMES + ", alone and as a statement", TIMES2, [1, 2])
more("C22", "h_c22_wide", "a line of 1023, 1024, 4095, 4096, 8185..8193, 16383 or 16384 bytes of characters of 1..3 bytes in a name, a string or after an error, as file and as session", None, [1, 2])
more("C23", "h_c23_scale", "54 forms repeated " + TIMES + ", as text", None, [1, 3])
more("C23", "h_c23_spelling", "12 programs over three names, every pair of " + NAMES, None, [1, 3])
more("C23", "h_c23_strings", "6 texts with two strings or keys of 45 spellings", None, [1, 3])

ODD = "12 short programs with one of 60 unusual characters (separators, controls, marks, other scripts, ASCII with a mark) put anywhere, or there and at the end"
more("C01", "h_c01_odd", ODD, None, [])
for c, r in (("C07", [1, 2]), ("C08", [1]), ("C20", [1, 2])): more(c, "h_%s_odd" % c.lower(), ODD, None, r)
more("C21", "h_c21_odd", ODD, None, [1, 2, 3])
more("C22", "h_c22_odd", "6 of the " + ODD + ", as file and as session", "all 12", [1, 2])
more("C22", "h_c22_big", "65535..65537 bytes of comments of one or two bytes a character and a statement behind them, as file and as session", "131071..131073 bytes too", [1, 2])
more("C23", "h_c23_odd", ODD, None, [1, 3])
more("C23", "h_c23_many", "1..40 causes of 6 kinds", "1..300", [1, 2])

more("C19", "h_c19_history", "a session of one of 12 lines, one of 18 lines (accepted and rejected) repeated 2..5, 9, 16, 33 or 100 times, one of 2 lines, then three lines about the same names", "18 lines, 0..257 times, 4 lines", [1])
T24 = "each tree is resolved, resolved with other bindings in it before, and resolved once more"
reg("C24", ["h_c24_actions", "h_c24_places", "h_c24_branches", "h_c24_nest", "h_c24_parsed", "h_c24_near", "h_c24_scale", "h_c24_spelling", "h_c24_strings", "h_c24_numbers", "h_c24_far"], {
    "h_c24_actions": "every program of 5 actions over declarations, uses, assignments, blocks, loops, functions, returns, subclasses and methods of one name; " + T24,
    "h_c24_places": "something to resolve in each of 34 places of statements and expressions, within 0..2 of 9 enclosing constructs",
    "h_c24_branches": "every program of 5 actions over var, use, blocks, if, else, while, for with and without braces",
    "h_c24_nest": NEST + ", identifiers of two names in 4 patterns",
    "h_c24_parsed": "20 parsed programs about scopes and classes, every identifier one of two names",
    "h_c24_near": "26 programs covering every construct, with 0..1 tokens replaced by any token",
    "h_c24_scale": SCALE + ", in a function",
    "h_c24_spelling": "12 programs over three names, every pair of " + NAMES,
    "h_c24_strings": "every statement form with every expression in it; names and strings of 45 spellings",
    "h_c24_numbers": "6 numerals with 0, 1, 16, 300 or 310 zeros behind in 6 programs",
    "h_c24_far": FAR,
}, {"h_c24_actions": "6 actions, 0..1 parameters", "h_c24_places": "within 0..3 enclosing constructs", "h_c24_branches": "6 actions", "h_c24_nest": "8 patterns, more contexts", "h_c24_near": "0..2 tokens replaced by any 2", "h_c24_far": "every pair of constructs, " + TIMES},
    reach={h: [1, 2] if h not in ("h_c24_numbers",) else [1] for h in ("h_c24_actions", "h_c24_places", "h_c24_branches", "h_c24_nest", "h_c24_parsed", "h_c24_near", "h_c24_scale", "h_c24_spelling", "h_c24_strings", "h_c24_numbers", "h_c24_far")},
    assumptions=["relational: the trees that go in are compared with those that come out, by the equality of the tree types and the order of map keys"])
reg("C25", ["h_c25_two", "h_c25_bytes", "h_c25_pieces", "h_c25_many", "h_c25_large", "h_c25_alike"], {
    "h_c25_two": "every pair of 40 texts (accepted, syntax errors, name resolution errors), by 7 pairs of entry points",
    "h_c25_bytes": "any 0..2 ASCII bytes before and after one of 10 texts (two bytes: of 3), the answers for either compared",
    "h_c25_pieces": "any 2..3 of 16 pieces before and after one of 3 texts",
    "h_c25_many": "each of 40 texts analysed 2, 7, 16, 130, 260 or 1030 times between two answers for it, and for pairs of others",
    "h_c25_alike": "each of 7 texts, then the same with any one character replaced by one of 8, by three entry points: the answer for the second is that of scanner, parser and resolver one by one, and the first gets the same again",
    "h_c25_large": "texts of 1..300 lines, each with names or strings of its own, between two answers for one of 5 texts",
}, {"h_c25_two": "all 36 pairs of entry points", "h_c25_bytes": "0..3 bytes, 10 texts", "h_c25_pieces": "2..4 pieces, 10 texts", "h_c25_many": "all pairs, up to 2100 times", "h_c25_large": "up to 1000 lines", "h_c25_alike": "replaced by any ASCII character"},
    reach={h: [1, 2] for h in ("h_c25_two", "h_c25_bytes", "h_c25_pieces", "h_c25_many", "h_c25_large", "h_c25_alike")},
    assumptions=["relational: the same real entry points in one process, in one thread; hash maps of the standard library get other keys each time"],
    outside="several threads")


more("C01", "h_c01_letters", "21 forms of statements by 12 of expressions, one name any 1..14 letters, digits or underscores", "1..20", [1, 2, 3])
more("C01", "h_c01_words", "8 short texts with two words of any 1..7 letters each", "1..10 letters", [])
more("C02", "h_c02_letters", "21 forms of statements by 12 of expressions, one name any 1..14 letters, digits or underscores", "1..20")
more("C03", "h_c03_letters", "8 expressions, one of the first four names any 1..14 letters, digits or underscores", "1..20")
more("C04", "h_c04_letters", "5 indented texts with a word of any 1..10 letters at the start, in the middle or in a comment", "1..16 letters")
more("C05", "h_c05_letters", "comments of any 0..24 printable characters in 5 texts", "0..60 characters")
more("C06", "h_c06_letters", "6 texts in which a word of any 1..10 letters ends a line or begins the next", "1..16 letters", [1, 2])
more("C07", "h_c07_letters", "6 texts with a word of any 1..12 letters", "1..20 letters")
more("C07", "h_c07_word", "every word of 1..5 letters of either case, digits and underscores", "1..7")
more("C08", "h_c08_letters", "5 texts with a word of any 1..12 letters, as name, in a string or a comment", "1..20 letters")
more("C09", "h_c09_printable", "every string of 0..24 printable characters, in three statements", "0..60 characters")
more("C10", "h_c10_letters", "21 forms of statements by 12 of expressions, one name any 1..14 letters, digits or underscores", "1..20", [1, 2])
more("C11", "h_c11_letters", "6 programs of loops, one name any 1..14 letters, digits or underscores", "1..20", [1, 2])
more("C12", "h_c12_letters", "10 calls, one name any 1..14 letters, digits or underscores", "1..20", [1, 2])
more("C13", "h_c13_words", "two keys of any 1..12 letters, digits or underscores each, as names or strings, in 4 forms of maps", "1..16", [1, 2])
more("C13", "h_c13_quoted", "two quoted keys of any 0..8 printable characters each, in 3 forms of maps", "0..14", [1, 2])
more("C14", "h_c14_letters", "10 assignments, one name any 1..14 letters, digits or underscores", "1..20", [1, 2])
more("C15", "h_c15_letters", "8 definitions, one name any 1..14 letters, digits or underscores", "1..20")
NAMED = "14 programs about one name of any 1..%d letters, as it is, after a capital letter or after an underscore, scanned, parsed and resolved"
for c in ("C16", "C17", "C18", "C24"): more(c, "h_%s_letters" % c.lower(), NAMED % 5, NAMED % 7, [1, 2])
more("C19", "h_c19_letters", "sessions of two of 12 lines about one name of any 1..6 letters, then three more lines", "1..10 letters")
more("C20", "h_c20_letters", "21 forms of statements with a name put in, taken out or in the place of a token, one name any 1..12 letters, digits or underscores", "1..16", [1, 2, 3])
more("C21", "h_c21_letters", "10 short texts with a word of any 1..10 letters", "1..14 letters", [1, 2, 3])
more("C22", "h_c22_letters", "9 short texts with a word of any 1..8 letters, as file and as session", "1..12 letters", [1, 2])
more("C23", "h_c23_letters", "9 short texts with a word of any 1..8 letters", "1..12 letters", [1, 3])
more("C25", "h_c25_letters", "a text about a word of any 1..6 letters before or after one of 10 texts, by any entry point", "1..9 letters", [1])

more("C16", "h_c16_wraps", "constructs of 10 kinds nested 1..3 deep around 12 statements (7 at depth 3), names used after the constructs that declare them, 3 patterns of names", "1..4 deep", [1, 2])
more("C17", "h_c17_wraps", "constructs of 10 kinds nested 1..3 deep around 12 statements (7 at depth 3), names used after the constructs that declare them, 3 patterns of names", "1..4 deep", [1, 2])
more("C18", "h_c18_wraps", "constructs of 10 kinds nested 1..3 deep around 12 statements (7 at depth 3), names used after the constructs that declare them, 3 patterns of names", "1..4 deep", [1, 2])
more("C19", "h_c19_wraps", "constructs of 10 kinds nested 1..3 deep around 12 statements (7 at depth 3), names used after the constructs that declare them, 3 patterns of names, as a line of a session, then seven lines", "1..4 deep")
more("C24", "h_c24_wraps", "constructs of 10 kinds nested 1..3 deep around 12 statements (7 at depth 3), names used after the constructs that declare them, 3 patterns of names", "1..4 deep", [1, 2])
more("C01", "h_c01_values", "24 forms of expressions and 22 of statements, alone or (first five forms) around the expressions, every infix operator, two literals of any kind; numbers any double not negative, strings of any 0..3 printable characters", "all statements around the expressions, 0..5 characters", [1, 2])
more("C02", "h_c02_values", "24 forms of expressions and 22 of statements, alone or (first five forms) around the expressions, every infix operator, two literals of any kind; numbers any double not negative, strings of any 0..3 printable characters", "all statements around the expressions, 0..5 characters")
more("C03", "h_c03_values", "24 forms of expressions, every infix operator, two literals of any kind; numbers any double not negative, strings of any 0..3 printable characters", "0..5 characters")
more("C10", "h_c10_values", "24 forms of expressions and 22 of statements, alone or (first five forms) around the expressions, every infix operator, two literals of any kind; numbers any double not negative, strings of any 0..3 printable characters", "all statements around the expressions, 0..5 characters", [1, 2])
more("C16", "h_c16_values", "24 forms of expressions and 22 of statements, alone or (first five forms) around the expressions, every infix operator, two literals of any kind; numbers any double not negative, strings of any 0..3 printable characters", "all statements around the expressions, 0..5 characters", [1, 2])
more("C18", "h_c18_values", "24 forms of expressions and 22 of statements, alone or (first five forms) around the expressions, every infix operator, two literals of any kind; numbers any double not negative, strings of any 0..3 printable characters", "all statements around the expressions, 0..5 characters", [1, 2])
more("C24", "h_c24_values", "24 forms of expressions and 22 of statements, alone or (first five forms) around the expressions, every infix operator, two literals of any kind; numbers any double not negative, strings of any 0..3 printable characters", "all statements around the expressions, 0..5 characters", [1, 2])
NA = {}
