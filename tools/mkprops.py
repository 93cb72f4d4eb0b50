#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long lines stay reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/scanner.rs";PA="src/parser.rs";R="src/resolver.rs";A="src/ast.rs";E="src/environment.rs";M="src/main.rs";ER="src/error.rs";T="src/token.rs";V="src/value.rs";W="src/wasm.rs";L="src/source_loc.rs"

p("C01","Every source text is answered: no panic, no hang, no empty error",
"For every source text, scanning it, parsing it (as a program, as a REPL line, as a single expression) and resolving the parsed program each terminate and return either a value or an error carrying at least one cause. None of them panics, overflows an integer, reads out of bounds or loops forever, whatever the layout, length of line, indentation or token order (nesting so deep that the machine stack is exhausted excepted).",
["inputs","programs"],"all UTF-8 source texts and all token sequences",
"The tests run about sixty hand-written well-formed snippets; hangs and arithmetic panics live on malformed layouts, empty inputs, odd token orders and counter boundaries that none of them contains.",
[S,PA,R],[("scan loop and end-of-input flag",S+" scan_tokens/advance"),("error recovery always advances",PA+" primary/synchronize"),("saturating position counters",S+" advance/reset_line")],
["parser::parse","parser::parse_repl_line","parser::parse_expression","Resolver::resolve","Scanner::scan_tokens"])

p("C02","An accepted program's tree contains the whole source and nothing else",
"Whenever a token sequence is accepted, reading the resulting tree in source order gives back exactly the tokens that were parsed: every name, literal, operator and keyword-headed construct occurs once, in order, and nothing is dropped, duplicated or invented. The only differences are tokens that carry no content (separators, block and bracket delimiters) and the documented defaults (a missing initializer or return value is nil, a missing for-condition is true).",
["inputs","programs"],"all token sequences the parser accepts",
"Unit tests compare the trees of a few fixed snippets; a parser that skips or repeats a token only in a rare context passes all of them.",
[PA,A],[("recursive-descent productions",PA+" declaration..primary"),("end-of-file check after the last statement",PA+" parse")],
["Parser::parse","Parser::parse_expression","parser::parse"])

p("C03","Operator precedence and associativity are uniform",
"Every expression well-formed under these rules is accepted, and in every accepted expression the operators bind, from loosest to tightest, as assignment, or, and, equality, comparison, additive, multiplicative, unary, then call/property/index; assignment and unary operators group to the right and all binary operators to the left. Parentheses override this, and each operator node carries the operator that was written and that operator's position.",
["inputs","programs"],"all expressions built from the operators and operands",
"Tests cover three two-operator expressions; precedence is a relation over every pair and nesting of operators.",
[PA,A],[("precedence ladder",PA+" assignment/or/and/equality/comparison/addition/multiplication/unary/call")],
["parser::parse_expression","Parser::parse_expression"])

p("C04","Indentation determines block structure exactly",
"For every layout, a logical line indented deeper than the innermost open block opens exactly one block; a line indented less closes exactly the open blocks that are deeper than it and is an error if its indentation is not that of a block still open (or the top level); an equally indented line neither opens nor closes. Every block opened is closed by the end of the source, so block openings and closings are always balanced and properly nested, and each logical line ends with exactly one terminator.",
["inputs"],"all sequences of lines with arbitrary indentation widths",
"The tests contain one indented snippet with a single level; multi-level dedents, dedents to a column between two levels and end-of-input closings are unbounded in combination.",
[S],[("indentation stack",S+" bol_indentation_tokens/close_all_blocks")],["Scanner::scan_tokens"],
[("indentation","columns of the open blocks",S),("bol_spaces/is_bol","indentation of the current line",S)])

p("C05","Blank lines, comments, trailing spaces and CRLF change nothing",
"Inserting blank or space-only lines, inserting comment-only lines at any indentation, appending spaces or a // comment to a line (that does not end in a backslash), or ending lines with CRLF instead of LF (outside string literals) never changes the sequence of tokens a source produces, only their positions. A line holding nothing but a comment therefore neither opens nor closes a block, ends a statement, nor interrupts a continued line.",
["inputs"],"all source texts and all insertion points",
"Tests try three comment snippets, none indented, and never a CRLF file; insignificance is a statement about every insertion point in every program.",
[S],[("comment skipping",S+" scan_token '/' / advance_to_eol"),("blank-line handling",S+" reset_line")],["Scanner::scan_tokens","parser::parse"])

p("C06","Line continuation joins lines exactly when it should",
"A newline ends a statement unless the line's last token is an opening bracket, comma, colon, dot or one of + - * / < > <= >=, or the line ends in a backslash; in those cases no terminator is produced and a deeper indentation of the next non-blank line opens no block. The continuation applies to that one next non-blank line only, and a backslash followed by anything but spaces and a line end is an error.",
["inputs"],"all sequences of lines, line endings and last tokens",
"Tests cover only '+' and backslash with one following line; which tokens continue, how far the effect reaches and its interplay with blank lines and indentation are not sampled.",
[S],[("continuation flags",S+" scan_token/reset_line")],["Scanner::scan_tokens"],
[("is_line_continuation/following_line_continuation","whether the current/next line continues the previous one",S)])

p("C07","Tokenization: longest match, right kind, nothing skipped",
"Every character of a source outside comments and insignificant whitespace belongs to exactly one token or is reported as an error, tokens are formed by longest match (== != <= >= over their one-character prefixes, identifiers and numbers as long as possible, a fraction only when a digit follows the dot), and a word is a keyword exactly when the whole word is reserved. An opening parenthesis is classified as touching the previous token exactly when no whitespace or line break separates them.",
["inputs"],"all source texts",
"Tests scan each token in isolation; what neighbours do to each other (keyword prefixes, operators run together, dots after numbers, non-ASCII words) is a property of all adjacent pairs.",
[S,T],[("lexeme dispatch",S+" scan_token/scan_number/scan_identifier"),("keyword table",S+" KEYWORDS")],["Scanner::scan_tokens"])

p("C08","Token positions and lexemes are exact",
"Every token carries the 1-based line and column (in user-perceived characters) of its first character, and its text is exactly the slice of the source that starts there; tokens appear in source order without overlapping. This holds after multi-line strings, continued lines, comments and multi-byte characters, and counters that reach their maximum stay there instead of wrapping.",
["inputs"],"all source texts",
"Positions are asserted for about sixty tokens, nearly all on line one or in single-line ASCII snippets.",
[S,T,L],[("line/column accounting",S+" advance/reset_line/scan_string/add_token")],["Scanner::scan_tokens","parser::parse"],
[("line,column,start_column","current position",S)])

p("C09","Literal values equal their source text",
"The value of a number token is the double nearest to the decimal numeral that was written, and the value of a string is exactly the text between its quotes, including line breaks, with no escape processing; a string with no closing quote is an error. These values reach the tree unchanged.",
["inputs"],"all numerals and string contents",
"Tests scan three numerals and two strings.",
[S,PA],[("number and string scanning",S+" scan_number/scan_string"),("literal nodes",PA+" primary")],["Scanner::scan_tokens","parser::parse_expression"])

p("C10","Statements parse to the trees their form dictates",
"Each statement form (var, print, return, if/else, while, for, block, expression) yields the corresponding tree with its parts in place: an else belongs to the nearest if that can take it, a for-loop becomes its initializer followed by a loop with the given condition, body and increment, and a missing part gets its default. Wherever a body is expected (function, class, if, else, while, for), it may be given in braces or as an indented block with the same resulting tree, and bodies of if, else and loops may also be single statements.",
["inputs","programs"],"all statement nestings and part combinations",
"Tests parse about a dozen fixed statements, never an else, a braced body or a for with only some parts.",
[PA,A],[("statement productions",PA+" statement/finish_*"),("block delimiters",PA+" consume_begin_block/finish_block")],["Parser::parse","parser::parse"])

p("C11","break and continue are accepted exactly inside a loop of their function",
"A break or continue statement is accepted if and only if it lies in the body of a while or for loop within the same function body (or top-level code), at any nesting of blocks and ifs; otherwise the program is rejected. A function nested in a loop body starts outside any loop, and leaving a loop or function restores the enclosing situation.",
["programs"],"all nestings of loops, functions, methods, blocks and ifs",
"Tests try single-level loops with at most one if; functions inside loops and code after loops at depth are unbounded combinations.",
[PA],[("loop depth tracking",PA+" loop_body_statement/finish_break_statement/function_definition")],["parser::parse","Parser::parse"],
[("in_loops","number of enclosing loops",PA)])

p("C12","Calls: all forms pass the written arguments; at most 255",
"f(a, b) with an abutting parenthesis and f a, b by juxtaposition produce the same call with the written arguments in order; a parenthesis separated by whitespace groups the first argument instead. A call with more than 255 arguments, or a function with more than 255 parameters, is rejected, and up to 255 are accepted with none lost.",
["inputs","programs"],"all argument and parameter lists of any length and both call forms",
"Tests use at most three arguments and never approach the limits.",
[PA],[("argument parsing",PA+" call/finish_call/finish_call_without_parens/function_definition")],["parser::parse","Parser::parse"])

p("C13","Map and array literals keep every entry, in order, keys unique",
"A map literal, braced, bare or indented, yields its entries in written order with each key's own value, entries being separated by commas or line ends with an optional trailing separator; identifier and string spellings of a key are the same key, and a literal that repeats a key is rejected at the repeated key. An array literal yields its elements in order, with one optional trailing comma.",
["inputs","programs"],"all entry counts, key equalities, separators and nestings",
"Tests use two distinct keys; duplicates, many entries, nested maps and mixed separators are never sampled.",
[PA,A],[("map production",PA+" literal_map"),("insertion-ordered map",A+" Map")],["parser::parse","parser::parse_expression","Map::insert/iter"])

p("C14","Only variables, properties and elements can be assigned",
"An assignment is accepted exactly when its left side is a variable other than this, a property access or an index access, and it then yields the matching assignment node with the target's object, name or index and the right-hand side unchanged; any other left side is rejected at the equals sign. Chained assignments group to the right.",
["inputs","programs"],"all expressions as left and right sides",
"Tests assign to one variable and one element and never to an invalid target.",
[PA,A],[("assignment production",PA+" assignment")],["parser::parse_expression","Parser::parse_expression"])

p("C15","Function and class definitions keep their shape",
"A function definition yields its name, its parameters in order and its body; a class yields its name, optional superclass and its methods in order, where a method is a class method exactly when marked class, otherwise an initializer exactly when named init, otherwise a plain method. Functions outside classes are plain functions whether named or used as expressions, and a function in expression position may not have a name.",
["programs"],"all definitions with any number of parameters, methods and nested definitions",
"Tests contain one parameterless function and no class at all.",
[PA,A],[("definition productions",PA+" finish_class_declaration/finish_fun_declaration/function_definition")],["parser::parse","Parser::parse"])

p("C16","Every name resolves to its nearest enclosing declaration",
"In every resolved program each use or assignment of a variable (including this, super and superclass names) is bound to the nearest enclosing scope that declares the name at that point, recorded as the number of scopes between use and declaration plus the slot that declaration was given; names declared nowhere enclosing are bound to one global slot per name, also when the global is defined only later. Local slots are numbered from 0 in the order of declaration. Blocks, functions, classes with a superclass and method tables each add exactly the scopes their semantics require, and leaving one restores the outer bindings.",
["programs"],"all scope nestings, declaration orders and name equalities",
"The resolver has no unit test at all.",
[R,E,A],[("scope stack",R+" begin_scope/end_scope/resolve_local_variable"),("forward reservation of globals",R+" forward_reserve_global_var")],["resolver::resolve","Resolver::resolve"],
[("scopes","names and slots of each open scope",R)])

p("C17","Distinct variables of a scope never share a slot",
"In any one scope, global or local, different names always receive different slot numbers and a name keeps its slot for as long as the scope lives; a slot number recorded in the tree is always the true slot of the variable. A scope with more variables than slot numbers can represent is rejected with an error instead of being accepted with overlapping slots.",
["programs","histories"],"all numbers of variables per scope, through every way of declaring one",
"The resolver has no unit test, and the limit needs hundreds of declarations in one scope.",
[R,E],[("slot allocation",R+" declare/define/forward_reserve_global_var/ensure_scope_index_limit"),("slot width",E+" SlotIndex/VarLoc")],["resolver::resolve","Resolver::resolve"])

p("C18","Static rules are enforced exactly",
"A parsed program is rejected by name resolution if and only if it returns outside any function, returns a value (other than a literal nil) from an initializer, uses this outside a class, uses super outside a class or in a class without superclass, makes a class inherit from itself, reads a variable in its own initializer in the same scope (a global that was declared before excepted), or declares a local name twice in one scope (exceeding slot limits apart); the rejection names the offending construct and its position. Programs breaking none of these rules are never rejected.",
["programs"],"all nestings of classes, methods, functions, blocks and declarations",
"The resolver has no unit test; each rule depends on the whole chain of enclosing constructs.",
[R],[("context tracking",R+" function_type/class_type"),("declaration states",R+" declare/define")],["resolver::resolve","Resolver::resolve"])

p("C19","A REPL session is not corrupted by earlier lines",
"After any sequence of accepted and rejected lines resolved in one session, a further line is accepted or rejected exactly as it would be in a fresh session, with the same bindings of its local variables (except that the session may have run out of global slots, and that the initializer of a global may read the global of that name declared by an earlier line). Every global name keeps the same slot from its first appearance to the end of the session, and different names have different slots.",
["histories"],"all histories of lines, including lines rejected half-way through nested constructs",
"No test resolves even one program, let alone a history with failing lines.",
[R,M],[("state restoration on error",R+" resolve_statement/resolve_class/resolve_function")],["Resolver::resolve"],
[("scopes, function_type, class_type","resolver context that survives a line",R)])

p("C20","Errors point at the offending place",
"Every reported error carries the position of an actual token, character or end of the source, and when it names a token that text is what stands at the position. Causes are reported in source order; the first syntax error stands exactly at the first token with which no valid program could continue, or at the construct that breaks a rule (at the end of the source, the last token may be named instead).",
["inputs","programs"],"all rejected sources",
"Tests check the position of three errors.",
[S,PA,R,ER],[("error constructors",PA+" error_from_peek/error_from_last"),("scanner errors",S+" error")],["ParseError.causes"])

p("C21","REPL-line mode and file mode agree",
"Any text accepted as a program is accepted as a REPL line with the same tree, and a text is accepted as a REPL line but not as a program only when it ends in an expression whose final line end is missing, in which case the tree is that of the text with the line end added. A single expression (not beginning with a brace) parsed alone has the same tree as when it stands as an expression statement.",
["inputs","programs"],"all texts under the three entry points",
"No test calls the REPL entry point.",
[PA],[("trailing-expression flag",PA+" with_trailing_expression/expression_statement")],["parser::parse","parser::parse_repl_line","parser::parse_expression"])

p("C22","The command line reports success and failure faithfully",
"Given a source file, the program exits with status 0 and prints the tree exactly when the source is accepted, and otherwise exits with status 65 and writes every cause, with its position, to standard error. The interactive prompt processes each line in one session and ends when its input ends.",
["inputs","histories"],"all file contents and all sequences of input lines",
"No test runs the binary.",
[M],[("file and prompt loops",M+" run_file/run_repl/print_result")],["process exit status","stdout","stderr"])

p("C23","The browser entry point returns the library's tree",
"The function exported to JavaScript (parseString) returns, for every source text the library accepts, a JavaScript value that mirrors the resolved tree node for node: every statement and expression is an object with its kind as type and its contents as args, every other record an object of its fields, every list an array, a missing part undefined, operators and kinds of function their names, and a map literal a Map with its entries in written order. For every other text it throws an error whose message contains every cause, with place, token and message, in order.",
["inputs"],"all source texts",
"Nothing tests the WebAssembly build.",
[W,A],[("serialization",W+" wasm_parse_string; "+A+" Serialize impls")],["parseString in JavaScript"])

p("C24","Name resolution writes bindings into the tree and changes nothing else",
"When name resolution accepts a program, the tree it returns is the tree it was given but for the places of its bindings (the slot of a declaration, the distance and slot of a use): the same statements and expressions in the same order, the same names, literals, operators, kinds of functions, source positions and map entries in written order. The bindings it writes depend on the program alone, not on what those places held before, so that resolving a resolved tree again gives the same tree.",
["programs"],"all trees the parser can produce",
"No test resolves a program and looks at the tree that comes out.",
[R],[("traversal",R+" resolve_statement/resolve_expression/resolve_class/resolve_function"),("result",R+" Resolver::resolve")],["resolver::resolve","Resolver::resolve"])

p("C25","The answer for a text depends on that text alone",
"Scanning, parsing (as a program, a prompt line or an expression) and resolving a text in a session of its own gives the same tokens, the same tree or the same errors, whatever texts were analysed in the process before, through whichever entry points, however many they were and whether they were accepted or rejected.",
["inputs","histories"],"all histories of texts analysed in one process",
"Each test analyses one text; nothing analyses a text again after others.",
[S,PA,R],[("keyword table and other state of the process",S),("parser state",PA+" Parser"),("resolver state",R+" Resolver")],["parser::parse","parser::parse_repl_line","parser::parse_expression","Scanner::scan_tokens","resolver::resolve"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
