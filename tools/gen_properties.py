#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to make editing readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V6 = "v6/pkg/tsl/"
W6 = "v6/pkg/walkers/"

prop("C01", "v6: parsing and tree operations are safe from any number of goroutines",
 "Any number of goroutines may call the v6 parser at the same time, and may clone, inspect, edit and free their own trees meanwhile: each call returns exactly the tree or the error that its own input gives when parsed alone. Every piece of parser state that outlives one call is accessed only while one process-wide lock is held, from the start of the parse until the error text has been copied out, and the lock is released on every way out. Operations on trees touch no state shared between trees.",
 ["schedules"], "all interleavings of concurrent parse, clone, inspect, attach, detach and free calls",
 "No test parses from two goroutines; even one that did would sample a handful of interleavings, and the race detector does not see accesses made inside C.",
 [V6+"tsl.go", V6+"tsl_parser.tab.c", V6+"lex.yy.c", V6+"tsl_ast.c"],
 [("process-wide lock around the parser", "v6/pkg/tsl/tsl.go ParseTSL"), ("parser globals", "v6/pkg/tsl/tsl_parser.tab.c, lex.yy.c, tsl_ast.c")],
 [("parser globals", "root under construction, column, error text, scanner buffers", "tsl_parser.tab.c, lex.yy.c, tsl_ast.c")])

prop("C02", "v6: tree nodes are owned once; clone is deep, attach and detach move ownership",
 "Freeing a tree releases every node and text it owns exactly once. A clone has the same kind, value, operator and children in the same order as its original and shares no memory with it. Detaching hands the child to the caller and empties the slot, attaching releases the previous occupant of the slot and puts the new child there, and both fail without changing anything when the node is not of the right kind or, for arrays, the index is outside the array, however large it is.",
 ["histories"], "all sequences of clone, attach, detach, inspect and free over trees of every shape",
 "Tests call Free in a defer and never observe the C heap: a leak, a shared child or a double free in a rarely used node kind is invisible to them.",
 [V6+"tsl_ast.c", V6+"tsl.go"],
 [("recursive release", V6+"tsl_ast.c ast_free"), ("deep copy", V6+"tsl_ast.c ast_clone"), ("ownership moves", V6+"tsl_ast.c ast_attach_*, ast_detach_*")])

prop("C03", "v6: a parse releases everything it allocated that is not in the returned tree",
 "On every parse, successful or failing, each block of memory allocated while parsing is either part of the returned tree or released before the parse call returns. Nothing reachable from the returned tree is released, and nothing is released twice. A failing parse returns no tree. (The scanner's fixed buffer table, whose size does not depend on the input, may stay.)",
 ["inputs"], "all input strings, valid or not, for each grammar production and each way a parse can fail",
 "The tests check results, not the C heap; leaks and double frees on error paths or on long arrays do not change any result they look at.",
 ["v6/pkg/parser/tsl_parser.y", V6+"tsl_parser.tab.c", V6+"lex.yy.c", V6+"tsl.go"],
 [("semantic actions", V6+"tsl_parser.tab.c yyparse"), ("symbol destructors", V6+"tsl_parser.tab.c yydestruct"), ("clean-up", V6+"tsl_parser.tab.c parse_input_string, cleanup_parser_memory")])

prop("C04", "v6: precedence, associativity and tree shape of every operator",
 "For every token sequence the parser groups operators by the documented precedence (or, and, comparison-like operators, additive, multiplicative, prefix operators, unary minus; binary operators associate to the left) and accepts exactly the documented grammar. Every construct yields its documented node: operands stay in source order, the operator of the node is the one written, a negated infix form is a negation node around the positive form, a range is a two-element array (low, high), array elements keep their order, and parentheses and unary plus add no node.",
 ["inputs"], "all token sequences, hence all combinations and nestings of operators",
 "The tests parse a few dozen expressions; most pairs of operators never meet in them, and a table or action error on an untested pair changes the meaning of a filter silently.",
 ["v6/pkg/parser/tsl_parser.y", V6+"tsl_parser.tab.c"],
 [("LALR tables", V6+"tsl_parser.tab.c yypact, yytable, yycheck, yyr1, yyr2 ..."), ("semantic actions", V6+"tsl_parser.tab.c yyparse")])

prop("C05", "v6: every character sequence is split into the documented tokens",
 "The scanner splits any input by longest match into the documented tokens: case-insensitive keywords, the operators and delimiters, identifiers (with dots, slashes and bracket suffixes), numbers with optional exponent or size suffix, dates, RFC 3339 timestamps and quoted strings. A quoted string is a date or a timestamp only when its whole content has the form of one, and otherwise is a string whatever characters it contains. White space separates tokens and has no other meaning.",
 ["inputs"], "all character sequences",
 "Tests use a few spellings of each token; the automaton has thousands of transitions and the quoted-text classification is only exercised on well-formed dates.",
 ["v6/pkg/parser/tsl_lexer.l", V6+"lex.yy.c"],
 [("scanner automaton and actions", V6+"lex.yy.c yylex"), ("date detection in quoted text", V6+"lex.yy.c check_date_formats")])

prop("C06", "v6: input that is not one complete expression is rejected with a usable error",
 "Parsing succeeds only when the whole input, to its last byte, is one expression: an illegal character, an embedded NUL, an unterminated quote, a missing operand, trailing text or an empty input always yields an error and no tree, never the tree of a prefix. The error carries the parser's message, the original input and a non-negative position, and formatting it never fails.",
 ["inputs"], "all input strings that are not well-formed expressions",
 "Tests try a handful of malformed inputs; silent acceptance of a prefix or a crash while formatting the error needs an unusual byte or position.",
 [V6+"tsl.go", V6+"errors.go", V6+"tsl_parser.tab.c", V6+"lex.yy.c"],
 [("catch-all scanner rule", V6+"lex.yy.c"), ("error reporting", V6+"tsl_parser.tab.c yyerror, parse_input_string"), ("error value", V6+"tsl.go ParseTSL, errors.go SyntaxError.Error")])

prop("C07", "v6: literal values: number suffixes, booleans, null, string escapes, dates",
 "A number literal has the value of its digits times 1000, 1000^2 ... 1000^5 for the suffix k, m, g, t, p, or times the same power of 1024 when the suffix ends in i, in either letter case. String text is the quoted text with backslash escapes replaced, identifiers keep their spelling, true, false and null yield the matching values, and a timestamp literal's value is the instant it denotes.",
 ["inputs"], "all literals: every suffix, every escape, every kind of literal",
 "The tests use one or two suffixes and escapes; the others are separate branches that nothing exercises.",
 [V6+"tsl_ast.c", V6+"lex.yy.c", V6+"tsl.go"],
 [("number suffixes", V6+"tsl_ast.c ast_create_number"), ("escapes", V6+"lex.yy.c process_escapes, strip_quotes"), ("values", V6+"tsl.go TSLNode.Value")])

prop("C08", "v6: node kinds, operators and accessors agree between the C core and Go",
 "Each node kind and operator has one numeric code, the same on both sides of the C boundary, and its documented printable name (EQ, NE, AND, ...; NumberLiteral, BinaryExpression, ...), distinct from every other. Reading a node through the Go API gives the kind the parser built and exactly the stored operator, operands, elements or scalar, each from its own slot; a missing operand reads as absent.",
 ["inputs"], "all node kinds and all operators",
 "The tests touch most but not all operators and compare with the Go constants, so a renumbering that shifts a few codes is seen only for the operators they happen to use.",
 [V6+"kind.go", V6+"operator.go", V6+"tsl.go", V6+"tsl_ast.h", V6+"tsl_ast.c", V6+"tsl_parser.tab.h"],
 [("code tables", V6+"kind.go, operator.go, tsl_ast.h, tsl_parser.tab.h"), ("accessors", V6+"tsl.go Value, tsl_ast.c get_*")])

prop("C09", "v6 evaluation: comparison operators implement the order of their operands",
 "When a filter is evaluated on a record, = and != test equality and <, <=, >, >= the order of the two operand values: numbers by value whatever their Go numeric type, dates and times (including date-like text) by instant, texts and booleans by equality, with != always the opposite of =. An order comparison (<, <=, >, >=) of values that have no common order is an error, never a silent true or false; values of unlike types are not equal. When the left operand is an array the operator applies to each element in order.",
 ["inputs"], "all pairs of operand values of all supported types, in either order, for every comparison operator",
 "The tests sample a few values per operator and rarely a boundary (equal operands, mixed numeric types, date text against instant).",
 [W6+"semantics/walk.go", W6+"semantics/evaluators.go", W6+"semantics/numeric.go", W6+"semantics/dates.go"],
 [("comparison", W6+"semantics/walk.go evaluateEquality, evaluateCompareExpressions"), ("conversions", W6+"semantics/numeric.go, dates.go")])

prop("C10", "v6 evaluation: logical and arithmetic operators",
 "and, or and not combine boolean values by their truth tables and reject any other operand type with an error. +, -, *, / and % and unary minus compute on numbers in operand order, with % taken on the integer parts, and reject non-numbers with an error; division or modulo by zero (including a divisor whose integer part is zero for %) is an error.",
 ["inputs"], "all operand values and types for every logical and arithmetic operator",
 "Tests check a few operand values; zero, fractional and negative divisors and wrong operand types are mostly untested.",
 [W6+"semantics/walk.go", W6+"semantics/numeric.go"],
 [("logic", W6+"semantics/walk.go evaluateLogicalExpression"), ("arithmetic", W6+"semantics/walk.go evaluateMathExpression, evaluateSingularUnaryExpression")])

prop("C11", "v6 evaluation: in, between, is null and the array functions",
 "in is true exactly when some listed element equals the left value, between exactly when low <= value <= high with both ends included, and is null exactly when the value is null. any is true when at least one element is true, all when the array is not empty and every element is true, len is the number of elements and sum their total; a non-number in a sum and an operand of the wrong type are errors.",
 ["inputs"], "all values, all arrays of any length and all positions of the deciding element",
 "Tests use short arrays with the deciding element in one position and values strictly inside or outside a range.",
 [W6+"semantics/walk.go", W6+"semantics/evaluators.go"],
 [("membership and range", W6+"semantics/evaluators.go isValueInArray, isValueInRange"), ("array functions", W6+"semantics/walk.go evaluateArrayUnaryExpression")])

prop("C12", "v6, v5, v4 evaluation: like, ilike and regular-expression matching",
 "like matches the whole text against the pattern, where % stands for any sequence of characters (line breaks included), _ for any one character and every other character for itself; ilike is the same ignoring letter case. ~= matches when the regular expression occurs in the text and ~! is its exact opposite. An invalid regular expression, or an operand that is not text, is an error.",
 ["inputs"], "all texts and all patterns",
 "Tests use patterns of letters and %; regular-expression metacharacters, line breaks and invalid patterns never occur in them.",
 [W6+"semantics/evaluators.go", "v5/pkg/walkers/semantics/walk.go", "v4/pkg/walkers/semantics/walk.go"],
 [("pattern translation", W6+"semantics/evaluators.go evaluateLikePattern; v4, v5 likeToRegExp")])

prop("C13", "v6 evaluation never crashes and never swallows an error",
 "Evaluating any parsed tree on any record ends with a value or an error, never with a crash, whatever types the record holds and however the tree was edited through its public operations. A name the record does not have, and an error in any sub-expression, makes the evaluation of the whole expression fail with an error.",
 ["inputs"], "all trees and all records, including values of unexpected Go types",
 "Tests only evaluate well-typed records; crashes need an odd type or value in an odd position.",
 [W6+"semantics/walk.go", W6+"semantics/evaluators.go", W6+"semantics/numeric.go", W6+"semantics/dates.go"],
 [("evaluator", W6+"semantics/walk.go Walk")])

prop("C14", "SQL: literals travel as bound arguments, never inside the SQL text (v6, v5, v4)",
 "The text of the SQL condition built from a parsed filter contains only identifiers of the filter, operators, punctuation and placeholders (numbers inside arithmetic may appear as digits in v5 and v4): no character of a quoted string literal, date or timestamp is ever part of it. Each literal is passed exactly once as a bound argument, in the order of the placeholders that stand for it, with booleans as 1 and 0.",
 ["inputs"], "all filters, all literal contents and all positions a literal can take",
 "The tests compare a few generated texts; whether hostile text in some position or under some operator reaches the SQL text depends on positions they do not use.",
 [W6+"sql/walk.go", "v5/pkg/walkers/sql/walk.go", "v5/pkg/walkers/sql/ops.go", "v4/pkg/walkers/sql/walk.go", "v4/pkg/walkers/sql/ops.go"],
 [("placeholders", W6+"sql/walk.go Walk, binaryStep; v4, v5 unaryStep")])

prop("C15", "v6 SQL: the condition means the same as the filter",
 "The SQL condition, read with SQL's own precedence rules, has the structure of the filter: every operator becomes the SQL operator of the same meaning with its operands in the same order, and nested expressions keep their grouping. Operators and nodes that have no SQL form are reported as errors, and no tree makes the translation crash.",
 ["inputs"], "all trees: every operator with every kind of operand and every nesting",
 "The tests compare the text of a couple of dozen filters; grouping errors need a specific pair of nested operators.",
 [W6+"sql/walk.go"], [("templates", W6+"sql/walk.go binaryStep, unaryStep")])

prop("C16", "v6 identifier walker: checks and replaces every identifier, input untouched",
 "Every identifier of the tree, wherever it occurs (under any operator, inside arrays and ranges, or as the whole tree), is passed to the caller's check exactly once, and the returned tree is the input with exactly those identifiers replaced. If the check rejects any identifier no tree is returned and the error is. The input tree is never modified or released, and no memory is lost on any path.",
 ["inputs"], "all trees and all check functions, accepting or rejecting any subset of the identifiers",
 "Tests put identifiers on the left of comparisons only; a forgotten position lets an unchecked column name through to the database.",
 [W6+"ident/walk.go"], [("tree rewrite", W6+"ident/walk.go walkAndReplace")])

prop("C17", "v6 JSON and YAML forms carry the whole tree",
 "The JSON and the YAML form of a tree name the type of every node and contain everything needed to rebuild it: operator, left and right operand each under its own key, array elements in order, and scalar values. Both forms agree field by field, an absent operand is left out, a nil tree is null, and no tree of finite numbers and valid UTF-8 texts makes the conversion fail or crash.",
 ["inputs"], "all trees: every node kind in every position",
 "Tests convert a few trees and only in JSON or YAML for the same shapes.",
 [V6+"marshal.go"], [("conversion", V6+"marshal.go MarshalJSON, MarshalYAML")])

prop("C18", "Graphviz output has one vertex per node and one edge per child (v6, v5, v4)",
 "The graph drawn for a tree has exactly one declared vertex for every tree node, labelled with its type or operator and value, and for every non-leaf node edges to exactly its children in order. Vertex names differ within one drawing, and each named vertex in an edge is declared. No supported node is silently left out. A text that is passed in stays ahead of the drawing and a name that is passed in is the root's.",
 ["inputs"], "all trees: every node kind in every position",
 "Tests look for a few substrings; a missing vertex for one node kind or swapped children goes unnoticed.",
 [W6+"graphviz/walk.go", "v5/pkg/walkers/graphviz/walk.go", "v4/pkg/walkers/graphviz/walk.go"],
 [("drawing", "v*/pkg/walkers/graphviz/walk.go Walk")])

prop("C19", "Walkers have no side effects on trees or on shared state (v6, v5, v4)",
 "Evaluating a filter and translating it to SQL, Mongo, Graphviz, JSON or YAML or checking its identifiers never changes the tree it is given nor the record's values, so the same tree can be walked again, by several goroutines at once, with the same outcome. No package of the library keeps mutable state between calls outside the parser's lock.",
 ["schedules", "histories"], "all interleavings and repetitions of walks over a shared tree",
 "Tests walk each tree once from one goroutine.",
 [W6, "v5/pkg/walkers", "v4/pkg/walkers", "v5/pkg/tsl", "v4/pkg/tsl"],
 [("no writes to shared memory", "v*/pkg/walkers/*/walk.go, v*/pkg/tsl")])

prop("C20", "v5, v4 parser: every construct builds its documented node",
 "For every construct of the grammar the v5 and v4 parsers build the documented node: the operator written in the source, the operands in source order, the negated operator or a negation node when not is written, a range as a (low, high) array and a list with all its literals. Literal nodes carry the value of their text (numbers with size suffix, unquoted text with doubled quotes undone, booleans, dates).",
 ["inputs"], "all parse trees: every production with every operator and optional keyword",
 "The tests parse a sample of constructs and check some of the built trees.",
 ["v5/pkg/tsl/listener.go", "v4/pkg/tsl/listener.go", "v5/pkg/tsl/consts.go", "v4/pkg/tsl/consts.go"],
 [("tree building", "v*/pkg/tsl/listener.go"), ("operator table", "v*/pkg/tsl/consts.go opDic")])

prop("C21", "v5, v4 parser: malformed input gives an error, never a tree or a crash",
 "Any input that the lexer or the parser reports an error for makes the v5 and v4 parse call return a non-nil error; a literal that cannot be converted and an operand of the wrong type are also reported. No input makes the parse call crash.",
 ["inputs"], "all input strings that are not well-formed expressions",
 "The tests try a handful of malformed inputs; recovery inside the parser produces many incomplete trees they never see.",
 ["v5/pkg/tsl/tsl.go", "v5/pkg/tsl/listener.go", "v5/pkg/tsl/error_listener.go", "v4/pkg/tsl/tsl.go", "v4/pkg/tsl/listener.go", "v4/pkg/tsl/error_listener.go"],
 [("error listener", "v*/pkg/tsl/error_listener.go, tsl.go ParseTSL"), ("listener errors", "v*/pkg/tsl/listener.go GetTree")])

prop("C22", "v5, v4 evaluation: operators on numbers, texts, dates, booleans and null",
 "Evaluating a v5 or v4 filter on a record gives the documented truth value: comparison operators follow the order of the operands, membership is true exactly when some element equals the value, a range test accepts the low end and rejects values at or past the high end, each not- form is the exact opposite of its positive form, and and, or, not follow their truth tables. A name the record does not have reads as null; a comparison in which one side is null is false, and is null and is not null test for null. In v5 arithmetic on numbers follows its operators (v4 has none in evaluation).",
 ["inputs"], "all operand values and types for every operator",
 "The tests sample a few records per operator.",
 ["v5/pkg/walkers/semantics/walk.go", "v4/pkg/walkers/semantics/walk.go"],
 [("evaluation", "v*/pkg/walkers/semantics/walk.go")])

prop("C23", "v5, v4 evaluation never crashes on a parsed filter and reports every error",
 "Evaluating any tree that the v5 or v4 parser can return, on any record, ends with true, false or an error, never with a crash. A value of an unsupported type, an operator that cannot be applied to its operands, and an error in any sub-expression make the whole evaluation fail with an error.",
 ["inputs"], "all parsed trees and all records",
 "The tests evaluate well-typed records only.",
 ["v5/pkg/walkers/semantics/walk.go", "v4/pkg/walkers/semantics/walk.go"],
 [("evaluation", "v*/pkg/walkers/semantics/walk.go")])

prop("C24", "v5, v4 SQL: operators, operand order and grouping are preserved",
 "The SQL condition that v5 and v4 build from a parsed filter, read with SQL's own precedence rules, has the structure of the filter: every operator becomes the SQL operator of the same meaning on the same operands in the same order and with the same grouping. A list keeps all its elements. What cannot be expressed in SQL is an error, and an error in any part fails the whole translation.",
 ["inputs"], "all parsed trees: every operator with every kind of operand",
 "The tests compare the text of three filters per version.",
 ["v5/pkg/walkers/sql/walk.go", "v5/pkg/walkers/sql/ops.go", "v4/pkg/walkers/sql/walk.go", "v4/pkg/walkers/sql/ops.go"],
 [("translation", "v*/pkg/walkers/sql")])

prop("C25", "v5, v4 Mongo: the query document means the same as the filter",
 "The Mongo document built from a filter applies, to the field named in the filter, the Mongo operator of the same meaning with the filter's value or list, for every supported operator; ranges include both ends and negated forms are the exact opposite of the positive ones. Logical operators combine the documents of their operands in order. Operators and values that the translation does not support are errors, never a document that ignores them.",
 ["inputs"], "all parsed trees: every operator with every kind of operand",
 "The Mongo walker has no tests in the repository.",
 ["v5/pkg/walkers/mongo/walk.go", "v4/pkg/walkers/mongo/walk.go"],
 [("translation", "v*/pkg/walkers/mongo/walk.go")])

prop("C26", "v5, v4 identifier walker: every identifier is checked and replaced",
 "Every identifier of a parsed v5 or v4 tree, on either side of any operator and inside arithmetic, is passed to the caller's check, and the returned tree is the input with exactly those identifiers replaced by what the check returned and nothing else changed. If the check rejects any identifier the walk returns that error.",
 ["inputs"], "all parsed trees and all check functions",
 "The walker has no tests in v4 and v5.",
 ["v5/pkg/walkers/ident/walk.go", "v4/pkg/walkers/ident/walk.go"],
 [("tree rewrite", "v*/pkg/walkers/ident/walk.go Walk")])

prop("C27", "Commands: user filters reach a database or evaluator only after the column check",
 "In every example command that runs a user's filter against data (SQL, GORM, GraphQL, Mongo and in-memory), the parsed filter reaches the query builder or the evaluator only after the identifier walk with the command's column whitelist has succeeded, and it is the checked tree that is used. The whitelist check accepts exactly the documented column names and returns an error for every other name. A parse, check, translation or evaluation error is reported as a failure and stops the command before any further query, a failing query or row is reported as a failure too, and every row the command delivers comes from a query that carries the checked filter.",
 ["inputs"], "all user-supplied filters, on every path of the commands",
 "The commands have no tests; the order of the steps is visible only on paths where an error occurs.",
 ["v5/cmd/tsl_sqlite/main.go", "v5/cmd/tsl_gorm/main.go", "v5/cmd/tsl_graphql/main.go", "v5/cmd/tsl_mongo/main.go", "v5/cmd/tsl_mem/main.go", "v4/cmd", "v6/cmd/tsl_mem/main.go"],
 [("whitelist step", "v*/cmd/*/main.go, model.go checkColumnName")])

prop("C28", "v6 command line printer shows every node of the tree once, in order",
 "The v6 tsl command prints one line for every node of the parsed tree, in the order node, left, right (or elements in order), indented by depth, with the type or operator name and the value of each leaf, whatever characters the values contain; a timestamp is shown so that its instant can be read back to the second. A nil child is skipped and no tree makes printing crash.",
 ["inputs"], "all trees: every node kind in every position and all literal contents",
 "The golden-output cases cover a sample of node kinds and plain values.",
 ["v6/cmd/tsl/printer.go", "v6/cmd/tsl/main.go"],
 [("printing", "v6/cmd/tsl/printer.go ASTPrinter.Print")])

prop("C29", "v5, v4: ParseTSL is safe from any number of goroutines",
 "Any number of goroutines may call the v5 or the v4 ParseTSL at the same time and each gets the tree or error of its own input. The generated lexer and parser share prediction tables that they extend while parsing: every use of them happens while one process-wide lock is held, and that lock is released on every way out of the call, including errors and recovered panics.",
 ["schedules"], "all interleavings of concurrent ParseTSL calls",
 "No test parses from two goroutines, and a data race in the prediction tables shows up only on the first occurrences of an input shape, on some schedules.",
 ["v5/pkg/tsl/tsl.go", "v4/pkg/tsl/tsl.go", "v5/pkg/parser", "v4/pkg/parser"],
 [("process-wide lock around the generated parser", "v*/pkg/tsl/tsl.go ParseTSL")],
 [("prediction tables", "decision automata and contexts shared by all parser instances", "v*/pkg/parser/*_parser.go, *_lexer.go")])

prop("C30", "Data commands store, look up and show every column consistently (v6, v5, v4)",
 "In every example data command, each accepted column name is looked up in the table column, document key or record entry that holds the documented field; all example books are stored, every field in its own column, and every row found is shown once, in order, with each field's own value. The in-memory command evaluates the filter once per book, on that book's values (absent pages and rating read as null), prints exactly the books for which the filter is true, in order and in the requested form (json when none is requested), and reports an unknown form as an error.",
 ["inputs"], "all column names, all rows, all sets of matching records and all output forms",
 "The commands have no tests; a column that is looked up or read under another name goes unnoticed until someone filters by it.",
 ["v5/cmd", "v4/cmd", "v6/cmd/tsl_mem/main.go", "v6/cmd/tsl_mem/model.go"],
 [("column map", "v*/cmd/*/main.go, tsl_mem/model.go columnNamesMap"), ("storing and reading", "v*/cmd/*/model.go prepareCollection, main.go Scan")])

prop("C31", "tsl_parser commands print exactly the requested form of the parsed tree",
 "For every output form (json, yaml, dot, sql, and prettyjson in v4 and v5) the tsl_parser commands print that form of the tree parsed from the user's text: the encoded tree, its drawing, or the SQL text together with all its arguments in order; without a requested form it is json. When the parse, the translation or the encoding fails the command fails and prints no result; v6 also rejects unknown forms.",
 ["inputs"], "all input texts and all output forms, with every step succeeding or failing",
 "The commands have no tests; an error that is dropped on one path prints an empty or stale result with a success status.",
 ["v6/cmd/tsl_parser/main.go", "v5/cmd/tsl_parser/main.go", "v4/cmd/tsl_parser/main.go"],
 [("output forms", "v*/cmd/tsl_parser/main.go main")])

ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
