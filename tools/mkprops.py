#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are hard to edit by hand)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Parsing any text ends safely with a program or an error list",
  "For every UTF-8 text, parsing returns - without a panic, without reading outside the text, and with time and memory bounded by a small linear function of the text's length - either a program or a non-empty list of errors. Dropping the result and printing its errors is equally safe. (Only the nesting of brackets and the like is bounded, by the stack.)",
  ["inputs"],"every UTF-8 string (nesting depth bounded): random bytes, token soup, mutated and truncated programs, unterminated literals and comments, non-ASCII text",
  "The tests parse about 200 hand-written, almost always valid ASCII programs; the lexer works on raw pointers with a NUL sentinel, so a single missing end check is an out-of-bounds read or an endless loop only on inputs no test contains.",
  ["ratel/src/lexer/mod.rs","ratel/src/parser/mod.rs","ratel/src/parser/statement.rs","ratel/src/parser/expression.rs","ratel/src/parser/error.rs"],
  [("NUL-terminated source and byte handlers that stop at 0","ratel/src/lexer/mod.rs"),("error recovery: each error consumes a token, loops stop at EndOfProgram","ratel/src/parser/mod.rs, macros.rs")],
  ["ratel::parse","ratel::lexer::Lexer"])
p("C02","Tokens partition the source text",
  "Stepping the lexer over any text visits tokens in source order whose spans are non-empty, in bounds, on character boundaries and do not overlap, and it reaches the end after at most one token per byte. Between two tokens there is nothing but white space (ASCII control characters count as such) and comments, and the text the lexer reports for a token is exactly the source at its span.",
  ["inputs"],"every UTF-8 string, stepped token by token (including template continuation after a closing brace and regular-expression reading after a slash)",
  "Lexer tests check token kinds of a dozen short ASCII snippets and hardly any span; skipped bytes, zero-length tokens or spans in the middle of a character are invisible to them.",
  ["ratel/src/lexer/mod.rs","ratel/src/lexer/labels.rs","ratel/src/lexer/util.rs"],
  [("byte handlers, token_start / index bookkeeping","ratel/src/lexer/mod.rs")],
  ["ratel::lexer::Lexer::{new,consume,token,start,end,token_as_str,accessor_as_str,quasi,read_template_kind,read_regular_expression}"])
p("C03","Every token is recognised as ECMAScript defines it",
  "Whatever tokens precede and follow it and whatever white space or comments separate them, each keyword, identifier, punctuator, number, string, template piece and regular expression is recognised as one token of its own kind, by longest match, with its exact text. After a token the lexer reports implicit semicolon insertion as possible exactly when a line terminator (also inside or before a comment) precedes the current token or that token is a closing parenthesis, closing brace or the end of the text.",
  ["inputs","histories"],"every sequence of valid tokens drawn from the full token vocabulary (near-keywords, maximal-munch operators, all number forms, escapes, non-ASCII identifiers) with every layout between them",
  "Keywords are matched by hand-written byte tries and operators by nested byte switches; tests take each token once, followed by a space or the end, never next to a similar prefix or an unusual separator.",
  ["ratel/src/lexer/mod.rs","ratel/src/lexer/labels.rs","ratel/src/lexer/token.rs","ratel/src/lexer/util.rs"],
  [("keyword tries","ratel/src/lexer/labels.rs"),("operator and literal handlers","ratel/src/lexer/mod.rs"),("asi flag","ratel/src/lexer/mod.rs consume")],
  ["ratel::lexer::Lexer"])
p("C04","Parsing yields the syntax tree the grammar prescribes",
  "For every program of the supported ECMAScript subset, parsing succeeds and the tree has exactly the nodes, order, names, literal texts and operator nesting (precedence, associativity, member/call/new binding, statement and clause structure) that the grammar prescribes. Nothing is dropped, duplicated, reordered or re-associated, and every operator in the tree says of itself (prefix(), infix(), assignment()) what it is used as.",
  ["programs"],"every program of the supported subset (all statements, expressions, patterns, classes, functions, templates, imports), of any shape and nesting",
  "The parser is driven by 14 hand-written 108-entry dispatch tables; tests cover each construct once in isolation, so a wrong entry shows only when two particular operators or constructs meet.",
  ["ratel/src/parser/expression.rs","ratel/src/parser/nested.rs","ratel/src/parser/statement.rs","ratel/src/parser/function.rs","ratel/src/parser/mod.rs"],
  [("binding-power lookup tables","ratel/src/parser/nested.rs"),("statement handler table","ratel/src/parser/statement.rs"),("patterns, params, classes","ratel/src/parser/function.rs")],
  ["ratel::parse","ratel::Module::body"])
p("C05","Layout, comments, extra parentheses and ASI never change the tree",
  "Rewriting a program's layout - other white space, line breaks and comments between tokens where the grammar allows them, redundant parentheses around expressions, and leaving out semicolons wherever automatic semicolon insertion supplies them - never changes the parsed tree. Conversely a line break after return, break or continue, or before a postfix ++ or --, always ends the statement there.",
  ["programs","inputs"],"every supported program under every pair of equivalent layouts, and every restricted production with and without the line break",
  "Semicolon insertion and comments are exercised by a handful of fixed tests; the interaction of a line break or comment with each kind of following token is a product no test enumerates.",
  ["ratel/src/lexer/mod.rs","ratel/src/parser/statement.rs","ratel/src/parser/nested.rs","ratel/src/parser/expression.rs"],
  [("Asi flag and expect_semicolon","ratel/src/lexer/mod.rs, ratel/src/parser/statement.rs"),("no postfix after a line break","ratel/src/parser/nested.rs handler")],
  ["ratel::parse"])
p("C06","Malformed programs are rejected",
  "Parsing reports at least one error for every text that is not a program because a bracket, parenthesis, brace, quote, template or comment is left open or is closed without being opened, a required operand, name, keyword, separator or clause is missing, two operands or statements stand on one line with no separator, or an assignment or update targets something that cannot be assigned. It never silently accepts such a text by dropping or inventing parts of it. (Not included: what is wrong only because of its context, such as break outside loops, names declared twice or strict mode, and what is inside names, numbers, strings and regular expressions.)",
  ["programs","inputs"],"every supported program broken by one such edit at every position (truncation, token deletion, insertion, replacement), kept only when an independent grammar oracle also rejects it",
  "Nearly all existing tests are positive; only a few assert that some text fails to parse.",
  ["ratel/src/parser/mod.rs","ratel/src/parser/macros.rs","ratel/src/parser/statement.rs","ratel/src/parser/expression.rs","ratel/src/parser/function.rs"],
  [("expect! and error()","ratel/src/parser/macros.rs, mod.rs"),("is_lvalue","ratel/src/ast/expression.rs")],
  ["ratel::parse"])
p("C07","Errors point at the offending token and print the right place",
  "Every reported error has a span inside the text on character boundaries whose recorded text is the source there (its Debug form has all of them), errors come in source order, and the first error does not lie before a point up to which the text is still a prefix of some valid program, nor depend on the text after the offending token. The rendered message names the 1-based line and column of that span, quotes its line with up to two lines before and two after it (each as it is in the text, under its own number) and underlines exactly the span, whatever the text around it contains.",
  ["inputs","programs"],"every rejected text, every span in every multi-line (also non-ASCII) text",
  "One test renders one error in a one-line text; no test looks at error positions after a line break, at the end of the text, or in non-ASCII text.",
  ["ratel/src/error.rs","ratel/src/lexer/mod.rs","ratel/src/parser/mod.rs"],
  [("invalid_token records the span and raw text","ratel/src/lexer/mod.rs"),("Display for ParseError computes line, column and caret line","ratel/src/error.rs")],
  ["ratel::parse errors","ratel::error::ParseError Display"])
p("C08","Every node's source location covers exactly its own text",
  "Each node of a parsed tree carries the start and end offsets of its own first and last token in the source (enclosing parentheses not counted), so children lie inside their parents, siblings are ordered and disjoint, and slicing the source at an identifier's, literal's or template piece's location gives its text. Locations are the same, shifted, when text is put in front of the program. (Six conventions that the repository's own tests fix differ and are listed as known findings; a `var`, `let` or `const` declaration includes its semicolon.)",
  ["programs"],"every supported program in every layout, every node of its tree",
  "Locations are asserted for a few dozen nodes in single-line tests where the following token happens to be adjacent, which hides ends taken from the wrong token.",
  ["ratel/src/parser/expression.rs","ratel/src/parser/nested.rs","ratel/src/parser/statement.rs","ratel/src/parser/function.rs","ratel/src/ast/mod.rs"],
  [("Loc start/end taken around consume","ratel/src/parser/*.rs")],
  ["ratel::ast::Loc on every node"])
p("C09","Minified output parses back to the same program",
  "For every supported program, generating minified code and parsing it again succeeds and yields a tree equal to the original in everything but source locations. Generating from that second tree reproduces the same text byte for byte.",
  ["programs"],"every program of the supported subset",
  "Codegen tests compare about 30 fixed outputs; whether parentheses, spaces between words and signs, separators and braces suffice depends on every combination of parent and child node.",
  ["ratel-codegen/src/lib.rs","ratel-codegen/src/expression.rs","ratel-codegen/src/statement.rs","ratel-codegen/src/function.rs","ratel/src/ast/operator.rs","ratel/src/ast/expression.rs"],
  [("write_expression parenthesises by binding power","ratel-codegen/src/lib.rs"),("operator spacing by category","ratel-codegen/src/expression.rs"),("binding_power","ratel/src/ast/expression.rs, operator.rs")],
  ["ratel_codegen::codegen(module, true)"])
p("C10","Pretty output is the same program, indented",
  "For every supported program, the pretty-printed code parses back to an equal tree, re-printing that tree reproduces it byte for byte, and it contains the same token sequence as the minified code, so the two modes differ in white space only. Every statement of the program starts a line of its own, each nested block is indented four spaces deeper than its surroundings, and no line break is introduced inside a token.",
  ["programs"],"every program of the supported subset, printed in both modes",
  "The few pretty-printing tests fix the output of single constructs; nothing relates the two generators on arbitrary programs.",
  ["ratel-codegen/src/lib.rs","ratel-codegen/src/expression.rs","ratel-codegen/src/statement.rs","ratel-codegen/src/function.rs"],
  [("PrettyGenerator new_line/indent/dedent","ratel-codegen/src/lib.rs")],
  ["ratel_codegen::codegen(module, false)"])
p("C11","Generated code means the same to a real JavaScript engine",
  "For every supported program that an independent JavaScript parser accepts, both the minified and the pretty output are accepted by it too and denote the same program there, and running source and outputs in a JavaScript engine produces the same observable trace. Ratel's own tree for the source agrees with that parser's tree.",
  ["programs"],"every supported program without context restrictions of its own (valid strict or sloppy code), parsed and run by an independent engine",
  "All existing tests judge ratel with ratel (or fixed strings); a misreading shared by its parser and its generator cannot show.",
  ["ratel/src/parser/nested.rs","ratel/src/parser/expression.rs","ratel-codegen/src/expression.rs","ratel-codegen/src/statement.rs","ratel-codegen/src/function.rs"],
  [("parse then codegen","ratel/src/parser, ratel-codegen/src")],
  ["ratel_codegen::codegen","node (V8), acorn"])
p("C12","The ESTree JSON mirrors the tree for every program",
  "Serialising any successfully parsed program yields a well-formed JSON document - never a panic - in which every node of the tree appears once, in order, under its ESTree type with its operator, name, flags (computed, static, generator, shorthand, method, kind, prefix, tail) and its source location. Two different trees never give the same JSON. (In the dialect of the repository's tests: labels and import sources are plain strings, `new a` is `new a()`, an object pattern has keys, holes at the end of an array are left out.)",
  ["programs"],"every program of the supported subset, compact and pretty JSON",
  "The JSON tests list one snippet per node type; combinations (new without arguments, holes, class fields, computed members, nested patterns) are not enumerated.",
  ["ratel/src/astgen/mod.rs","ratel/src/astgen/statement.rs","ratel/src/astgen/expression.rs","ratel/src/astgen/function.rs","ratel/src/astgen/value.rs"],
  [("SerializeInLoc implementations","ratel/src/astgen/*.rs")],
  ["serde_json::to_string(&module)"])
p("C13","Literals keep their value and text in the ESTree JSON",
  "For every numeric literal in any base, size and notation, every boolean, null, string, regular-expression and template literal, the JSON gives its exact source text and, for numbers, booleans, null and escape-free strings and templates, the value JavaScript gives it; for regular expressions its pattern and flags. No literal makes serialisation fail.",
  ["inputs"],"every literal of the grammar: decimal, exponent, hex, octal, binary numbers of any magnitude, strings and templates with escapes and non-ASCII text, regular expressions with classes, escapes and flags",
  "Tests hold about ten small literals; large, exponent, uppercase-prefixed and boundary numbers are never serialised.",
  ["ratel/src/astgen/value.rs","ratel/src/lexer/mod.rs"],
  [("Literal serialisation","ratel/src/astgen/value.rs"),("number, string, regex scanning","ratel/src/lexer/mod.rs")],
  ["serde_json::to_value(&module)"])
p("C14","A visitor sees every node once, in order, with balanced parents",
  "Walking any program calls the callback of each expression and statement kind exactly once per such node, parents before children and siblings in source order, and calls the statement-list callback for every statement list including the program body. When a node is visited the pushed and not yet popped parents are exactly its chain of enclosing expressions and statements; every declaration and every use of a name is reported exactly once, in the scope it stands in; a part of the tree walked alone is walked as within the tree; entering and leaving scopes and parents is balanced at the end.",
  ["programs"],"every program of the supported subset",
  "Visitor tests walk a dozen tiny programs; a node kind whose child is skipped, visited twice or left unbalanced is simply absent from them.",
  ["ratel-visitor/src/lib.rs","ratel-visitor/src/expression.rs","ratel-visitor/src/statement.rs","ratel-visitor/src/function.rs"],
  [("Visitable implementations","ratel-visitor/src/*.rs")],
  ["ratel_visitor::{Visitor,Visitable}"])
p("C15","Scope analysis reports exactly the declared and used names",
  "For every program, the scope tree has one scope per function, arrow function, method and block, nested and ordered as in the source; each scope lists exactly the names declared directly in it (parameters and catch parameters belong to the scope of their body) and exactly the identifiers read or written directly in it, and records whether this is used there; two scopes are equal only if they are the same one. Property names, member names and labels are never reported as names used or declared. (Nothing is hoisted; the cases of a switch form a block; names declared in a loop's head belong to the scope around it; the names of function and class expressions are not declared.)",
  ["programs"],"every program of the supported subset",
  "Two or three fixed programs with plain functions and blocks are tested; destructuring, defaults, loops, catch, imports, classes and arrows in combination are not.",
  ["ratel-transformer/src/scope.rs","ratel-visitor/src/lib.rs","ratel-visitor/src/statement.rs","ratel-visitor/src/function.rs","ratel-visitor/src/expression.rs"],
  [("ScopeAnalyzer","ratel-transformer/src/scope.rs"),("on_enter_scope/on_reference_*","ratel-visitor/src/*.rs")],
  ["ratel_transformer::scope::analyze","ratel_visitor::Visitor::{on_reference_use,on_reference_declaration}"])
p("C16","Transforming rewrites every arrow function and nothing else",
  "After the ES2015 transform of any program, no arrow function is left anywhere in it: each has become an anonymous function expression with the same parameters whose body is the same block, or returns the same expression, at the same location. Everything else in the program is unchanged, and the result prints and parses like any other program.",
  ["programs"],"every program of the supported subset with arrow functions in any position and nesting",
  "The transformer crate has a single test, about scopes; no test transforms anything.",
  ["ratel-transformer/src/lib.rs","ratel-transformer/src/es2015/arrow.rs","ratel-visitor/src/expression.rs"],
  [("TransformArrow::on_arrow_expression and swap","ratel-transformer/src/es2015/arrow.rs, lib.rs")],
  ["ratel_transformer::transform then Module::body / codegen"])
p("C17","The wasm entry points agree with the library on every input",
  "For every text and either mode, each exported string function returns - never panicking - the library's result for that text: the generated code, the debug dump of the tree, or the ESTree JSON if the text parses, and otherwise a message starting with Error: that contains one rendered diagnostic per parse error in order.",
  ["inputs"],"every UTF-8 text, valid or not, in both modes",
  "The wasm crate has no tests at all.",
  ["ratel-wasm/src/lib.rs","ratel/src/error.rs"],
  [("transform, generate_ast, generate_ast_estree, format_errors","ratel-wasm/src/lib.rs")],
  ["ratel_wasm::{transform,generate_ast,generate_ast_estree}"])
p("C18","Results depend on the text alone, not on history or threads",
  "Parsing, printing, serialising, walking and analysing a text give the same results whatever was processed before, however many other programs are alive, moved or already dropped, and on whichever thread or concurrently with what other work it happens. Reading a program (printing, serialising, walking, analysing) never changes what later reads of it return.",
  ["histories","schedules"],"every sequence of parse, print, serialise, walk, analyse, move and drop operations on several live programs, on one or several threads",
  "Every test uses one fresh program once on one thread.",
  ["ratel/src/module.rs","ratel/src/parser/mod.rs","ratel-codegen/src/lib.rs","ratel-transformer/src/scope.rs"],
  [("each Module owns its arena; no global state","ratel/src/module.rs, ratel/src/parser/mod.rs")],
  ["all public entry points"])
p("C19","The node binding agrees with the library on every input",
  "For every text, transform, ast and parse of the native node module return the library's generated code (in the mode asked for), ESTree JSON or tree dump if the text parses, and otherwise throw a TypeError whose message holds one rendered diagnostic per parse error, in order and one per line. Called with arguments of the wrong kind they throw; they never panic.",
  ["inputs"],"every UTF-8 text, valid or not, in both modes, and every combination of missing or wrongly typed arguments",
  "The native module has no Rust tests; its JavaScript tests need a compiled addon and try a handful of one-line programs.",
  ["ffi/native/src/lib.rs","ratel/src/error.rs"],
  [("transform, ast, parse, format_errors","ffi/native/src/lib.rs")],
  ["the functions registered on the module by ffi/native/src/lib.rs"])
p("C20","Processing a program costs time and memory in proportion to it",
  "Parsing, minifying, pretty-printing, serialising, walking, analysing and transforming a program take processor time and memory bounded by a small multiple of the sizes of text and output: four times as much code takes about four times as much, and a program nested twice as deep about twice as much (pretty outputs: four times, for their indentation). So does parsing a text with many errors. None of these operations panics on a long, wide or deep program.",
  ["inputs"],"every supported program: long statement lists with ever new names, nodes with very many parts, long chains of operators, members and calls, and every kind of nesting (to a depth bounded by the stack)",
  "The tests hold programs of a few dozen bytes; work that grows with the square of a list or doubles with every level of nesting costs nothing there. The benches measure one library, without a bound.",
  ["ratel/src/parser/mod.rs","ratel/src/parser/nested.rs","ratel-codegen/src/lib.rs","ratel-codegen/src/expression.rs","ratel/src/astgen/mod.rs","ratel-visitor/src/lib.rs","ratel-transformer/src/scope.rs"],
  [("single pass, no backtracking","ratel/src/parser/*.rs"),("each node is written once","ratel-codegen/src/*.rs"),("arena lists","ratel/src/parser/mod.rs")],
  ["ratel::parse","ratel_codegen::codegen","serde_json::to_string(&module)","ratel_visitor::Visitable","ratel_transformer::{scope::analyze,transform}"])
p("C21","Trees compare equal exactly when they denote the same program",
  "Comparing the bodies of two parsed programs with == gives true exactly if they have the same nodes with the same names, operators, flags and literal texts in the same order, wherever their tokens lie in the source. The debug dumps of two programs are the same text exactly if their trees and all source locations are.",
  ["programs"],"every pair of supported programs: one in two layouts, pairs that differ in a single name, operator, flag, element or literal, and unrelated ones",
  "Every parser test is an assertion with ==; were it blind to some field, all of them would be too. No test compares two trees that must differ.",
  ["ratel/src/ast/mod.rs","ratel/src/ast/node.rs","ratel/src/ast/expression.rs","ratel/src/ast/statement.rs","ratel/src/ast/function.rs","ratel/src/module.rs"],
  [("PartialEq of Loc and Node, which skips locations","ratel/src/ast/mod.rs, node.rs"),("derived PartialEq and Debug of every node","ratel/src/ast/*.rs"),("Debug of Module","ratel/src/module.rs")],
  ["StatementList == StatementList","Debug of Module and StatementList"])
p("C22","A program can be edited in place, one node at a time",
  "Setting an expression of a program (other than an assignment target) or a statement of a statement list to another expression or statement changes that one place and no other, in every later read. The edited program prints, in both modes, text that parses to the edited tree, and its JSON mirrors it. Setting the nodes back restores the program. A visitor can replace the nodes it is given while it walks: every node of the program is still visited, and exactly these places change.",
  ["programs","histories"],"every supported program, every sequence of such edits at places a visitor reports, with parts of any other programs put there, whose locations have nothing to do with their new surroundings",
  "One transform test edits nothing; no test prints a tree that did not come from the parser as it is.",
  ["ratel/src/ast/node.rs","ratel-visitor/src/lib.rs","ratel-visitor/src/expression.rs","ratel-codegen/src/lib.rs","ratel-codegen/src/expression.rs","ratel-codegen/src/statement.rs","ratel-transformer/src/lib.rs"],
  [("Node is a cell holding a reference","ratel/src/ast/node.rs set"),("visitors hand out the nodes themselves","ratel-visitor/src/*.rs"),("generators look at the tree only","ratel-codegen/src/*.rs")],
  ["ratel::ast::Node::set","ratel_visitor::Visitable","ratel_codegen::codegen","serde_json::to_string(&module)"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
