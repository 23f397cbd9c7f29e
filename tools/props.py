#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PROPS, LEVEL_NOTES

LEX = "ratel/src/lexer/mod.rs"
PEX = "ratel/src/parser/expression.rs"
PST = "ratel/src/parser/statement.rs"
PFN = "ratel/src/parser/function.rs"
PMD = "ratel/src/parser/mod.rs"
PNE = "ratel/src/parser/nested.rs"
OPK = "ratel/src/ast/operator.rs"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))

L = [
p("C01", "Parsing returns for every source text, within its own memory",
  "For every source text, parsing terminates and returns either a module or a non-empty list of errors. It never panics, never loops forever, and never reads or writes memory outside the source and the objects it owns.",
  ["inputs"], "every UTF-8 source text, in every lexical state (inside strings, templates, regular expressions, comments, and every statement and expression form)",
  "The tests parse well-formed snippets and a handful of malformed ones; the lexer walks raw pointers and indexes handler tables without checks, so one unlucky byte after any prefix is enough.",
  [LEX, PMD, PEX, PST, PFN, PNE], [("byte handler table and NUL-terminated source", LEX), ("unwind_loop over bytes", LEX), ("handler tables indexed by token", PNE)],
  [("Lexer.index", "position of the next byte", LEX)], ["ratel::parse"]),
p("C02", "Every consumer returns for every program the parser accepts",
  "For every source text the parser accepts, generating code (minified and pretty), serialising to ESTree JSON, scope analysis, visiting, and the transform step followed by code generation all terminate without panicking.",
  ["inputs", "programs"], "every accepted source text, every consumer",
  "Each consumer's tests feed it one or two programs per node kind; combinations of nodes, literals and empty parts are unbounded.",
  ["ratel-codegen/src/lib.rs", "ratel/src/astgen/mod.rs", "ratel-visitor/src/lib.rs", "ratel-transformer/src/lib.rs"],
  [("ToCode implementations", "ratel-codegen/src"), ("Serialize implementations", "ratel/src/astgen"), ("Visitable implementations", "ratel-visitor/src")], (), ["ratel_codegen::codegen", "serde_json::to_string", "ratel_transformer::scope::analyze", "ratel_transformer::transform"]),
p("C03", "Minified code means the same program",
  "For every accepted program, the minified output is accepted by the parser and yields the same syntax tree, whatever operators, operands, nested functions, classes, templates, literals and statements it contains. Minifying that output again changes nothing.",
  ["programs"], "all programs built from the language's expressions, statements, patterns, classes and literals",
  "The code generator decides parentheses, spaces and separators from the two neighbours at every join; the tests compare a few dozen fixed strings, out of all pairs of parent, operand and side.",
  ["ratel-codegen/src/lib.rs", "ratel-codegen/src/expression.rs", "ratel-codegen/src/statement.rs", "ratel-codegen/src/function.rs", OPK],
  [("write_expression binding power comparison", "ratel-codegen/src/lib.rs"), ("spacing around word operators and signs", "ratel-codegen/src/expression.rs")], (), ["ratel_codegen::codegen(_, true)"]),
p("C04", "Pretty-printed code means the same program",
  "For every accepted program, the pretty-printed output is accepted by the parser and yields the same syntax tree. Pretty-printing that output again changes nothing.",
  ["programs"], "all programs built from the language's expressions, statements, patterns, classes and literals",
  "As for minified output; line breaks also interact with semicolon insertion and indentation with multi-line literals.",
  ["ratel-codegen/src/lib.rs", "ratel-codegen/src/expression.rs", "ratel-codegen/src/statement.rs", "ratel-codegen/src/function.rs"],
  [("PrettyFrame", "ratel-codegen/src/lib.rs")], (), ["ratel_codegen::codegen(_, false)"]),
p("C05", "Source text splits into the right tokens",
  "Every source text splits into the longest matching ECMAScript tokens: each operator and punctuator, keyword as opposed to identifier, number, string, template and regular expression is recognised with exactly its own extent. What lies between two tokens is only white space and comments, and the lexer reports correctly whether a line break came before each token.",
  ["inputs"], "every sequence of bytes, every start position",
  "Keywords are matched by hand-written byte comparisons and operators by nested peeks; the tests lex each token alone in a fixed context, not what may follow or nearly match it.",
  [LEX, "ratel/src/lexer/token.rs", "ratel/src/lexer/labels.rs", "ratel/src/lexer/util.rs"], [("byte handlers", LEX), ("match_label", "ratel/src/lexer/labels.rs")], [("Lexer.asi", "whether a semicolon may be inserted here", LEX)], ["ratel::lexer::Lexer::consume"]),
p("C06", "Semicolons are inserted exactly where the language says",
  "A statement may end without a semicolon exactly where ECMAScript inserts one: before a closing brace, at the end of the program, or before a token on a new line that cannot continue the statement. A line break (also one inside a comment) never ends a statement that continues on the next line, splits return, break, continue and postfix operators from what follows them, and never replaces a separator inside a for header.",
  ["programs"], "every statement and every following token, with and without a line break, comments included",
  "The tests cover a few statement endings; the rule depends on the pair of the last and the next token and on the kind of white space between.",
  [PST, PMD, LEX], [("expect_semicolon", PMD), ("asi", LEX)], [("Lexer.asi", "set when a line break precedes the token", LEX)], ["ratel::parse"]),
p("C07", "Expressions parse with ECMAScript precedence and associativity",
  "Every expression parses to the tree the ECMAScript grammar defines: binary, assignment, conditional, unary, postfix, member, call, new, template, arrow, object, array, function and class expressions group by precedence and associativity, whatever their operands, and parentheses group only what they enclose. Every name and literal keeps its exact text.",
  ["programs"], "all expressions with every operator at every position",
  "Precedence is encoded in binding-power tables and per-token handler tables; tests check a few pairs of the several hundred operator combinations.",
  [PEX, PNE, OPK], [("binding power tables", PNE), ("OperatorKind", OPK)], (), ["ratel::parse"]),
p("C08", "Statements, declarations, classes and imports parse faithfully",
  "Every statement form (declarations with patterns and defaults, if/else, all loops, switch, try, labels, functions, generators, classes with their members, imports, jumps and blocks) parses to a tree that has exactly the parts written, in order. Nothing written in the source is dropped, duplicated or attached to the wrong statement.",
  ["programs"], "all statements, nested in each other",
  "Tests contain one or two examples per statement; optional parts and nesting multiply.",
  [PST, PFN, PMD], [("statement handler table", PST), ("pattern and parameter parsing", PMD)], (), ["ratel::parse"]),
p("C09", "Syntax tree positions delimit the source they came from",
  "The positions of identifiers, literals, operators' expressions, statements, declarations, functions, classes, properties and patterns are those of the first and last character of the text they were parsed from, and a node lies within its parent. (Excluded, because the existing tests fix other values: ends of sequences and of new-expressions, starts of calls, positions of member names, ends of import specifiers.)",
  ["programs"], "all programs, any white space and comments between the tokens",
  "The existing tests compare trees without positions nearly everywhere.",
  [PEX, PST, PFN, PMD, "ratel/src/ast/mod.rs"], [("Loc", "ratel/src/ast/mod.rs"), ("in_loc / node_at", PMD)], (), ["Node.start", "Node.end"]),
p("C10", "Errors point into the source they complain about",
  "Every reported error names a range that lies within the source, on character boundaries, and its text is the text at that range; an error at the end of input points there. The formatted message gives the line and column of that position, shows that line, and underlines the range.",
  ["inputs"], "every rejected source text",
  "Only one message is tested, on a one-line source.",
  ["ratel/src/error.rs", PMD, LEX], [("error", PMD), ("invalid_token", LEX), ("Display for ParseError", "ratel/src/error.rs")], (), ["ratel::error::Error", "ParseError Display"]),
p("C11", "ESTree output describes the parsed program",
  "Serialising any accepted program gives ESTree JSON in which every node has the right type and the right fields with the right children in source order, flags (computed, static, generator, prefix, method, shorthand, kind) and values, and start and end are the node's positions. Nothing is missing or duplicated.",
  ["programs"], "all programs",
  "Tests serialise one example per node type; optional and nested parts, operators and literal values vary without bound.",
  ["ratel/src/astgen/mod.rs", "ratel/src/astgen/expression.rs", "ratel/src/astgen/statement.rs", "ratel/src/astgen/function.rs", "ratel/src/astgen/value.rs"],
  [("SerializeInLoc", "ratel/src/astgen/mod.rs")], (), ["serde_json::to_string(&Module)"]),
p("C12", "Visitors see every node once, in order, with balanced nesting",
  "Visiting a program calls the handler of every statement, expression, pattern and literal exactly once, parents before children and children in source order; every name that is used or declared is reported once with the right role. Parents and scopes are entered and left in matching pairs.",
  ["programs"], "all programs",
  "There are no visitor tests beyond one fixed program.",
  ["ratel-visitor/src/lib.rs", "ratel-visitor/src/expression.rs", "ratel-visitor/src/statement.rs", "ratel-visitor/src/function.rs"],
  [("visit_with", "ratel-visitor/src")], (), ["ratel_visitor::Visitor"]),
p("C13", "Scope analysis finds the scopes, names and this-uses of a program",
  "Scope analysis yields one function scope per function and class method and one block scope per block, nested as in the source and in source order. Each scope lists exactly the names declared and the names referenced directly in it (parameters belong to the function, object keys and member names are no references), and whether it uses this.",
  ["programs"], "all programs, all names",
  "One fixed program is tested.",
  ["ratel-transformer/src/scope.rs", "ratel-visitor/src/lib.rs", "ratel-visitor/src/function.rs", "ratel-visitor/src/statement.rs"],
  [("ScopeAnalyzer", "ratel-transformer/src/scope.rs")], (), ["ratel_transformer::scope::analyze"]),
p("C14", "White space and comments between tokens do not change the program",
  "Replacing the white space between any two tokens with other white space, line comments or block comments (with a line break only where the grammar allows one) does not change the parsed tree.",
  ["programs"], "all programs, every gap between two tokens, every mix of spaces, tabs, line breaks and comments",
  "Tests are written with one conventional layout.",
  [LEX, PEX, PST, PFN], [("white space and comment handling", LEX)], (), ["ratel::parse"]),
p("C15", "Incomplete and malformed programs are rejected",
  "A program cut off inside a string, template, regular expression, block comment, bracket, block, class, switch, or after an operator or a statement keyword that needs more is rejected. So is a program with one stray or missing bracket, separator or operand: the parser never accepts text by ignoring part of it.",
  ["inputs", "programs"], "every proper prefix of a program that ends inside a construct, every deletion, insertion or replacement of a bracket, separator or operand",
  "Tests reject a few fixed strings.",
  [PMD, PEX, PST, PFN, LEX], [("expect", PMD), ("EndOfProgram handling", LEX)], (), ["ratel::parse"]),
p("C16", "The WebAssembly entry points agree with the library",
  "For every source text the exported functions return: the generated code, tree or JSON of the library when it parses, and otherwise a message that starts with Error: and contains the formatted report of every error. Minified and pretty JSON differ only in white space.",
  ["inputs"], "every source text, both values of the minify flag",
  "The crate has no tests.",
  ["ratel-wasm/src/lib.rs"], [("format_errors", "ratel-wasm/src/lib.rs")], (), ["transform", "generate_ast", "generate_ast_estree"]),
p("C17", "Transforming a program changes nothing but arrow functions",
  "For every program the parser accepts, the tree after ratel_transformer::transform (PresetES2015) is the tree before it in which arrow functions may have been replaced by function expressions without a name, with the same parameters in the same order and the same body (an expression body being a block that returns the expression); every other node, its text, order and positions are as they were. Code generated from the transformed tree is code for that tree; without arrow functions it is what is generated without transforming.",
  ["programs"], "all programs",
  "There are no tests of transformed output.",
  ["ratel-transformer/src/lib.rs", "ratel-transformer/src/es2015", "ratel-visitor/src"], [("PresetES2015", "ratel-transformer/src/es2015")], (), ["ratel_transformer::transform"]),
]

NA = {
}

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in L:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
M = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=x["id"], quick_cmd="python3 check.py " + x["id"], thorough_cmd="python3 check.py %s --thorough" % x["id"],
                      technique="bounded symbolic execution of the compiled Rust code (LLVM IR) with z3", level="model_checking",
                      level_note=LEVEL_NOTES.get(x["id"], LEVEL_NOTES["*"])) for x in L if x["id"] in PROPS],
         not_applicable=[dict(property=x["id"], reason=NA.get(x["id"], "Not built yet.")) for x in L if x["id"] not in PROPS],
         notes="See DESIGN.md. Checks rebuild the engine, the harnesses and /repo's crates into build/ (ignored by git).")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
