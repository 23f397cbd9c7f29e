"""Which harness runs decide which property, within which bounds."""
ENGINE = [
    "z3 is sound; the engine's reading of LLVM IR is right (every path's model is replayed natively and must observe the same bytes)",
    "the code is the release-profile IR rustc emits for x86-64, with overflow checks; toolshed's arena is replaced by one allocation per object, so that every out-of-bounds access is seen",
]
NCTX = 48

def r(name, *params, t=60):
    return (name, list(params), t)

# programs about one construct, all parts of which vary (8000 + 10 * (construct + 1) + length of lists)
ARROWS, FUNCTIONS, CLASSES, OBJECTS, PATTERNS, LITERALS, NAMES, KEYS, LOOPS, TEMPLATES, PAIRS, LONG, DEEP, PARTS = (8010 + 10 * i for i in range(14))
VARIED = [ARROWS + 2, FUNCTIONS + 2, CLASSES + 2, OBJECTS + 2, PATTERNS + 1, LITERALS + 2, NAMES + 2, KEYS + 2, LOOPS + 2, TEMPLATES + 1, PAIRS + 2, LONG + 7, DEEP + 5, PARTS + 2]
MORE = [ARROWS + 3, FUNCTIONS + 3, CLASSES + 3, OBJECTS + 3, PATTERNS + 2, TEMPLATES + 2, PAIRS + 3, LONG + 9, DEEP + 9, PARTS + 3]
VARIED_TEXT = "every combination of the parts of arrow functions, functions, classes, objects (up to two parameters, members or properties), patterns (one element), 38 literals in 8 places, names in 17 places, 66 names of properties in all their places, heads of loops, templates, statements with empty and other parts (try, if, switch, declarations, labels, loops, import as declaration and as expression), and pairs of statements in four kinds of lists; lists of up to seven items of one kind; nestings of five of any two kinds of construct"
MORE_TEXT = "; three parameters, members and properties, two elements of patterns and parts of templates, lists of up to nine items, nestings of nine, as far as 100 s each go"

DAMAGED = "every expression and statement of depth 1, every import and list or chain of one or two items, cut off anywhere, without any one token, with any two tokens swapped, with any one token replaced by one of 20 or one of those 20 inserted (the latter two for expressions and statements only)"
PROPS = {}
PROPS["C01"] = dict(
    quick=[r("h_parse", n, 0) for n in (0, 1, 2, 3)] + [r("h_parse", 2, c) for c in range(1, NCTX)] + [r("h_parse_uni", 2, c) for c in range(NCTX)] + [r("h_parse_char", 2, 0), r("h_parse_long", 12, 0), r("h_parse_long", 40, 1)] + [r("h_damaged", a, m) for a in (1, 1000, 2000, 7002, ARROWS + 1, CLASSES + 1, LITERALS, LONG + 3, DEEP + 2) for m in range(3)] + [r("h_damaged", a, m) for a in (1, 1000) for m in (3, 4)],
    thorough=[r("h_damaged", a, m, t=60) for a in (1, 1000, 2000, 7002, 2, 1001, 7003) + tuple(x // 10 * 10 + 1 for x in VARIED) for m in range(5)] + [r("h_parse_long", 26, 0), r("h_parse_long", 80, 1)] + [r("h_parse", n, 0) for n in (0, 1, 2, 3)] + [r("h_parse", 4, 0, t=240)] + [r("h_parse", 3, c, t=60) for c in range(1, NCTX)] + [r("h_parse_uni", 3, c, t=20) for c in range(NCTX)] + [r("h_parse_char", 2, 0), r("h_parse_char", 3, 0, t=90), r("h_parse_char", 4, 0, t=90)],
    reach={"h_parse": [1, 2]},
    bounds={
        "quick": "every ASCII source text of up to 3 characters; every window of 2 characters (ASCII, and 9 characters beyond ASCII) inside each of 48 surrounding texts; every 2-byte character on its own; 23 forms of token and gap of every length up to 12 with an arbitrary character at any place inside, and of up to 40 with one right after; " + DAMAGED + ", classes, arrow functions and literals, lists of up to three items and two constructs within each other; 20 million instructions per path",
        "thorough": "every ASCII source text of up to 4 characters; every window of 3 characters in the 48 surrounding texts; every single character of 2, 3 and 4 bytes as far as the time allows; tokens of up to 26 (80) characters; programs of depth 2 and about one construct damaged in the same ways; runs cut off by time are listed",
    },
    assumptions=ENGINE,
)

CONS = [100 * w for w in range(4)]
PROPS["C02"] = dict(
    quick=[r("h_consume", 3, w) for w in CONS] + [r("h_consume", 2, w + c) for w in CONS for c in range(1, NCTX)] + [r("h_consume_uni", 2, w + c) for w in CONS for c in (0, 1, 3, 5, 6, 9, 10, 12, 18, 26, 41)] + [r("h_consume_program", a, w) for w in range(4) for a in VARIED if a not in (PAIRS + 2, CLASSES + 2)] + [r("h_consume_damaged", a, 10 * w + m) for w in range(4) for a in (1, 1000, 7002) for m in (1, 2)],
    thorough=[r("h_consume_damaged", a, 10 * w + m, t=60) for w in range(4) for a in (1, 1000, 2000, 7002, CLASSES + 1) for m in range(5)] + [r("h_consume_program", a, w, t=60) for w in range(4) for a in VARIED + MORE] + [r("h_consume", 3, w) for w in CONS] + [r("h_consume", 4, w, t=45) for w in CONS] + [r("h_consume", 3, w + c, t=12) for w in CONS for c in range(1, NCTX)] + [r("h_consume_uni", 2, w + c) for w in CONS for c in range(NCTX)],
    reach={"h_consume": [1, 2]},
    bounds={
        "quick": "every ASCII source text of up to 3 characters; every window of 2 characters inside each of 48 surrounding texts; windows with characters beyond ASCII in 11 of them; both generators, ESTree, scope analysis, transformer followed by the generator; the same for " + VARIED_TEXT + " (but for classes and pairs); and for whatever is accepted of every expression and statement of depth 1 and every list or chain of one or two items without any one token or with any two swapped",
        "thorough": "the same with windows of 3 characters (4 on their own), as far as the time of each run allows; runs cut off by time are listed" + MORE_TEXT,
    },
    assumptions=ENGINE,
)
GEN = "generated programs: names are one arbitrary capital letter, digits 1-9, string and template characters 0-9 : ; < = > ? @ A-Z; "
EXPR2 = "every expression of depth 2 (26 forms of expression with their variants within each other, one binary operator per precedence level below the outermost, all 37 there)"
LISTS = "every kind of list (arguments, elements, parameters, properties, members, statements, cases, declarators, template parts, import specifiers) and chain (else if, member and call, prefix and arrow, nested statements) of three or four items of varying forms; every nesting of three scopes and names (blocks, functions, methods, arrow functions, switches, try statements, loops)"
LISTS5 = "; lists and chains of five, nestings of four scopes"
SPINE = "every nesting of three operators (one per precedence level, and member, call, new, conditional, arrow, sequence, template tag) on any side of each other"
STM1 = "every statement of 21 kinds with its variants, one part of which (statement or expression) has depth 1; every form of import"
PROPS["C03"] = dict(
    quick=[r("h_min", 7004, 0), r("h_min", 6003, 0)] + [r("h_min", 3002, 0), r("h_min", 4003, 0), r("h_min", 1001, 0), r("h_min", 2000, 0)] + [r("h_min_window", 2, c) for c in range(1, NCTX)] + [r("h_min_window", 3, 0)] + [r("h_min", a, 0) for a in VARIED] + [r("h_min_damaged", a, m) for a in (1, 1000, 7002, CLASSES + 1) for m in (1, 2)],
    thorough=[r("h_min", 7005, 0, t=200), r("h_min", 6004, 0, t=200)] + [r("h_min", 3002, 0), r("h_min", 4003, 0), r("h_min", 1001, 0), r("h_min", 2000, 0), r("h_min", 1002, 0, t=240), r("h_min", 3, 0, t=240)] + [r("h_min_window", 3, c, t=15) for c in range(NCTX)] + [r("h_min", a, 0, t=100) for a in VARIED + MORE] + [r("h_min_damaged", a, m, t=60) for a in (1, 1000, 2000, 7002, 8011, 8021, 8031, 8041, 8123, 8132) for m in range(5)],
    reach={"h_min": [1], "h_min_window": [1]},
    bounds={
        "quick": GEN + "; ".join([EXPR2, SPINE, STM1, LISTS, VARIED_TEXT]) + "; and whatever the parser accepts of every 3-character text, and of every 2-character window in 47 surrounding texts, and of every expression, statement and class without any one token or with any two swapped",
        "thorough": "in addition lists and chains of five items, nestings of four scopes, statements of depth 2 and expressions of depth 3 as far as four minutes each go, windows of 3 characters" + MORE_TEXT,
    },
    assumptions=ENGINE,
)
PROPS["C04"] = dict(
    quick=[r(x[0].replace("h_min", "h_pretty"), *x[1], t=x[2]) for x in PROPS["C03"]["quick"]],
    thorough=[r(x[0].replace("h_min", "h_pretty"), *x[1], t=x[2]) for x in PROPS["C03"]["thorough"]],
    reach={"h_pretty": [1], "h_pretty_window": [1]},
    bounds=PROPS["C03"]["bounds"], assumptions=ENGINE,
)
PROPS["C07"] = dict(
    quick=[r("h_changed", a, m) for a in (1, ARROWS + 1, OBJECTS + 1) for m in (6, 7, 15)] + [r("h_tree", a, 0) for a in VARIED if a not in (KEYS + 2, PAIRS + 2)] + [r("h_tree", 7004, 0)] + [r("h_tree", 3002, 0), r("h_tree", 4003, 0)],
    thorough=[r("h_tree", a, 0, t=100) for a in VARIED + MORE] + [r("h_tree", 7005, 0, t=200)] + [r("h_tree", 3002, 0), r("h_tree", 4003, 0), r("h_tree", 4004, 0, t=300), r("h_tree", 3, 0, t=400)],
    reach={"h_tree": [1]},
    bounds={"quick": GEN + "; ".join([EXPR2, SPINE, LISTS, VARIED_TEXT]) + "; expressions of depth 1, arrow functions and objects with an operand or token too many, or a separator missing, are rejected", "thorough": "in addition lists and chains of five items, nestings of four scopes, four nested operators and expressions of depth 3 of any form, as far as the time of each run goes" + MORE_TEXT},
    assumptions=ENGINE,
)
PROPS["C08"] = dict(
    quick=[r("h_changed", a, m) for a in (1000, FUNCTIONS + 1, CLASSES + 1, LONG + 3) for m in (6, 15)] + [r("h_tree", a, 0) for a in VARIED + [PATTERNS + 2]] + [r("h_tree", 7004, 0), r("h_tree", 6003, 0)] + [r("h_tree", 1001, 0), r("h_tree", 2000, 0), r("h_tree", 5001, 0)],
    thorough=[r("h_tree", a, 0, t=100) for a in VARIED + MORE] + [r("h_tree", 7005, 0, t=200), r("h_tree", 6004, 0, t=200)] + [r("h_tree", 1001, 0), r("h_tree", 2000, 0), r("h_tree", 5001, 0), r("h_tree", 1002, 0, t=700)],
    reach={"h_tree": [1]},
    bounds={"quick": GEN + STM1 + ", followed by another statement or alone in a block; " + LISTS + "; " + VARIED_TEXT + "; statements of depth 1, functions, classes and lists of up to three items with an operand or token too many are rejected", "thorough": "in addition lists and chains of five items, nestings of four scopes, statements with two levels of nested statements and expressions of depth 2, as far as 700 s go" + MORE_TEXT},
    assumptions=ENGINE,
)
PROPS["C09"] = dict(
    quick=[r("h_spans", a, 0) for a in VARIED] + [r("h_spans", 7004, 0), r("h_spans", 6003, 0)] + [r("h_spans", 2, 0), r("h_spans", 1001, 0), r("h_spans", 1, 1), r("h_spans", 1000, 1), r("h_spans", 2000, 1), r("h_spans", 1, 11)],
    thorough=[r("h_spans", a, 0, t=100) for a in VARIED + MORE] + [r("h_spans", 7005, 0, t=200), r("h_spans", 6004, 0, t=200)] + [r("h_spans", 3002, 0), r("h_spans", 1001, 0), r("h_spans", 1, 12), r("h_spans", 1000, 12, t=120), r("h_spans", 2000, 2), r("h_spans", 1001, 1, t=240), r("h_spans", 2, 11, t=240)],
    reach={"h_spans": [1]},
    bounds={"quick": GEN + EXPR2 + "; " + STM1 + "; " + LISTS + "; " + VARIED_TEXT + ": with a space between every two tokens; those of depth 1 with one piece of white space or comment (five kinds, nine in expressions) in any one gap", "thorough": "two pieces of nine kinds in any gap of programs of depth 1, one piece in those of depth 2 as far as the time goes" + MORE_TEXT},
    assumptions=ENGINE,
)
PROPS["C14"] = dict(
    quick=[r("h_layout", a, 11) for a in (ARROWS + 1, OBJECTS + 1, LONG + 1)] + [r("h_layout", a, 0) for a in VARIED if a != PAIRS + 2] + [r("h_layout", 7002, 11), r("h_layout", 7004, 0)] + [r("h_layout", 1, 2), r("h_layout", 1, 11), r("h_layout", 1000, 2), r("h_layout", 2000, 12), r("h_layout", 2, 0), r("h_layout", 1001, 0)],
    thorough=[r("h_layout", a, 11, t=100) for a in VARIED] + [r("h_layout", 7003, 1, t=120)] + [r("h_layout", 1, 13, t=150), r("h_layout", 1000, 12, t=200), r("h_layout", 2000, 13), r("h_layout", 2, 11, t=200), r("h_layout", 1001, 11, t=200)],
    reach={"h_layout": [1]},
    bounds={"quick": GEN + "every expression and statement of depth 1 and every import with up to two pieces of white space or comments (space, tab, line feed, CRLF, line comment, block comments) before any one token or at the end; one piece in every kind of list and chain of one or two items; programs of depth 2 and lists and chains of four with a space between every two tokens; the same for " + VARIED_TEXT + "; one piece in arrow functions and objects (with one parameter or property), and in lists of one item", "thorough": "three pieces in expressions and imports; one piece in programs of depth 2 and in the programs with one construct as far as the time goes"},
    assumptions=ENGINE,
)
PROPS["C06"] = dict(
    quick=[r("h_asi_newline", 0, 0), r("h_asi_closer", 0, 0), r("h_asi_missing", 0, 0), r("h_asi_restricted", 1, 0), r("h_asi_ends", 0, 0)],
    thorough=[r("h_asi_ends", 0, 0), r("h_asi_ends", 1, 0, t=300)] + [r("h_asi_newline", 0, 0), r("h_asi_closer", 1, 0, t=240), r("h_asi_missing", 1, 9, t=120), r("h_asi_restricted", 1, 0), r("h_asi_newline", 1, 9, t=400)],
    reach={"h_asi_newline": [1], "h_asi_closer": [1], "h_asi_restricted": [1], "h_asi_ends": [1, 2]},
    bounds={
        "quick": GEN + "each of the nine statements that end with a semicolon, with parts of depth 0, before every kind of statement, with each of eight gaps with a line break (line feed, CRLF, in and around comments); before a closing brace and the end; the same without a line break, rejected; return, break, continue, throw, postfix operators and arrows with a line break; each of 26 forms of expression (arrow functions also at the end of assignments, conditionals and sequences) at the end of a statement, before a statement for every token one can start with, on the next line and on the same",
        "thorough": "the same with parts of depth 1, before one statement for each kind of first token, as far as the time goes",
    },
    assumptions=ENGINE,
)
PROPS["C15"] = dict(
    quick=[r("h_changed", a, m) for m in range(18) for a in (1, 1000, 2000, 7002, ARROWS + 1, PATTERNS, LONG + 3)] + [r("h_changed", a, m) for m in (0, 3, 4, 5, 6, 7, 9, 11, 12, 14, 15) for a in (FUNCTIONS + 1, CLASSES + 1, OBJECTS + 1)] + [r("h_changed", a, m) for m in (0, 3, 14, 15) for a in (DEEP + 2, PARTS)] + [r("h_incomplete", 0, 0), r("h_unclosed", 1, 0), r("h_unclosed", 2, 0), r("h_unclosed", 3, 0)],
    thorough=[r("h_changed", a, m, t=30) for m in range(18) for a in (2, 1001, 7003, FUNCTIONS + 1, CLASSES + 1, OBJECTS + 1, PATTERNS + 1, PAIRS, DEEP + 2, LONG + 4)] + [r("h_changed", a, m, t=30) for m in range(18) if m != 4 for a in (NAMES, KEYS)] + [r("h_unclosed", 4, 0, t=100)],
    reach={"h_changed": [2], "h_incomplete": [2], "h_unclosed": [2]},
    bounds={
        "quick": GEN + "every expression and statement of depth 1, every import, and every kind of list and chain of one or two items, arrow functions, functions, classes and objects with up to one parameter, member or property, lists of up to three items, two constructs within each other, statements with empty parts (for functions, classes and objects no bracket added or replaced, no operator or keyword added; for the latter two only brackets and separators), with any one bracket removed, added or replaced, any one operand or separator, or the operand before an operator, removed, an operand or operator or separator added, another separator put in its place, a token written twice, a keyword put in the place of a name, cut off within brackets or after a token that needs more, in a string, template or comment; 56 beginnings of statements before the end, a line break, semicolon or closing brace; strings, templates, regular expressions and comments of up to 3 arbitrary ASCII characters that do not end",
        "thorough": "the same changes to programs of depth 2 as far as 30 s each go; 4 characters",
    },
    assumptions=ENGINE,
)
PROPS["C05"] = dict(
    quick=[r("h_lex", 3, 0), r("h_lex", 2, 100)] + [r("h_lex", 2, c + u) for c in range(1, NCTX) for u in (0, 100)] + [r("h_words", 1, b) for b in (0, 1, 2)] + [r("h_signs", 4, 0), r("h_long", 12, 0), r("h_long", 40, 1)],
    thorough=[r("h_lex", 3, 0), r("h_lex", 3, 100), r("h_lex", 4, 0, t=200)] + [r("h_lex", 3, c, t=10) for c in range(1, NCTX)] + [r("h_words", 2, 1, t=120), r("h_words", 2, 2, t=60), r("h_signs", 6, 0, t=90), r("h_long", 26, 0), r("h_long", 80, 1), r("h_long", 6, 2, t=90)],
    reach={"h_lex": [1, 2, 3, 4], "h_words": [1], "h_signs": [1], "h_long": [1, 3, 4]},
    bounds={
        "quick": "every ASCII text of up to 3 characters; every window of 2 characters (ASCII, and 9 characters beyond ASCII) in 48 surrounding texts; every word of the language with one character added, replaced, or put in place of its end; every sequence of 4 characters from six groups of operator characters; 23 forms of token and gap of every length up to 12 with an arbitrary character at any place inside, and of up to 40 with one right after; NUL excluded",
        "thorough": "windows of 3 and 4 characters, two characters within words, 6 operator characters, tokens of up to 26 (80) characters, as far as the time of each run goes",
    },
    assumptions=ENGINE,
)
PROPS["C10"] = dict(
    quick=[r("h_first", 7002, 0)] + [r("h_errors", 3, 0), r("h_errors", 2, 100)] + [r("h_errors", 2, c + u) for c in range(1, NCTX) for u in (0, 100)] + [r("h_report", 1, 0), r("h_report", 1, 1), r("h_message", 3, 0), r("h_message", 1, 1)] + [r("h_first", a, m) for a in (1, 1000, 2000, ARROWS + 1, CLASSES + 1, PATTERNS, LONG + 3) for m in (0, 1)],
    thorough=[r("h_first", 7003, 0)] + [r("h_errors", 4, 0, t=120), r("h_errors", 3, 100)] + [r("h_errors", 3, c, t=10) for c in range(1, NCTX)] + [r("h_report", 2, 0, t=90), r("h_report", 2, 1, t=90), r("h_message", 4, 0, t=60), r("h_first", 2, 0, t=100), r("h_first", 1001, 0, t=100)],
    reach={"h_errors": [1, 3], "h_report": [2], "h_message": [2], "h_first": [1]},
    bounds={
        "quick": "errors of every ASCII text of up to 3 characters and of every window of 2 characters (also beyond ASCII) in 48 surrounding texts; messages for one arbitrary character between 12 texts before and 6 after it (up to 9 lines, CRLF, wide characters), for every range of every text of 3 characters, and of one near the end of up to 1000 lines; a character that fits nowhere, or the end, before any token of every program of depth 1, of lists and chains of one or two items, of arrow functions and classes with up to one parameter or member, of lists of up to three items",
        "thorough": "windows of 3 and 4 characters, programs of depth 2, as far as the time of each run goes",
    },
    assumptions=ENGINE,
)
PROPS["C11"] = dict(
    quick=[r("h_estree", a, 0) for a in VARIED if a != NAMES + 2] + [r("h_estree", 7004, 0), r("h_estree", 6003, 0)] + [r("h_estree", 2, 0), r("h_estree", 1001, 0), r("h_estree", 2000, 0), r("h_estree_window", 3, 0)] + [r("h_estree_window", 2, c + u) for c in range(1, NCTX) for u in (0, 100)] + [r("h_integers", 3, 0)] + [r("h_estree_damaged", a, m) for a in (1, 1000) for m in (1, 2)],
    thorough=[r("h_estree", a, 0, t=100) for a in VARIED + MORE] + [r("h_estree", 7005, 0, t=200), r("h_estree", 6004, 0, t=200)] + [r("h_estree", 3002, 0), r("h_estree", 4003, 0), r("h_estree", 1001, 0), r("h_estree", 1002, 0, t=240), r("h_integers", 4, 0, t=200)] + [r("h_estree_window", 3, c, t=15) for c in range(NCTX)],
    reach={"h_estree": [1], "h_estree_window": [1], "h_integers": [1]},
    bounds={
        "quick": GEN + EXPR2 + "; " + STM1 + "; " + LISTS + "; " + VARIED_TEXT + " (but for names)" + "; and whatever the parser accepts of every 3-character text and every 2-character window (also with characters beyond ASCII) in 47 surrounding texts; integer literals of four radices with up to 3 (4) arbitrary digits",
        "thorough": "in addition lists and chains of five items, nestings of four scopes, all operators and their nestings, statements of depth 2 as far as the time goes, windows of 3 characters, integers of 4 (5) digits" + MORE_TEXT,
    },
    assumptions=ENGINE,
)

PROPS["C12"] = dict(
    quick=[r("h_visit", a, 0) for a in VARIED] + [r("h_visit", 2, 0), r("h_visit", 1001, 0), r("h_visit", 2000, 0), r("h_visit", 7004, 0), r("h_visit", 6003, 0), r("h_visit_window", 3, 0)] + [r("h_visit_window", 2, c + u) for c in range(1, NCTX) for u in (0, 100)],
    thorough=[r("h_visit", a, 0, t=100) for a in VARIED + MORE] + [r("h_visit", 3002, 0), r("h_visit", 1001, 0), r("h_visit", 1002, 0, t=240), r("h_visit", 7005, 0, t=200), r("h_visit", 6004, 0, t=200)] + [r("h_visit_window", 3, c, t=15) for c in range(NCTX)],
    reach={"h_visit": [1], "h_visit_window": [1]},
    bounds={
        "quick": GEN + EXPR2 + "; " + STM1 + "; " + LISTS + "; " + VARIED_TEXT + "; and whatever the parser accepts of every 3-character text and every 2-character window (also with characters beyond ASCII) in 47 surrounding texts, but for patterns that aren't of the language",
        "thorough": "in addition all operators, lists and chains of five items, nestings of four scopes, statements of depth 2 as far as the time goes, windows of 3 characters" + MORE_TEXT,
    },
    assumptions=ENGINE,
)
PROPS["C13"] = dict(
    quick=[r("h_scopes", a, 10) for a in VARIED] + [r("h_scopes", 2, 20), r("h_scopes", 1001, 10), r("h_scopes", 1000, 21), r("h_scopes", 1, 1), r("h_scopes", 2000, 1), r("h_scopes", 7004, 10), r("h_scopes", 6003, 10), r("h_scopes", 6002, 1), r("h_scopes_window", 3, 0)] + [r("h_scopes_window", 2, c + u) for c in range(1, NCTX) for u in (0, 100)],
    thorough=[r("h_scopes", a, 10, t=100) for a in VARIED + MORE] + [r("h_scopes", 2, 0, t=100), r("h_scopes", 1001, 20, t=300), r("h_scopes", 1000, 1, t=100), r("h_scopes", 6004, 10, t=200), r("h_scopes", 6003, 1, t=200), r("h_scopes", 7005, 10, t=100)] + [r("h_scopes_window", 3, c, t=15) for c in range(NCTX)],
    reach={"h_scopes": [1], "h_scopes_window": [1]},
    bounds={
        "quick": GEN + EXPR2 + " with names out of two; " + STM1 + " with different names, and those of depth 0 with names out of two; imports and expressions of depth 1 with any names; " + LISTS + "; " + VARIED_TEXT + ", with different names; nestings of two scopes with any names; looking up another arbitrary name; and whatever the parser accepts of every 3-character text and every 2-character window in 47 surrounding texts",
        "thorough": "in addition any names, statements of depth 1 with names out of two as far as 300 s go, lists and chains of five items, nestings of four scopes, windows of 3 characters" + MORE_TEXT,
    },
    assumptions=ENGINE + ["toolshed's BloomMap is replaced by an association list with the same interface (hashes of symbolic names are out of the solver's reach); the native replays use toolshed itself"],
)
PROPS["C16"] = dict(
    quick=[r("h_wasm_window", 10 * f + 1, c + u) for f in range(6) for c in range(NCTX) for u in (0, 100)] + [r("h_wasm_window", 10 * f + 2, c) for f in (0, 1, 4, 5) for c in (0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 43, 44)] + [r("h_wasm", a, f) for f in range(6) for a in (1, 1000, 2000, 6002, 7002, ARROWS + 1, OBJECTS + 1, LONG + 3, DEEP + 1)],
    thorough=[r("h_wasm_window", 10 * f + 3, 0, t=120) for f in (0, 5)] + [r("h_wasm_window", 10 * f + 2, c + u, t=30) for f in (0, 5) for c in range(NCTX) for u in (0, 100)] + [r("h_wasm", a, f, t=30) for f in range(6) for a in (2, 1001)],
    reach={"h_wasm": [1], "h_wasm_window": [1, 2, 3]},
    bounds={
        "quick": "one ASCII character, and one out of 9 beyond ASCII, in 48 surrounding texts; two in 13 of them (not for the debug form of the tree); " + GEN + "every expression and statement of depth 1, every import, lists and chains of one or two items, nestings of two scopes, arrow functions and objects with up to one parameter or property, lists of up to three items; all three functions, minified and not",
        "thorough": "in addition every text of 3 characters, windows of 2 characters, programs of depth 2, as far as the time of each run goes",
    },
    assumptions=ENGINE + ["the functions are called as Rust functions; what wasm-bindgen generates around them is not part of the check"],
)
LEVEL_NOTES = {
    "*": "Holds for every value of the symbolic bytes within the bounds given in the evidence file (sizes of windows, depth of generated programs); says nothing beyond them. Trusts z3, rustc's lowering to LLVM IR, and the engine's reading of that IR, which is cross-checked by running a model of every path (up to a cap) natively.",
}
PROPS["C17"] = dict(
    quick=[r("h_transform", a, 0) for a in VARIED] + [r("h_transform", 2, 0), r("h_transform", 1001, 0), r("h_transform", 2000, 0), r("h_transform", 7004, 0), r("h_transform", 6003, 0), r("h_transform_window", 3, 0)] + [r("h_transform_window", 2, c) for c in range(1, NCTX)],
    thorough=[r("h_transform", a, 0, t=100) for a in VARIED + MORE] + [r("h_transform", 3002, 0), r("h_transform", 1001, 0), r("h_transform", 1002, 0, t=240), r("h_transform", 7005, 0, t=200), r("h_transform", 6004, 0, t=200)] + [r("h_transform_window", 3, c, t=15) for c in range(NCTX)],
    reach={"h_transform": [1, 2], "h_transform_window": [1]},
    bounds={
        "quick": GEN + EXPR2 + "; " + STM1 + "; " + LISTS + "; " + VARIED_TEXT + "; and whatever the parser accepts of every 3-character text and every 2-character window in 47 surrounding texts",
        "thorough": "in addition all operators, lists and chains of five items, nestings of four scopes, statements of depth 2 as far as the time goes, windows of 3 characters" + MORE_TEXT,
    },
    assumptions=ENGINE + ["an arrow function may stay as it is or become a function expression: how `this` is to be bound is not decided"],
)
