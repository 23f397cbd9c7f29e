//! Splitting text into tokens, against a tokenizer of its own written from the ECMAScript grammar.
use crate::sym::*;
use crate::total::{element, CTX};
use ratel::lexer::{Asi, Lexer, Token, Token::*};

const WORDS: [(&str, Token); 47] = [
    ("break", Break), ("case", Case), ("catch", Catch), ("class", Class), ("const", DeclarationConst), ("continue", Continue),
    ("debugger", Debugger), ("default", Default), ("delete", OperatorDelete), ("do", Do), ("else", Else), ("enum", ReservedEnum),
    ("export", Export), ("extends", Extends), ("false", LiteralFalse), ("finally", Finally), ("for", For), ("function", Function),
    ("if", If), ("implements", ReservedImplements), ("import", Import), ("in", OperatorIn), ("instanceof", OperatorInstanceof),
    ("interface", ReservedInterface), ("let", DeclarationLet), ("new", OperatorNew), ("null", LiteralNull), ("package", ReservedPackage),
    ("private", ReservedPrivate), ("protected", ReservedProtected), ("public", ReservedPublic), ("return", Return), ("static", Static),
    ("super", Super), ("switch", Switch), ("this", This), ("throw", Throw), ("true", LiteralTrue), ("try", Try), ("typeof", OperatorTypeof),
    ("undefined", LiteralUndefined), ("var", DeclarationVar), ("void", OperatorVoid), ("while", While), ("with", With), ("yield", Yield),
    ("get", Identifier),
];
/// Longer ones first.
const SIGNS: [(&str, Token); 54] = [
    (">>>=", OperatorUBSRAssign),
    ("===", OperatorStrictEquality), ("!==", OperatorStrictInequality), ("<<=", OperatorBSLAssign), (">>=", OperatorBSRAssign),
    (">>>", OperatorUBitShiftRight), ("**=", OperatorExponentAssign), ("...", OperatorSpread),
    ("==", OperatorEquality), ("!=", OperatorInequality), ("=>", OperatorFatArrow), ("<<", OperatorBitShiftLeft),
    (">>", OperatorBitShiftRight), ("<=", OperatorLesserEquals), (">=", OperatorGreaterEquals), ("++", OperatorIncrement),
    ("--", OperatorDecrement), ("**", OperatorExponent), ("&&", OperatorLogicalAnd), ("||", OperatorLogicalOr),
    ("+=", OperatorAddAssign), ("-=", OperatorSubtractAssign), ("*=", OperatorMultiplyAssign), ("/=", OperatorDivideAssign),
    ("%=", OperatorRemainderAssign), ("&=", OperatorBitAndAssign), ("|=", OperatorBitOrAssign), ("^=", OperatorBitXorAssign),
    (";", Semicolon), (":", Colon), (",", Comma), ("(", ParenOpen), (")", ParenClose), ("[", BracketOpen), ("]", BracketClose),
    ("{", BraceOpen), ("}", BraceClose), ("!", OperatorLogicalNot), ("~", OperatorBitwiseNot), ("*", OperatorMultiplication),
    ("/", OperatorDivision), ("%", OperatorRemainder), ("+", OperatorAddition), ("-", OperatorSubtraction), ("<", OperatorLesser),
    (">", OperatorGreater), ("&", OperatorBitwiseAnd), ("^", OperatorBitwiseXor), ("|", OperatorBitwiseOr), ("?", OperatorConditional),
    ("=", OperatorAssign),
    // not tokens on their own
    ("..", UnexpectedToken), ("@", UnexpectedToken), ("#", UnexpectedToken),
];

#[derive(Clone, Copy, PartialEq)]
enum R {
    Token { kind: Token, start: usize, end: usize, newline: bool },
    /// No token can start here.
    Bad,
    /// Outside what the property speaks of.
    Beyond,
}

/// The byte there, or 0.
fn at(s: &[u8], i: usize) -> u8 {
    if i < s.len() {
        s[i]
    } else {
        0
    }
}
fn digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
fn hex(c: u8) -> bool {
    digit(c) | ((c | 0x20).wrapping_sub(b'a') < 6)
}
fn start(c: u8) -> bool {
    ((c | 0x20).wrapping_sub(b'a') < 26) | (c == b'_') | (c == b'$') | (c == b'\\')
}
fn part(c: u8) -> bool {
    start(c) | digit(c) | (c >= 0x80)
}
/// The number of bytes of the letter beyond ASCII there.
fn letter(s: &[u8], i: usize) -> Option<usize> {
    for l in ["\u{e9}", "\u{4e2d}"].iter() {
        if s[i..].starts_with(l.as_bytes()) {
            return Some(l.len());
        }
    }
    None
}
fn run(s: &[u8], mut i: usize, f: fn(u8) -> bool) -> usize {
    while f(at(s, i)) {
        i += 1;
    }
    i
}
/// Where a string or template piece that starts at i ends.
fn template(s: &[u8], mut i: usize) -> Option<(Token, usize)> {
    loop {
        match at(s, i) {
            0 => return None,
            b'`' => return Some((TemplateClosed, i + 1)),
            b'\\' => i += 2,
            b'$' if at(s, i + 1) == b'{' => return Some((TemplateOpen, i + 2)),
            _ => i += 1,
        }
    }
}
fn regex(s: &[u8], mut i: usize) -> Option<usize> {
    let mut class = false;
    loop {
        match at(s, i) {
            0 | b'\n' | b'\r' => return None,
            b'\\' => {
                if matches!(at(s, i + 1), b'\n' | b'\r') {
                    return None;
                }
                i += 2;
                continue;
            }
            b'[' => class = true,
            b']' => class = false,
            b'/' if !class => return Some(run(s, i + 1, |c| matches!(c, b'g' | b'i' | b'm' | b'u' | b'y'))),
            _ => {}
        }
        i += 1;
    }
}
fn string(s: &[u8], mut i: usize, quote: u8) -> Option<usize> {
    loop {
        let c = at(s, i);
        if c == quote {
            return Some(i + 1);
        }
        match c {
            0 | b'\n' | b'\r' => return None,
            b'\\' => i += if at(s, i + 1) == b'\r' && at(s, i + 2) == b'\n' { 3 } else { 2 },
            _ => i += 1,
        }
    }
}
fn number(s: &[u8], i: usize) -> (Option<Token>, usize) {
    let c = at(s, i);
    let x = at(s, i + 1) | 0x20;
    if c == b'0' && (x == b'x' || x == b'o' || x == b'b') {
        let e = run(s, i + 2, match x {
            b'x' => hex,
            b'o' => |c| c.wrapping_sub(b'0') < 8,
            _ => |c| c.wrapping_sub(b'0') < 2,
        });
        let k = if x == b'b' { LiteralBinary } else { LiteralNumber };
        return (if e > i + 2 { Some(k) } else { None }, e);
    }
    let mut e = run(s, i, digit);
    if at(s, e) == b'.' {
        e = run(s, e + 1, digit);
    }
    if at(s, e) | 0x20 == b'e' {
        e += 1;
        let c = at(s, e);
        if c == b'+' || c == b'-' {
            e += 1;
        }
        let d = run(s, e, digit);
        return (if d > e { Some(LiteralNumber) } else { None }, d);
    }
    (Some(LiteralNumber), e)
}
/// The token after position i.
fn token(s: &[u8], mut i: usize) -> R {
    let mut newline = false;
    loop {
        match at(s, i) {
            b'\n' | b'\r' => newline = true,
            b' ' | b'\t' | 0x0B | 0x0C => {}
            b'/' if at(s, i + 1) == b'/' => {
                while at(s, i) != 0 && at(s, i) != b'\n' && at(s, i) != b'\r' {
                    i += 1;
                }
                continue;
            }
            b'/' if at(s, i + 1) == b'*' => {
                i += 2;
                while !(at(s, i) == b'*' && at(s, i + 1) == b'/') {
                    match at(s, i) {
                        0 => return R::Bad,
                        b'\n' | b'\r' => newline = true,
                        _ => {}
                    }
                    i += 1;
                }
                i += 1;
            }
            _ => break,
        }
        i += 1;
    }
    let c = at(s, i);
    let tok = |kind, end| R::Token { kind, start: i, end, newline };
    if c == 0 {
        return tok(EndOfProgram, i);
    }
    if c < b' ' {
        return R::Beyond;
    }
    if start(c) || c >= 0x80 {
        let e = match c >= 0x80 {
            true => match letter(s, i) {
                Some(n) => run(s, i + n, part),
                None => return if s[i..].starts_with("\u{1d7d8}".as_bytes()) { R::Beyond } else { R::Bad },
            },
            false => run(s, i, part),
        };
        let mut kind = Identifier;
        for (w, k) in WORDS.iter() {
            if w.len() == e - i && w.as_bytes() == &s[i..e] {
                kind = *k;
            }
        }
        return tok(kind, e);
    }
    if digit(c) || (c == b'.' && digit(at(s, i + 1))) {
        return match number(s, i) {
            // must not be followed by another digit or the start of a name
            (_, e) if part(at(s, e)) => R::Beyond,
            (Some(k), e) => tok(k, e),
            (None, _) => R::Bad,
        };
    }
    if c == b'"' || c == b'\'' {
        return match string(s, i + 1, c) {
            Some(e) => tok(LiteralString, e),
            None => R::Bad,
        };
    }
    if c == b'`' {
        return match template(s, i + 1) {
            Some((k, e)) => tok(k, e),
            None => R::Bad,
        };
    }
    if c == b'.' && at(s, i + 1) != b'.' {
        // the name of a property and the dot before it are one token
        let a = run(s, i + 1, |c| c.wrapping_sub(1) < b' ');
        let c = at(s, a);
        for &b in &s[i + 1..a] {
            if !matches!(b, b' ' | b'\t' | 0x0B | 0x0C | b'\r' | b'\n') {
                return R::Beyond;
            }
        }
        if c == b'/' {
            return R::Beyond;
        }
        if c >= 0x80 {
            return match letter(s, a) {
                Some(n) => tok(Accessor, run(s, a + n, part)),
                None => if s[a..].starts_with("\u{1d7d8}".as_bytes()) { R::Beyond } else { R::Bad },
            };
        }
        if start(c) {
            return tok(Accessor, run(s, a, part));
        }
        return R::Bad;
    }
    for (w, k) in SIGNS.iter() {
        if s[i..].starts_with(w.as_bytes()) {
            return if *k == UnexpectedToken { R::Bad } else { tok(*k, i + w.len()) };
        }
    }
    R::Bad
}

fn compare(lex: &Lexer, src: &str, r: R) -> bool {
    let t = lex.token;
    let (a, b) = lex.loc();
    let asi = lex.asi();
    observe(&[t as u8, a as u8, b as u8, asi as u8]);
    match r {
        R::Token { kind, start, end, newline } => {
            check(t == kind, 1);
            check(a as usize == start, 2);
            check(kind == EndOfProgram || b as usize == end, 3);
            check(lex.token_as_str().as_bytes() == &src.as_bytes()[start..end], 4);
            if kind == Accessor {
                let name = lex.accessor_as_str().as_bytes();
                check(name.len() > 0 && name.len() < end - start && name == &src.as_bytes()[end - name.len()..end], 5);
                check((start + 1..end - name.len()).all(|i| src.as_bytes()[i] <= b' '), 6);
            }
            check(
                match kind {
                    Semicolon => asi == Asi::ExplicitSemicolon,
                    BraceClose | EndOfProgram => asi == Asi::ImplicitSemicolon,
                    ParenClose => true,
                    _ => (asi == Asi::ImplicitSemicolon) == newline && asi != Asi::ExplicitSemicolon,
                },
                7,
            );
            reach(1);
            kind != EndOfProgram
        }
        R::Bad => {
            check(t == UnexpectedToken || t == UnexpectedEndOfProgram, 8);
            reach(2);
            false
        }
        R::Beyond => false,
    }
}

/// Both tokenizers, driven as a parser would: a brace that closes a substitution continues the
/// template; a slash where an expression starts is a regular expression.
fn both(src: &str) {
    show!("{:?}", src);
    let s = src.as_bytes();
    // a NUL is the end for the lexer
    for &c in s {
        assume(c != 0);
    }
    let arena = toolshed::Arena::new();
    let mut lex = Lexer::new(&arena, src);
    let mut open: Vec<bool> = vec![];
    let mut i = 0;
    let mut operand = true;
    loop {
        let r = token(s, i);
        if !compare(&lex, src, r) {
            return;
        }
        let (kind, mut end) = match r {
            R::Token { kind, end, .. } => (kind, end),
            _ => return,
        };
        let mut k = kind;
        let mut a = match r {
            R::Token { start, .. } => start + 1,
            _ => 0,
        };
        match kind {
            BraceOpen => open.push(false),
            BraceClose => {
                if open.pop() == Some(true) {
                    lex.read_template_kind();
                    a = end;
                    match template(s, end) {
                        Some((t, e)) => {
                            k = t;
                            end = e;
                        }
                        None => return check(lex.token == UnexpectedEndOfProgram, 9),
                    }
                    check(lex.token == k && lex.end() as usize == end, 9);
                    reach(3);
                }
            }
            OperatorDivision if operand => {
                let t = lex.read_regular_expression().as_bytes();
                match regex(s, end) {
                    Some(e) => {
                        check(lex.token == LiteralRegEx && lex.end() as usize == e && t == &s[end - 1..e], 10);
                        reach(4);
                        end = e;
                        k = LiteralRegEx;
                    }
                    None => return check(lex.token == UnexpectedToken || lex.token == UnexpectedEndOfProgram, 10),
                }
                if part(at(s, end)) {
                    return;
                }
            }
            _ => {}
        }
        if k == TemplateOpen || k == TemplateClosed {
            let e = end - if k == TemplateOpen { 2 } else { 1 };
            check(lex.quasi.as_bytes() == &s[a..e], 11);
            if k == TemplateOpen {
                open.push(true);
            }
        }
        operand = !matches!(
            k,
            Identifier | Accessor | LiteralNumber | LiteralBinary | LiteralString | LiteralRegEx | ParenClose | BracketClose | BraceClose
                | TemplateClosed | This | LiteralNull | LiteralTrue | LiteralFalse | LiteralUndefined
        );
        i = end;
        lex.consume();
    }
}

/// An arbitrary window of n characters in one of the contexts (plus 100: with characters beyond
/// ASCII).
pub fn window(n: u64, b: u64) {
    let (p, q) = CTX[b as usize % 100];
    let mut s = p.as_bytes().to_vec();
    for _ in 0..n {
        element(&mut s, b >= 100);
    }
    s.extend_from_slice(q.as_bytes());
    both(unsafe { std::str::from_utf8_unchecked(&s) });
}

/// Each word of the language, with n characters put at any place in it or, instead, in place of any
/// one letter (b = 1), or at its end and cut short (b = 2).
pub fn words(n: u64, b: u64) {
    let w = WORDS[choice(WORDS.len())].0.as_bytes();
    let i = choice(w.len() + 1);
    let mut s = w[..i].to_vec();
    for _ in 0..n {
        element(&mut s, false);
    }
    match b {
        0 => s.extend_from_slice(&w[i..]),
        1 => {
            assume(i < w.len());
            s.extend_from_slice(&w[i + 1..]);
        }
        _ => {}
    }
    both(unsafe { std::str::from_utf8_unchecked(&s) });
}

/// n characters, each an arbitrary one of those operators are made of.
pub fn signs(n: u64, _: u64) {
    let set: &[u8] = [&b"<>=!"[..], b"&|^=", b"+-=>", b"*/%=", b".0?:", b"!~-+"][choice(6)];
    let mut s = vec![];
    if choice(2) == 1 {
        s.push(b'A');
    }
    for _ in 0..n {
        let c = byte();
        assume((c == set[0]) | (c == set[1]) | (c == set[2]) | (c == set[3]));
        s.push(c);
    }
    both(unsafe { std::str::from_utf8_unchecked(&s) });
}

/// Tokens and gaps of up to n characters, with an arbitrary character in them (b = 0), or b after
/// them.
pub fn long(n: u64, b: u64) {
    both(&long_text(n, b));
}
/// Parsing those returns.
pub fn parse_long(n: u64, b: u64) {
    crate::total::go_parse(&long_text(n, b));
}
fn long_text(n: u64, b: u64) -> String {
    let n = choice(n as usize + 1);
    let p = if b == 0 { choice(n + 1) } else { 0 };
    let (open, fill, close): (&[u8], &[u8], &[u8]) = [
        (&b"A"[..], &b"A"[..], &b""[..]),
        (b"$", b"_", b" "),
        (b"1", b"1", b""),
        (b"0", b"1", b""),
        (b".1", b"1", b""),
        (b"0x", b"F", b""),
        (b"0b", b"1", b""),
        (b"0o", b"7", b""),
        (b"1e", b"1", b""),
        (b"1e-", b"1", b""),
        (b"'", b"A", b"'"),
        (b"\"", b"A", b"\""),
        (b"`", b"A", b"`"),
        (b"`${A}", b"A", b"`"),
        (b"/", b"A", b"/"),
        (b"/[", b"A", b"]/"),
        (b"/*", b"A", b"*/A"),
        (b"/*", b"*", b"*/A"),
        (b"//", b"A", b"\nA"),
        (b"A", b" ", b"A"),
        (b"A", b"\n", b"A"),
        (b"A.", b" ", b"A"),
        (b"A\n//", b"A", b""),
    ][choice(23)];
    let mut s = open.to_vec();
    for _ in 0..p {
        s.extend_from_slice(fill);
    }
    if b == 0 {
        element(&mut s, false);
    }
    for _ in p..n {
        s.extend_from_slice(fill);
    }
    s.extend_from_slice(close);
    for _ in 0..b {
        element(&mut s, false);
    }
    unsafe { String::from_utf8_unchecked(s) }
}
