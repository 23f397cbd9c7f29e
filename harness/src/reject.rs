//! Programs with one thing missing, or one too many, are rejected.
use crate::asi::reject;
use crate::fidelity::{program, write};
use crate::gen::*;
use crate::sym::*;
use crate::tree::*;

struct T {
    kind: Tk,
    s: Vec<u8>,
}

fn tokens(p: &[St]) -> Vec<T> {
    let w = write(p);
    w.toks.iter().map(|t| T { kind: t.kind, s: w.out[t.s as usize..t.e as usize].to_vec() }).collect()
}
fn text(v: &[T]) -> Vec<u8> {
    let mut o = Vec::with_capacity(128);
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            o.push(b' ');
        }
        o.extend_from_slice(&t.s);
    }
    o
}
fn no(v: &[T]) {
    no_text(&text(v));
}
fn no_text(o: &[u8]) {
    reject(unsafe { std::str::from_utf8_unchecked(o) });
}
const BRACKETS: [&[u8]; 6] = [b"(", b")", b"[", b"]", b"{", b"}"];
fn bracket(t: &T) -> Option<usize> {
    if t.kind != Tk::Punct {
        return None;
    }
    BRACKETS.iter().position(|b| *b == &t.s[..])
}
fn punct(s: &[u8]) -> T {
    T { kind: Tk::Punct, s: s.to_vec() }
}
fn template(t: &T) -> bool {
    t.kind == Tk::Str && (t.s[0] == b'`' || t.s[0] == b'}')
}
/// A name (all names are one capital letter), a number or a string.
fn operand(t: &T) -> bool {
    match t.kind {
        Tk::Word => t.s.len() == 1,
        Tk::Num => true,
        Tk::Str => !template(t),
        _ => false,
    }
}
/// Whether an operand has to follow.
fn wants(t: &T) -> bool {
    match t.kind {
        Tk::Punct => match &t.s[..] {
            b"(" | b")" | b"[" | b"]" | b"{" | b"}" | b";" | b":" | b"," | b"++" | b"--" => false,
            _ => true,
        },
        Tk::Word => match &t.s[..] {
            b"new" | b"typeof" | b"void" | b"delete" | b"in" | b"instanceof" | b"throw" | b"case" | b"extends" => true,
            _ => false,
        },
        _ => false,
    }
}
fn closer(t: &T) -> bool {
    t.kind == Tk::Punct && matches!(&t.s[..], b")" | b"]" | b"}" | b";")
}
/// Whether nothing can end here.
fn more(t: &T) -> bool {
    wants(t)
        || match t.kind {
            Tk::Punct => matches!(&t.s[..], b"," | b":"),
            Tk::Word => matches!(
                &t.s[..],
                b"var" | b"const" | b"if" | b"for" | b"while" | b"do" | b"else" | b"function" | b"class" | b"switch" | b"try" | b"catch"
                    | b"finally" | b"import" | b"from" | b"as"
            ),
            _ => false,
        }
}
/// Brackets open after each token.
fn depth(v: &[T]) -> Vec<i32> {
    let mut d = 0;
    v.iter()
        .map(|t| {
            match bracket(t) {
                Some(b) => d += if b % 2 == 0 { 1 } else { -1 },
                None if template(t) => {
                    d += match (t.s[0] == b'`', t.s[t.s.len() - 1] == b'`' && t.s.len() > 1) {
                        (true, true) | (false, false) => 0,
                        (true, false) => 1,
                        (false, true) => -1,
                    }
                }
                None => {}
            }
            d
        })
        .collect()
}
/// Whether the token at i (or what is put there) lies within a substitution of a template, where
/// a brace can make the rest of the text another template.
fn substitution(v: &[T], i: usize) -> bool {
    let mut d = 0;
    for t in v[..i].iter().filter(|t| template(t)) {
        d += match (t.s[0] == b'`', t.s[t.s.len() - 1] == b'`' && t.s.len() > 1) {
            (true, true) | (false, false) => 0,
            (true, false) => 1,
            (false, true) => -1,
        };
    }
    d > 0
}
/// What the token at i lies within: parentheses, brackets, the braces of an object or a list of
/// names to import, or anything else (a space).
fn within(v: &[T], i: usize) -> u8 {
    let mut open = vec![];
    for k in 0..i {
        match bracket(&v[k]) {
            Some(0) => open.push(b'('),
            Some(2) => open.push(b'['),
            Some(4) => {
                let list = k > 0
                    && v[k - 1].s != b"=>"
                    && (wants(&v[k - 1]) && v[k - 1].s != b"extends" || matches!(&v[k - 1].s[..], b"(" | b"[" | b"," | b"import" | b"var" | b"let" | b"const"));
                open.push(if list { b'{' } else { b' ' });
            }
            Some(_) => {
                open.pop();
            }
            None if template(&v[k]) => {
                if v[k].s[0] == b'}' {
                    open.pop();
                }
                if v[k].s[v[k].s.len() - 1] == b'{' {
                    open.push(b' ');
                }
            }
            None => {}
        }
    }
    open.pop().unwrap_or(b' ')
}
/// An operator that needs operands on both sides.
fn infix() -> &'static [u8] {
    let o = choice(12);
    [&b"*"[..], b"%", b"<", b">>>", b"===", b"&", b"||", b"=", b"**", b"+=", b"?", b"."][o]
}

/// Keywords that no operand begins with.
const KEYWORDS: [&str; 29] = [
    "break", "case", "catch", "const", "continue", "debugger", "default", "do", "else", "enum", "export", "extends", "finally", "for", "if",
    "implements", "in", "instanceof", "interface", "package", "protected", "public", "return", "switch", "throw", "try", "var", "while", "with",
];

/// b: the change
pub fn changed(a: u64, b: u64) {
    let mut g = G::new(false);
    g.noslash = true;
    let p = program(a, &mut g);
    let mut v = tokens(&p);
    let n = v.len();
    assume(n > 0);
    match b {
        // a bracket less
        0 => {
            let i = choice(n);
            let o = bracket(&v[i]);
            assume(o.is_some() && !(o == Some(4) && substitution(&v, i)));
            v.remove(i);
            no(&v);
        }
        // a bracket more
        1 => {
            let i = choice(n + 1);
            let k = choice(6);
            assume(!(k == 5 && substitution(&v, i)));
            v.insert(i, punct(BRACKETS[k]));
            no(&v);
        }
        // another bracket
        2 => {
            let i = choice(n);
            let k = choice(6);
            let o = bracket(&v[i]);
            assume(o.is_some() && o != Some(k) && !(k == 5 && substitution(&v, i)));
            v[i] = punct(BRACKETS[k]);
            no(&v);
        }
        // cut off inside brackets
        3 => {
            let i = choice(n);
            assume(depth(&v)[i] > 0);
            v.truncate(i + 1);
            no(&v);
        }
        // cut off where more has to follow, or with the end of a block there
        4 => {
            let i = choice(n);
            assume(more(&v[i]));
            v.truncate(i + 1);
            let d = depth(&v)[i];
            if d == 0 && choice(2) == 1 {
                v.insert(0, punct(b"{"));
                v.push(punct(b"}"));
            }
            no(&v);
        }
        // an operand less
        5 => {
            let i = choice(n);
            assume(i > 0 && i + 1 < n && operand(&v[i]) && wants(&v[i - 1]) && closer(&v[i + 1]));
            v.remove(i);
            no(&v);
        }
        // an operand more
        6 => {
            let i = choice(n);
            assume(operand(&v[i]));
            let t = match choice(3) {
                0 => T { kind: Tk::Word, s: g.id() },
                1 => T { kind: Tk::Num, s: g.num() },
                _ => T { kind: Tk::Str, s: vec![b'\'', g.plain(), b'\''] },
            };
            v.insert(i + 1, t);
            no(&v);
        }
        // no separator
        7 => {
            let i = choice(n);
            assume(i > 0 && i + 1 < n && operand(&v[i - 1]) && operand(&v[i + 1]) && !operand(&v[i]));
            v.remove(i);
            no(&v);
        }
        // an operator without an operand
        8 => {
            let i = choice(n);
            let o = infix();
            if closer(&v[i]) && v[i].s[0] != b'}' {
                v.insert(i, punct(o));
            } else {
                assume(matches!(bracket(&v[i]), Some(0) | Some(2)));
                v.insert(i + 1, punct(o));
            }
            no(&v);
        }
        // cut off inside a string, template or comment
        9 => {
            let i = choice(n);
            assume(v[i].kind == Tk::Str && v[i].s.len() > 1);
            v.truncate(i + 1);
            let mut o = text(&v);
            let last = v[i].s[v[i].s.len() - 1];
            assume(last != b'{');
            o.pop();
            if choice(2) == 1 {
                o.push(b'\\');
                o.push(last);
            }
            no_text(&o);
        }
        // a comment that does not end
        10 => {
            let i = choice(n + 1);
            let rest = v.split_off(i);
            let mut o = text(&v);
            o.extend_from_slice(b"/*");
            o.extend_from_slice(&text(&rest));
            no_text(&o);
        }
        // a NUL character
        13 => {
            let i = choice(n + 1);
            let rest = v.split_off(i);
            let mut o = text(&v);
            o.push(0);
            o.extend_from_slice(&text(&rest));
            no_text(&o);
        }
        // a line break in a string
        11 => {
            let i = choice(n);
            assume(v[i].kind == Tk::Str && !template(&v[i]));
            let k = v[i].s.len() - 1;
            v[i].s.insert(k, b'\n');
            no(&v);
        }
        // another separator
        14 => {
            let i = choice(n);
            let around = within(&v, i);
            assume(v[i].kind == Tk::Punct && around != b' ');
            v[i].s = match (v[i].s[0], around) {
                (b',', b'{') => vec![b';'],
                (b',', _) => vec![[b';', b':'][choice(2)]],
                (b';', b'(') => vec![b','],
                _ => vec![],
            };
            assume(v[i].s.len() > 0);
            no(&v);
        }
        // a token twice
        15 => {
            let i = choice(n);
            assume(i == 0 || v[i - 1].s != b".");
            let around = within(&v, i);
            assume(match v[i].kind {
                Tk::Punct => match &v[i].s[..] {
                    b"," => around != b'[',
                    b";" => around == b'(',
                    b"." | b":" | b"=>" | b"?" | b"=" | b"..." | b"*" | b"%" | b"&" | b"|" | b"^" | b"<" | b">" | b"===" | b">>>" | b"&&"
                    | b"||" | b"+=" => true,
                    _ => false,
                },
                Tk::Word => match &v[i].s[..] {
                    b"typeof" | b"void" | b"delete" | b"new" | b"do" | b"of" => false,
                    // a getter can be called get
                    b"get" | b"set" => i + 1 < n && v[i + 1].s == b"=",
                    _ => true,
                },
                _ => false,
            });
            let t = T { kind: v[i].kind, s: v[i].s.clone() };
            v.insert(i, t);
            no(&v);
        }
        // a keyword for a name
        16 => {
            let i = choice(n);
            assume(i > 0 && v[i].kind == Tk::Word && operand(&v[i]) && v[i - 1].s != b".");
            let prev = &v[i - 1].s[..];
            assume(wants(&v[i - 1]) || matches!(prev, b"(" | b"[" | b"," | b"{"));
            let around = within(&v, i);
            if around == b'{' {
                assume(i + 1 < n && !matches!(&v[i + 1].s[..], b":" | b"("));
            } else {
                assume(prev != b"{");
            }
            let k = KEYWORDS[choice(KEYWORDS.len())];
            // for (var [A] of B)
            assume(prev != b"(" || !matches!(k, "var" | "const"));
            v[i].s = k.as_bytes().to_vec();
            no(&v);
        }
        // no operand before an operator
        17 => {
            let i = choice(n);
            assume(i > 0 && i + 1 < n && operand(&v[i]) && matches!(&v[i - 1].s[..], b"(" | b"[" | b"{" | b"," | b"=" | b"return" | b"=>" | b"&&"));
            assume(v[i + 1].kind == Tk::Punct);
            assume(match &v[i + 1].s[..] {
                b"=" | b"*" | b"%" | b"<" | b">" | b">>>" | b"===" | b"&" | b"|" | b"^" | b"&&" | b"||" | b"**" | b"+=" | b"?" | b"." | b"=>" => true,
                _ => false,
            });
            v.remove(i);
            no(&v);
        }
        // a separator with nothing before it
        _ => {
            let i = choice(n);
            assume(v[i].kind == Tk::Punct && matches!(&v[i].s[..], b"(" | b";" | b"."));
            let s = [&b","[..], b":", b"=>"][choice(3)];
            v.insert(i + 1, punct(s));
            no(&v);
        }
    }
}

/// Beginnings of statements that cannot end there; nor (those marked) before a semicolon.
const OPEN: [(&str, bool); 56] = [
    ("if(A)", false), ("while(A)", false), ("for(;;)", false), ("for(A in B)", false), ("for(A of B)", false), ("do", false),
    ("do A;", true), ("do A;while", true), ("do{}", true), ("try{}", true), ("try{}catch", true), ("try{}catch(A)", true), ("try{}finally", true),
    ("try", true), ("try{}catch(A){}finally", true), ("switch(A)", true), ("switch", true), ("function", true), ("function A", true),
    ("function A()", true), ("function*", true), ("function*A", true), ("class", true), ("class A", true), ("class A extends", true),
    ("class A extends B", true), ("import", true), ("import A", true), ("import A,", true), ("import{A}", true), ("import*", true),
    ("import*as", true), ("import*as A", true), ("import A from", true), ("import{A}from", true), ("var", true), ("const", true), ("var A,", true),
    ("var A=", true), ("throw", true), ("if(A);else", false), ("A:", false), ("new", true), ("typeof", true), ("A=", true), ("A?B", true),
    ("A?B:", true), ("A=>", true), ("()", true), ("(A)=>", true), ("A.", true), ("...", true), ("A instanceof", true), ("!", true), ("++", true),
    ("new.", true),
];

/// a: the number of characters of one of those beginnings, followed by the end, a closing brace,
/// a semicolon or a line break
pub fn incomplete(_: u64, _: u64) {
    let (s, semi) = OPEN[choice(OPEN.len())];
    let mut o = vec![];
    let mut g = G::new(false);
    let block = choice(2) == 1;
    if block {
        o.push(b'{');
    }
    for c in s.bytes() {
        if c == b'A' || c == b'B' {
            o.extend(g.id());
        } else {
            o.push(c);
        }
    }
    match choice(if semi { 4 } else { 2 }) {
        0 => {}
        1 => o.push(b'\n'),
        2 => o.push(b';'),
        _ => o.extend_from_slice(b"\n;"),
    }
    if block {
        o.push(b'}');
    }
    no_text(&o);
}

/// Text that opens a string, template, regular expression or comment, then n arbitrary characters
/// that do not close it.
pub fn unclosed(n: u64, _: u64) {
    let k = choice(6);
    let pre = [&b""[..], b"A=", b"{A(", b"`${"][choice(4)];
    let mut o = pre.to_vec();
    let open = [&b"\""[..], b"'", b"`", b"/", b"/*", b"/["][k];
    o.extend_from_slice(open);
    let s = o.len();
    for _ in 0..n {
        crate::total::element(&mut o, false);
    }
    let mut escaped = false;
    let mut class = k == 5;
    for i in s..o.len() {
        let c = o[i];
        assume(c != 0);
        if k == 4 {
            assume(!(c == b'*' && i + 1 < o.len() && o[i + 1] == b'/'));
            continue;
        }
        if k == 3 && i == s {
            assume(c != b'/' && c != b'*' && c != b'=');
        }
        if escaped {
            escaped = c == b'\r' && i + 1 < o.len() && o[i + 1] == b'\n';
            if !((c == b'\n' || c == b'\r') && (k == 3 || k == 5)) {
                continue;
            }
        }
        match c {
            b'\\' => escaped = true,
            // a line break ends a string or regular expression, and makes the text malformed
            b'\n' | b'\r' if k != 2 => break,
            b'"' => assume(k != 0),
            b'\'' => assume(k != 1),
            b'`' => assume(k != 2),
            b'$' => assume(!(k == 2 && i + 1 < o.len() && o[i + 1] == b'{')),
            b'[' => class = true,
            b']' => class = false,
            b'/' => assume(k < 3 || class),
            _ => {}
        }
    }
    no_text(&o);
}

const TOKENS: [&str; 20] = [
    "(", ")", "[", "]", "{", "}", ",", ";", ":", "=>", "=", "...", ".", "`", "/", "++", "class", "function", "in", "\n",
];
/// A program that was changed in some place; b: the change.
pub fn damage(a: u64, b: u64) -> String {
    let mut g = G { few: 1, ..G::new(false) };
    let p = program(a, &mut g);
    let mut v = tokens(&p);
    let n = v.len();
    assume(n > 0);
    let mut o;
    match b {
        // cut off anywhere
        0 => {
            o = write(&p).out;
            let i = choice(o.len());
            o.truncate(i);
        }
        // a token less
        1 => {
            let i = choice(n);
            v.remove(i);
            o = text(&v);
        }
        // the wrong way round
        2 => {
            assume(n > 1);
            let i = choice(n - 1);
            v.swap(i, i + 1);
            o = text(&v);
        }
        // another token in its place
        3 => {
            let i = choice(n);
            v[i].s = TOKENS[choice(TOKENS.len())].as_bytes().to_vec();
            o = text(&v);
        }
        // a token more
        _ => {
            let i = choice(n + 1);
            let s = TOKENS[choice(TOKENS.len())].as_bytes().to_vec();
            v.insert(i, T { kind: Tk::Punct, s });
            o = text(&v);
        }
    }
    // not within a character
    let s = String::from_utf8(o);
    assume(s.is_ok());
    s.unwrap()
}
/// Parsing those returns.
pub fn damaged(a: u64, b: u64) {
    crate::total::go_parse(&damage(a, b));
}
/// So does whatever consumes what is accepted of those; b / 10: the consumer.
pub fn consume_damaged(a: u64, b: u64) {
    crate::total::go_consume(&damage(a, b % 10), b / 10);
}
