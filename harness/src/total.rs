//! Arbitrary source text: nothing in the library may panic, hang or touch memory it does not own.
use crate::sym::*;

/// Text around the arbitrary window, so that the window is lexed in every state.
pub const CTX: [(&str, &str); 48] = [
    ("", ""),
    ("", "\n"),
    ("a", "b"),
    ("`", "`"),
    ("`a${", "}`"),
    ("`a${b}", ""),
    ("'", "'"),
    ("\"a\\", "\""),
    ("/", "/"),
    ("/[", "]/g"),
    ("/*", "*/a"),
    ("//", "\na"),
    ("a.", ""),
    ("a[", "]"),
    ("a(", ")"),
    ("(", ")=>b"),
    ("(a", ")"),
    ("[", "]"),
    ("({", "})"),
    ("({a", "})"),
    ("0", ""),
    ("1", "e"),
    ("0x", ""),
    ("0b", ""),
    ("new ", ""),
    ("new a", "b"),
    ("class{", "}"),
    ("class a{get ", "}"),
    ("function", "{}"),
    ("function a(", "){}"),
    ("var ", ""),
    ("var [", "]=a"),
    ("let {", "}=a"),
    ("for(", ";;)a"),
    ("for(a", "b)c"),
    ("if(a)", "else b"),
    ("do a", "while(b)"),
    ("switch(a){", "}"),
    ("switch(a){case b:", "}"),
    ("try{", "}catch(a){}"),
    ("try{}", "{}"),
    ("import ", "from 'a'"),
    ("import {", "} from 'a'"),
    ("return", "\na"),
    ("a", "\n++b"),
    ("a?", ":b"),
    ("{", "}"),
    ("a=>", ""),
];

/// Source text made of an arbitrary window of n characters in the given context.
/// More than eight characters of window are only for the bytes the caller restricts itself.
pub fn window(n: u64, ctx: u64, uni: bool) -> String {
    let (p, q) = CTX[ctx as usize];
    let mut s = Vec::with_capacity(64);
    s.extend_from_slice(p.as_bytes());
    for _ in 0..n {
        element(&mut s, uni);
    }
    s.extend_from_slice(q.as_bytes());
    unsafe { String::from_utf8_unchecked(s) }
}
/// Characters beyond ASCII: letters and non-letters of every encoded length, a byte order mark,
/// Unicode white space and line terminators.
const UNI: [&str; 9] = ["\u{e9}", "\u{d7}", "\u{a0}", "\u{7ff}", "\u{4e2d}", "\u{2028}", "\u{feff}", "\u{1f600}", "\u{1d7d8}"];
/// An arbitrary ASCII character, or (when asked for) perhaps one beyond ASCII.
pub fn element(s: &mut Vec<u8>, uni: bool) {
    let k = if uni { choice(1 + UNI.len()) } else { 0 };
    if k > 0 {
        s.extend_from_slice(UNI[k - 1].as_bytes());
    } else {
        let b = byte();
        assume(b < 0x80);
        s.push(b);
    }
}

fn errors(e: &[ratel::error::Error], s: &str) {
    check(!e.is_empty(), 1);
    for e in e {
        observe(&[e.start as u8, e.end as u8]);
        observe(e.raw.as_bytes());
    }
    observe(s.as_bytes());
}

/// Parsing returns.
pub fn parse(n: u64, ctx: u64) {
    go_parse(&window(n, ctx, false));
}
pub fn parse_uni(n: u64, ctx: u64) {
    go_parse(&window(n, ctx, true));
}
/// One wholly arbitrary character of k bytes.
pub fn parse_char(k: u64, ctx: u64) {
    let (p, q) = CTX[ctx as usize];
    let mut s = Vec::with_capacity(64);
    s.extend_from_slice(p.as_bytes());
    let b = byte();
    match k {
        2 => assume(b >= 0xC2 && b < 0xE0),
        3 => assume(b >= 0xE1 && b < 0xED),
        _ => assume(b == 0xF0),
    }
    s.push(b);
    for i in 1..k {
        let c = byte();
        assume(c >= if k == 4 && i == 1 { 0x90 } else { 0x80 } && c < 0xC0);
        s.push(c);
    }
    s.extend_from_slice(q.as_bytes());
    go_parse(unsafe { std::str::from_utf8_unchecked(&s) });
}
pub fn go_parse(s: &str) {
    match ratel::parse(s) {
        Ok(m) => {
            observe(&[m.body().iter().count() as u8]);
            reach(1);
        }
        Err(e) => {
            errors(&e, s);
            reach(2);
        }
    }
}

/// Everything that consumes a parsed program returns for whatever the parser accepts.
/// The context is given by b % 100, the consumer by b / 100.
pub fn consume(n: u64, b: u64) {
    go_consume(&window(n, b % 100, false), b / 100);
}
pub fn consume_uni(n: u64, b: u64) {
    go_consume(&window(n, b % 100, true), b / 100);
}
/// The same for generated programs; b: the consumer.
pub fn consume_program(a: u64, b: u64) {
    // scope analysis compares names: they are all different
    let mut g = crate::gen::G { few: if b == 2 { 1 } else { 0 }, ..crate::gen::G::new(false) };
    let p = crate::fidelity::program(a, &mut g);
    let w = crate::fidelity::write(&p);
    go_consume(crate::fidelity::text(&w), b);
}
pub fn go_consume(s: &str, which: u64) {
    match ratel::parse(s) {
        Ok(mut m) => {
            let shared: &ratel::Module = unsafe { &*(&m as *const ratel::Module) };
            match which {
                0 => {
                    observe(ratel_codegen::codegen(shared, true).as_bytes());
                    observe(ratel_codegen::codegen(shared, false).as_bytes());
                }
                1 => {
                    let j = serde_json::to_string(shared);
                    check(j.is_ok(), 1);
                    observe(j.unwrap().as_bytes());
                }
                2 => {
                    let sc = ratel_transformer::scope::analyze(shared);
                    observe(&[sc.children.as_list().iter().count() as u8]);
                }
                _ => {
                    ratel_transformer::transform(unsafe { &mut *(&mut m as *mut ratel::Module) });
                    observe(ratel_codegen::codegen(shared, true).as_bytes());
                }
            }
            reach(1);
        }
        Err(_) => reach(2),
    }
}
