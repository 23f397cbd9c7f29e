//! Errors and the messages made of them.
use crate::fidelity::{program, write};
use crate::gen::*;
use crate::sym::*;
use crate::total::{element, CTX};
use ratel::error::{Error, ParseError};

fn boundary(s: &[u8], i: usize) -> bool {
    i == s.len() || (i < s.len() && s[i] & 0xC0 != 0x80)
}

/// Every error names a range of the source.
fn ranges(e: &[Error], src: &str) {
    let s = src.as_bytes();
    check(e.len() > 0, 1);
    for e in e {
        observe(&[e.token as u8, e.start as u8, e.end as u8]);
        check(e.start <= e.end && e.end <= s.len(), 2);
        check(boundary(s, e.start) && boundary(s, e.end), 3);
        check(e.raw.as_bytes() == &s[e.start..e.end], 4);
        // only the end of the source has no text
        let end = e.start == s.len() || s[e.start] == 0;
        check((e.start == e.end) == end || e.raw.as_bytes() == b"\0", 5);
        check((e.token == ratel::lexer::Token::EndOfProgram) == (e.start == e.end), 6);
    }
    reach(1);
}

fn number(o: &mut Vec<u8>, n: usize) -> usize {
    let d = n.to_string();
    o.extend_from_slice(d.as_bytes());
    d.len()
}
fn pad(o: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        o.push(b' ');
    }
}
fn digits(n: usize) -> usize {
    n.to_string().len()
}
/// The message that should be shown for an error.
fn message(src: &[u8], start: usize, end: usize) -> Vec<u8> {
    let mut lines: Vec<(usize, usize)> = vec![];
    let mut b = 0;
    let mut line = 0;
    for i in 0..src.len() + 1 {
        if i == start {
            line = lines.len();
        }
        if i == src.len() || src[i] == b'\n' {
            let mut e = i;
            while e > b && src[e - 1] == b'\r' {
                e -= 1;
            }
            lines.push((b, e));
            b = i + 1;
        }
    }
    let column = (lines[line].0..start).filter(|i| src[*i] & 0xC0 != 0x80).count();
    let length = (start..end).filter(|i| src[*i] & 0xC0 != 0x80).count();
    let mut o = b"Unexpected token at ".to_vec();
    number(&mut o, line + 1);
    o.push(b':');
    number(&mut o, column + 1);
    o.extend_from_slice(b"\n\n");
    let width = digits(line + 3);
    for l in line.saturating_sub(2)..lines.len().min(line + 3) {
        o.extend_from_slice(if l == line { b"> " } else { b"  " });
        pad(&mut o, width - digits(l + 1).min(width));
        number(&mut o, l + 1);
        o.extend_from_slice(b" | ");
        o.extend_from_slice(&src[lines[l].0..lines[l].1]);
        o.push(b'\n');
        if l == line {
            pad(&mut o, 2 + width);
            o.extend_from_slice(b" | ");
            pad(&mut o, column);
            for _ in 0..length {
                o.push(b'^');
            }
            o.push(b'\n');
        }
    }
    o
}
fn shown(src: &str, start: usize, end: usize) {
    let m = format!("{}", ParseError::UnexpectedToken { source: src.to_string(), start, end });
    observe(m.as_bytes());
    let r = message(src.as_bytes(), start, end);
    show!("{}\n{}", m, unsafe { std::str::from_utf8_unchecked(&r) });
    check(m.as_bytes() == &r[..], 7);
    reach(2);
}

fn go(src: &str, message: bool) {
    show!("{:?}", src);
    if let Err(e) = ratel::parse(src) {
        ranges(&e, src);
        if message {
            for e in &e {
                shown(src, e.start, e.end);
            }
        }
    } else {
        reach(3);
    }
}

/// An arbitrary window of n characters in one of the contexts (plus 100: with characters beyond
/// ASCII).
pub fn window(n: u64, b: u64) {
    let (p, q) = CTX[b as usize % 100];
    let mut s = p.as_bytes().to_vec();
    for _ in 0..n {
        element(&mut s, b >= 100);
    }
    s.extend_from_slice(q.as_bytes());
    go(unsafe { std::str::from_utf8_unchecked(&s) }, false);
}

const BEFORE: [&str; 12] = [
    "", "A", "A;\n", "\u{e9};", "A\r\n", "A\n\n", "A\nB\nC\nD\n", "\n\n\n\n\n\n\n", "\n\n\n\n\n\n\n\n", "\n\n\n\n\n\n\n\n\nA",
    "'\u{4e2d}\u{1f600}'+", "/*\n\u{e9}\n*/",
];
const AFTER: [&str; 6] = ["", "\n", "B\r\nC", "\nB\nC\nD", " \u{e9}\n\n", "\r\n\r\n"];

/// An arbitrary window of n characters on some line of a source of several lines.
pub fn report(n: u64, uni: u64) {
    let mut s = BEFORE[choice(BEFORE.len())].as_bytes().to_vec();
    for _ in 0..n {
        element(&mut s, uni > 0);
    }
    s.extend_from_slice(AFTER[choice(AFTER.len())].as_bytes());
    go(unsafe { std::str::from_utf8_unchecked(&s) }, true);
}

/// Any range of a source of up to n characters: the message alone.
pub fn message_of(n: u64, lines: u64) {
    let mut s = vec![];
    if lines > 0 {
        for _ in 0..[5, 6, 7, 8, 95, 96, 97, 98, 99, 996, 997, 998][choice(12)] {
            s.push(b'\n');
        }
    }
    for _ in 0..n {
        element(&mut s, true);
    }
    let f = s.len().saturating_sub(6);
    let i = f + choice(s.len() - f + 1);
    let j = i + choice(s.len() - i + 1);
    assume(boundary(&s, i) && boundary(&s, j));
    shown(unsafe { std::str::from_utf8_unchecked(&s) }, i, j);
}

/// A character that fits nowhere, put between any two tokens: the first error is there. (b = 1: the
/// source ends there, and if that is an error, it is the first one.)
pub fn first(a: u64, b: u64) {
    let p = program(a, &mut G::new(false));
    let w = write(&p);
    let n = w.toks.len();
    let i = choice(n);
    // a dot and what follows it are one token
    assume(i == 0 || &w.out[w.toks[i - 1].s as usize..w.toks[i - 1].e as usize] != b".");
    let mut s = w.out[..w.toks[i].s as usize].to_vec();
    let at = s.len();
    if b == 0 {
        s.push(b'@');
        s.extend_from_slice(&w.out[w.toks[i].s as usize..]);
    }
    let src = unsafe { std::str::from_utf8_unchecked(&s) };
    show!("{}", src);
    match ratel::parse(src) {
        Ok(_) => check(b == 1, 8),
        Err(e) => {
            ranges(&e, src);
            check(e[0].start == at && e[0].end == at + 1 - b as usize, 9);
        }
    }
}
