//! Programs written from a reference tree parse to that tree.
use crate::dump::*;
use crate::gen::*;
use crate::parsed::parsed;
use crate::src::*;
use crate::sym::*;
use crate::tree::*;
use crate::varied::NVAR;
use crate::wide::*;
use ratel::Module;

/// What a program consists of: a % 10 is the depth, a / 10 % 100 the construct (0: any),
/// a / 1000 the kind.
pub fn program(a: u64, g: &mut G) -> Vec<St> {
    let d = (a % 10) as usize;
    let k = (a / 10 % 100) as usize;
    match a / 1000 {
        // an expression
        0 => {
            let e = if k == 0 { g.expr(d) } else { g.construct(k - 1, d - 1) };
            vec![st(SK::Expr(e))]
        }
        // a statement, followed by another
        1 => {
            let s = if k == 0 { g.stmt(d) } else { g.statement(k - 1, d, true) };
            let e = g.id();
            vec![s, st(SK::Expr(n(K::Id(e))))]
        }
        // an import
        2 => {
            let s = g.import();
            vec![s]
        }
        // every operator
        3 => {
            g.ops = true;
            program(a % 1000, g)
        }
        // operators, one path deep
        4 => {
            g.spine = true;
            program(a % 1000, g)
        }
        // nested scopes
        6 => g.nested(&mut (a as usize % 10)),
        // long lists and chains
        7 => {
            let k = if k == 0 { choice(NWIDE) } else { k - 1 };
            g.wide(k, d)
        }
        // one construct, all parts of which vary
        8 => {
            let k = if k == 0 { choice(NVAR) } else { k - 1 };
            g.varied(k, d)
        }
        // a statement that leaves its body to the next one, and that in a block
        _ => {
            let s = if k == 0 { g.stmt(d) } else { g.statement(k - 1, d, true) };
            vec![st(SK::Block(vec![s]))]
        }
    }
}

pub fn text(w: &W) -> &str {
    unsafe { std::str::from_utf8_unchecked(&w.out) }
}
pub fn write(p: &[St]) -> W {
    let mut w = W::new();
    w.stmts(p);
    w
}
/// The program is accepted.
pub fn accept(src: &str) -> Option<Module> {
    show!("{}", src);
    observe(src.as_bytes());
    match ratel::parse(src) {
        Ok(m) => Some(m),
        Err(_) => {
            check(false, 1);
            None
        }
    }
}

/// The parsed tree is the one that was written.
pub fn tree(a: u64, _: u64) {
    let mut g = G::new(false);
    let p = program(a, &mut g);
    let w = write(&p);
    if let Some(m) = accept(text(&w)) {
        let (want, got) = (reference(&p, &w.toks), parsed(m.body()));
        show!("{:?}\n{:?}", String::from_utf8_lossy(&want.out), String::from_utf8_lossy(&got.out));
        same(&want.out, &got.out, 2);
        reach(1);
    }
}

/// Positions are those of the text the nodes were written as, whatever is between the tokens.
/// b: what goes before one of the tokens (see fill)
pub fn spans(a: u64, b: u64) {
    let mut g = G::new(false);
    let p = program(a, &mut g);
    let w = filled(&p, b);
    if let Some(m) = accept(text(&w)) {
        let (want, got) = (reference(&p, &w.toks), parsed(m.body()));
        show!("{:?}\n{:?}\n{:?}", String::from_utf8_lossy(&want.out), want.sp, got.sp);
        same_spans(&want.sp, &got.sp, 3);
        reach(1);
    }
}

/// A program with something between its tokens parses to the same tree.
pub fn layout(a: u64, b: u64) {
    let mut g = G::new(false);
    let p = program(a, &mut g);
    let w = filled(&p, b);
    if let Some(m) = accept(text(&w)) {
        let (want, got) = (reference(&p, &w.toks), parsed(m.body()));
        show!("{:?}\n{:?}", String::from_utf8_lossy(&want.out), String::from_utf8_lossy(&got.out));
        same(&want.out, &got.out, 2);
        reach(1);
    }
}

/// Whitespace and comments: what is put between two tokens, and whether it has a line break.
fn piece(f: &mut Vec<u8>, all: bool) -> bool {
    let k = choice(if all { 9 } else { 5 });
    match k {
        0 => f.push(blank()),
        1 => {
            let c = byte();
            assume((c == b'\n') | (c == b'\r'));
            f.push(c);
        }
        2 => {
            f.extend_from_slice(b"/*");
            f.push(inside());
            f.extend_from_slice(b"*/");
        }
        3 => {
            f.extend_from_slice(b"//");
            f.push(inside());
            f.push(b'\n');
            return true;
        }
        4 => {
            let c = byte();
            assume((c == b'\n') | (c == b'\r'));
            f.extend_from_slice(&[b'/', b'*', c, b'*', b'/']);
            return true;
        }
        5 => f.push(b'\t'),
        6 => {
            f.extend_from_slice(b"\r\n");
            return true;
        }
        7 => f.extend_from_slice(b"/**/"),
        _ => {
            f.extend_from_slice(b"/***");
            f.push(inside());
            f.extend_from_slice(b"**/");
        }
    }
    k == 1
}
/// Space, tab, vertical tab or form feed.
pub fn blank() -> u8 {
    let c = byte();
    assume((c == b' ') | (c == 9) | (c == 11) | (c == 12));
    c
}
/// A character in a comment that neither ends a line nor the comment.
fn inside() -> u8 {
    let c = byte();
    assume(c.wrapping_sub(0x30) < 0x4f);
    c
}

/// b % 10: the number of pieces of white space and comments before one token (of which the last
/// and the first come first), 0: every two tokens are separated by a space
/// b / 10: 1 to leave out the position after the last token
pub fn filled(p: &[St], b: u64) -> W {
    let k = b % 10;
    let mut w = W::new();
    if k == 0 {
        w.spaced = true;
        w.stmts(p);
        return w;
    }
    w.stmts(p);
    let slot = choice(w.toks.len() + 1);
    let mut fill = vec![];
    let mut nl = false;
    for _ in 0..k {
        nl |= piece(&mut fill, b >= 10);
    }
    if slot < w.toks.len() {
        assume(!(nl && w.toks[slot].nonl));
        // a property is only separated from the dot by white space
        if slot > 0 {
            let t = &w.toks[slot - 1];
            assume(!(w.out[t.s as usize] == b'.' && t.e == t.s + 1 && fill.iter().any(|c| *c == b'/')));
            // a division and a comment right after it are a comment to the end of the line
            assume(!(w.out[t.e as usize - 1] == b'/' && t.e == t.s + 1 && fill.first() == Some(&b'/')));
        }
    }
    let tail = slot == w.toks.len();
    let mut v = W::new();
    v.slot = slot;
    v.fill = fill;
    v.stmts(p);
    if tail {
        let f = std::mem::take(&mut v.fill);
        v.out.extend_from_slice(&f);
    }
    v
}
