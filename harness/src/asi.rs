//! Automatic semicolon insertion.
use crate::dump::{reference, same};
use crate::fidelity::{accept, text};
use crate::gen::*;
use crate::parsed::parsed;
use crate::src::*;
use crate::sym::*;
use crate::tree::*;

/// A gap between two tokens that has a line break in it.
fn newline() -> Vec<u8> {
    match choice(8) {
        0 => vec![ends()],
        1 => b"\r\n".to_vec(),
        2 => vec![b'/', b'/', letter(), ends()],
        3 => vec![b'/', b'*', letter(), ends(), letter(), b'*', b'/'],
        4 => vec![crate::fidelity::blank(), b'\n', crate::fidelity::blank()],
        5 => b"\n/**/".to_vec(),
        6 => b"/**/\n".to_vec(),
        _ => b"/*\n*//**/ ".to_vec(),
    }
}
/// What ends a line.
fn ends() -> u8 {
    let c = byte();
    assume((c == b'\n') | (c == b'\r'));
    c
}
/// One that has none.
fn space() -> Vec<u8> {
    match choice(4) {
        0 => vec![crate::fidelity::blank()],
        1 => b"\t\t".to_vec(),
        2 => vec![b'/', b'*', letter(), b'*', b'/'],
        _ => b" /**/ ".to_vec(),
    }
}
fn letter() -> u8 {
    let c = byte();
    assume(c.wrapping_sub(b'A') < 26);
    c
}

/// A statement that ends with a semicolon.
fn terminated(g: &mut G, d: usize) -> St {
    let k = [1, 2, 3, 4, 5, 6, 7, 11, 21][choice(9)];
    if k == 21 {
        g.import()
    } else {
        g.statement(k, d, true)
    }
}
/// The statement that follows (9: just one for every kind of token).
fn next(g: &mut G, d: u64) -> St {
    if d < 9 {
        return g.stmt(d as usize);
    }
    let e = match choice(6) {
        0 => return g.statement(16, 0, true),
        1 => return g.statement(10, 0, true),
        2 => g.construct(0, 0),
        3 => g.construct(16, 0),
        4 => g.construct(4, 0),
        _ => g.construct(15, 0),
    };
    st(SK::Expr(e))
}
/// Whether the statement ends with an expression, which the next token might continue.
fn open(s: &St) -> bool {
    match &s.k {
        SK::Expr(e) | SK::Throw(e) | SK::Ret(Some(e)) => !closed(match &e.k {
            // not in parentheses here
            K::Seq(v) => &v[v.len() - 1],
            _ => e,
        }),
        SK::Decl(_, v) => v[v.len() - 1].init.as_ref().map_or(false, |e| !closed(e)),
        _ => false,
    }
}
/// Whether an expression ends with the block of an arrow function, which makes it no operand.
fn closed(e: &N) -> bool {
    match &e.k {
        K::Arrow(_, _, Body::Block(..)) => true,
        K::Arrow(_, _, Body::Expr(x)) => closed(x),
        K::Bin(o, _, x) => *o >= NBIN && closed(x),
        K::Cond(_, _, x) => closed(x),
        _ => false,
    }
}
/// Whether a statement starts with a token that can continue an expression.
fn continues(s: &St) -> bool {
    let mut w = W::new();
    w.stmt(s);
    let t = &w.out[w.toks[0].s as usize..w.toks[0].e as usize];
    match t[0] {
        b'(' | b'[' | b'`' | b'/' | b'*' => true,
        b'+' | b'-' => t.len() == 1,
        _ => false,
    }
}
fn expect(p: &[St], w: &W) {
    if let Some(m) = accept(text(w)) {
        let (want, got) = (reference(p, &w.toks), parsed(m.body()));
        show!("{:?}\n{:?}", String::from_utf8_lossy(&want.out), String::from_utf8_lossy(&got.out));
        same(&want.out, &got.out, 2);
        reach(1);
    }
}
pub fn reject(src: &str) {
    show!("{}", src);
    observe(src.as_bytes());
    check(ratel::parse(src).is_err(), 5);
    reach(2);
}

/// A line break in place of the semicolon, before a token that cannot continue the statement.
pub fn newlines(d: u64, d2: u64) {
    let mut g = G::new(false);
    let a = terminated(&mut g, d as usize);
    let b = next(&mut g, d2);
    assume(!(open(&a) && continues(&b)) && !matches!(b.k, SK::Empty));
    let mut w = W::new();
    w.semi = newline();
    w.semi_at = 0;
    w.stmt(&a);
    w.semi = b";".to_vec();
    w.stmt(&b);
    expect(&[a, b], &w);
}

/// No semicolon before a closing brace, the end, or (after a line break) a keyword that can only
/// follow a complete statement.
pub fn closers(d: u64, _: u64) {
    let mut g = G::new(false);
    let a = terminated(&mut g, d as usize);
    let c = choice(7);
    let e = g.id();
    let e = n(K::Id(e));
    let any = c < 4;
    let gap = match choice(if any { 3 } else { 1 }) {
        0 => newline(),
        1 => space(),
        _ => vec![],
    };
    // the same goes for the body of a do-while statement
    assume(!matches!(a.k, SK::Do(..)) || gap.contains(&b'\n'));
    let lexical = matches!(&a.k, SK::Decl(k, _) if *k != b'v') || matches!(a.k, SK::Import(..));
    let (p, at) = match c {
        0 => (a, 0),
        1 => (st(SK::Block(vec![a])), 1),
        2 => (st(SK::Fun(fun(Some(name(b"F".to_vec())), false, vec![], vec![a]))), 1),
        3 => (st(SK::Switch(e, vec![Case { test: None, body: vec![a], t: Sp::default() }], Sp::default())), 1),
        4 => {
            assume(!lexical);
            (st(SK::If(e, Box::new(a), Some(Box::new(st(SK::Empty))))), 0)
        }
        5 => {
            assume(!lexical);
            (st(SK::Do(Box::new(a), e)), 0)
        }
        _ => {
            let x = Case { test: Some(e), body: vec![a], t: Sp::default() };
            let y = Case { test: None, body: vec![], t: Sp::default() };
            (st(SK::Switch(n(K::This), vec![x, y], Sp::default())), 1)
        }
    };
    let mut w = W::new();
    w.semi = gap;
    w.semi_at = at;
    w.stmt(&p);
    expect(&[p], &w);
}

/// No semicolon and no line break before a token that cannot continue the statement.
pub fn missing(d: u64, d2: u64) {
    let mut g = G::new(false);
    let a = terminated(&mut g, d as usize);
    let b = next(&mut g, d2);
    assume(!(open(&a) && continues(&b)) && !matches!(b.k, SK::Empty));
    assume(!matches!(a.k, SK::Do(..) | SK::Ret(None) | SK::Break(None) | SK::Cont(None)));
    let mut w = W::new();
    w.semi = space();
    w.semi_at = 0;
    w.stmt(&a);
    w.semi = b";".to_vec();
    w.stmt(&b);
    reject(text(&w));
}

/// A statement for every token one can start with.
fn starter(g: &mut G) -> St {
    let e = |g: &mut G, k: usize| st(SK::Expr(g.construct(k, 0)));
    match choice(12) {
        0 => e(g, [0, 1, 2, 3, 4, 5, 6, 8, 19, 25][choice(10)]),
        1 => e(g, 15),
        2 => e(g, 16),
        // these are put in parentheses
        3 => st(SK::Expr(n(K::Obj(vec![])))),
        4 => st(SK::Expr(n(K::Arrow(vec![], false, Body::Block(vec![], Sp::default()))))),
        5 => st(SK::Fun(fun(Some(g.name()), false, vec![], vec![]))),
        6 => g.statement([1, 7, 8, 10, 11, 16, 17][choice(7)], 0, true),
        7 => {
            let (p, e) = (g.pid(), g.id());
            st(SK::Decl([b'v', b'l', b'c'][choice(3)], vec![g.decl(p, Some(n(K::Id(e))))]))
        }
        8 => st(SK::Class(Cls { name: Some(g.name()), ext: None, members: vec![], bt: Sp::default() })),
        9 => {
            let e = n(K::Id(g.id()));
            st(match choice(3) {
                0 => SK::For(None, None, None, Box::new(st(SK::Empty))),
                1 => SK::Switch(e, vec![], Sp::default()),
                _ => SK::Try(block(vec![]), None, Some(block(vec![]))),
            })
        }
        10 => st(match choice(3) {
            0 => SK::Ret(None),
            1 => SK::Break(None),
            _ => SK::Cont(None),
        }),
        _ => g.import(),
    }
}
/// A statement that ends with an expression of any kind, then a line break or a space, then a
/// statement that starts with any token.
pub fn any_end(d: u64, _: u64) {
    let mut g = G::new(false);
    let k = choice(26);
    let e = g.construct(k, d as usize);
    let arrow = matches!(e.k, K::Arrow(..));
    let a = st(match choice(if arrow { 7 } else { 2 }) {
        0 => SK::Expr(e),
        1 => {
            let p = g.pid();
            SK::Decl(b'v', vec![g.decl(p, Some(e))])
        }
        2 => SK::Ret(Some(e)),
        3 => SK::Throw(e),
        4 => SK::Expr(n(K::Bin(NBIN, Box::new(g.leaf()), Box::new(e)))),
        5 => SK::Expr(n(K::Cond(Box::new(g.leaf()), Box::new(g.leaf()), Box::new(e)))),
        _ => SK::Expr(n(K::Seq(vec![g.leaf(), e]))),
    });
    let b = starter(&mut g);
    assume(!(open(&a) && continues(&b)));
    let mut w = W::new();
    let nl = choice(2) == 1;
    w.semi = if nl { b"\n".to_vec() } else { b" ".to_vec() };
    w.semi_at = 0;
    w.stmt(&a);
    w.semi = b";".to_vec();
    w.stmt(&b);
    if nl {
        expect(&[a, b], &w);
    } else {
        reject(text(&w));
    }
}

/// Line breaks where the grammar has a semicolon, or an error, however the program would go on.
pub fn restricted(d: u64, _: u64) {
    let d = d as usize;
    let mut g = G::new(false);
    let mut w = W::new();
    match choice(10) {
        9 => {
            // the semicolon of a do-while statement is optional
            let e = g.expr(d);
            let a = st(SK::Do(Box::new(st(SK::Block(vec![]))), e));
            let b = next(&mut g, if d == 0 { 0 } else { 9 });
            assume(!matches!(b.k, SK::Empty));
            w.semi = space();
            w.stmt(&a);
            w.semi = b";".to_vec();
            w.stmt(&b);
            expect(&[a, b], &w);
        }
        0 => {
            let e = g.expr(d);
            w.w("return");
            w.out.extend(newline());
            let s = st(SK::Expr(e));
            w.stmt(&s);
            let r = st(SK::Ret(None));
            r.t.j.set(1);
            expect(&[r, s], &w);
        }
        k @ 1 | k @ 2 => {
            w.w(if k == 1 { "break" } else { "continue" });
            w.out.extend(newline());
            let e = g.id();
            let s = st(SK::Expr(n(K::Id(e))));
            w.stmt(&s);
            let r = st(if k == 1 { SK::Break(None) } else { SK::Cont(None) });
            r.t.j.set(1);
            expect(&[r, s], &w);
        }
        3 => {
            let e = g.expr(d);
            w.w("throw");
            w.out.extend(newline());
            w.stmt(&st(SK::Expr(e)));
            reject(text(&w));
        }
        4 => {
            // no arrow at the start of a line
            let k = choice(3);
            if k == 2 {
                w.p("(");
                w.p(")");
            } else if k == 0 {
                let i = g.id();
                w.tok(Tk::Word, &i);
            } else {
                let (i, j) = (g.id(), g.id());
                w.p("(");
                w.tok(Tk::Word, &i);
                w.p(",");
                w.tok(Tk::Word, &j);
                w.p(")");
            }
            w.out.extend(newline());
            w.p("=>");
            let e = g.id();
            w.stmt(&st(SK::Expr(n(K::Id(e)))));
            reject(text(&w));
        }
        5 => {
            // the two semicolons of a for statement are never inserted
            let k = choice(2);
            w.w("for");
            w.p("(");
            let e = g.expr(d);
            w.expr(&e, 0);
            if k == 0 {
                w.out.extend(newline());
            } else {
                w.p(";");
            }
            let e = g.id();
            w.tok(Tk::Word, &e);
            if k == 1 {
                w.out.extend(newline());
            } else {
                w.p(";");
            }
            let e = g.id();
            w.tok(Tk::Word, &e);
            w.p(")");
            w.stmt(&st(SK::Empty));
            reject(text(&w));
        }
        k @ 6 | k @ 7 => {
            // nor is an empty statement
            let e = g.expr(d);
            if k == 6 {
                w.w("if");
            } else {
                w.p("{");
                w.w("while");
            }
            w.p("(");
            w.expr(&e, 0);
            w.p(")");
            w.out.extend(newline());
            if k == 6 {
                w.w("else");
                w.stmt(&st(SK::Empty));
            } else {
                w.p("}");
            }
            reject(text(&w));
        }
        _ => {
            // whatever continues an expression continues it on the next line
            let a = g.expr(d);
            let b = g.expr(0);
            let (mut v, nl) = (W::new(), newline());
            let c = choice(6);
            assume(c < 5 || matches!(a.k, K::Id(_) | K::Mem(..) | K::CMem(..)));
            for i in 0..2 {
                let mut x = W::new();
                x.p("(");
                x.expr(&a, 17);
                x.p(")");
                let gap = if i == 0 { b" ".to_vec() } else { nl.clone() };
                x.out.extend(gap);
                match c {
                    0 => {
                        x.p("(");
                        x.expr(&b, 0);
                        x.p(")");
                    }
                    1 => {
                        x.p("[");
                        x.expr(&b, 0);
                        x.p("]");
                    }
                    2 => {
                        x.p("-");
                        x.expr(&b, 14);
                    }
                    3 => {
                        x.p("/");
                        x.expr(&b, 14);
                    }
                    4 => x.tok(Tk::Str, b"`1`"),
                    _ => {
                        x.p("=");
                        x.expr(&b, 14);
                    }
                }
                x.p(";");
                if i == 0 {
                    v = x;
                } else {
                    w = x;
                }
            }
            // compared with the same on one line
            let one = accept(text(&v)).map(|m| parsed(m.body()).out);
            let two = accept(text(&w)).map(|m| parsed(m.body()).out);
            if let (Some(one), Some(two)) = (one, two) {
                same(&one, &two, 6);
                reach(3);
            }
        }
    }
}
