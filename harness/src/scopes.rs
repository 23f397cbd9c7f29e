//! Scope analysis, against the scopes of the walk in visit.rs.
use crate::fidelity::*;
use crate::gen::*;
use crate::sym::*;
use crate::total::window;
use crate::visit::{names, Event};
use ratel::Module;
use ratel_transformer::scope::Scope;
use ratel_visitor::ScopeKind;

struct Want<'a> {
    function: bool,
    this: bool,
    used: Vec<&'a [u8]>,
    declared: Vec<&'a [u8]>,
    children: Vec<Want<'a>>,
}

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// Without a branch on the names.
fn within(x: &[u8], l: &[&[u8]]) -> bool {
    let mut r = false;
    for y in l {
        r |= eq(x, y);
    }
    r
}

/// The names are the wanted ones, each listed once.
fn same_names(want: &[&[u8]], got: &[&[u8]], id: u32) {
    let mut ok = true;
    for x in want {
        ok &= within(x, got);
    }
    for (i, x) in got.iter().enumerate() {
        ok &= within(x, want);
        ok &= !within(x, &got[..i]);
    }
    check(ok, id);
}

fn compare<'a>(w: &Want, s: &'a Scope<'a>, other: &'static str) {
    check(w.function == (s.kind == ScopeKind::Function), 2);
    check(w.this == s.used_this.get(), 3);
    let used: Vec<&[u8]> = s.used_refs.iter().map(|(k, _)| k.as_bytes()).collect();
    let declared: Vec<&[u8]> = s.declared_refs.iter().map(|(k, _)| k.as_bytes()).collect();
    same_names(&w.used, &used, 4);
    same_names(&w.declared, &declared, 5);
    check(s.used_refs.is_empty() == w.used.is_empty(), 6);
    check(s.declared_refs.is_empty() == w.declared.is_empty(), 6);
    if other.len() > 0 {
        check(s.used_refs.contains_key(other) == within(other.as_bytes(), &w.used), 7);
        check(s.declared_refs.contains_key(other) == within(other.as_bytes(), &w.declared), 7);
    }
    let mut n = 0;
    for c in s.children.as_list().iter() {
        check(n < w.children.len(), 8);
        if n < w.children.len() {
            check(match c.parent { Some(p) => p as *const Scope == s as *const Scope, None => false }, 9);
            compare(&w.children[n], *c, other);
        }
        n += 1;
    }
    check(n == w.children.len(), 8);
}

fn wanted<'a>(ev: &mut std::slice::Iter<Event<'a>>, function: bool) -> Want<'a> {
    let mut w = Want { function, this: false, used: vec![], declared: vec![], children: vec![] };
    while let Some(e) = ev.next() {
        match *e {
            Event::Enter(f) => w.children.push(wanted(ev, f)),
            Event::Leave => return w,
            Event::Use(s) => w.used.push(s.as_bytes()),
            Event::Declare(s) => w.declared.push(s.as_bytes()),
            Event::This => w.this = true,
        }
    }
    w
}

fn analyzed<'ast>(m: &'ast Module<'ast>, other: &'static str) {
    let ev = names(m);
    let want = wanted(&mut ev.iter(), true);
    let root = ratel_transformer::scope::analyze(m);
    check(root.parent.is_none(), 1);
    compare(&want, root, other);
    reach(1);
}

/// b % 10: 1 to look up one more arbitrary name in every scope
/// b / 10: 1: all names are different, 2: two names, 0: any names
pub fn scopes(a: u64, b: u64) {
    let mut g = G::new(false);
    g.few = (b / 10) as u8;
    let p = program(a, &mut g);
    let w = write(&p);
    let o = if b % 10 == 1 {
        let c = byte();
        assume(c.wrapping_sub(b'A') < 26);
        vec![c]
    } else {
        vec![]
    };
    if let Some(m) = accept(text(&w)) {
        analyzed(&m, unsafe { std::mem::transmute(std::str::from_utf8_unchecked(&o)) });
    }
}
pub fn scopes_window(n: u64, c: u64) {
    let src = window(n, c % 100, c >= 100);
    show!("{}", src);
    observe(src.as_bytes());
    if let Ok(m) = ratel::parse(&src) {
        analyzed(&m, "");
    }
}
