//! Generated code parses to the tree it was generated from.
use crate::fidelity::*;
use crate::gen::*;
use crate::parsed::parsed;
use crate::sym::*;
use crate::total::window;
use crate::dump::same;

fn go(src: &str, minify: bool, must: bool) {
    show!("{}", src);
    observe(src.as_bytes());
    match ratel::parse(src) {
        Ok(m) => {
            let out = ratel_codegen::codegen(&m, minify);
            show!("{}", out);
            observe(out.as_bytes());
            match ratel::parse(&out) {
                Ok(n) => {
                    let (want, got) = (parsed(m.body()), parsed(n.body()));
                    show!("{:?}\n{:?}", String::from_utf8_lossy(&want.out), String::from_utf8_lossy(&got.out));
                    same(&want.out, &got.out, 2);
                    let again = ratel_codegen::codegen(&n, minify);
                    same(out.as_bytes(), again.as_bytes(), 3);
                    reach(1);
                }
                Err(_) => check(false, 1),
            }
        }
        Err(_) => check(!must, 4),
    }
}
pub fn min(a: u64, _: u64) {
    go(text(&write(&program(a, &mut G { printed: true, ..G::new(false) }))), true, true);
}
pub fn pretty(a: u64, _: u64) {
    go(text(&write(&program(a, &mut G { printed: true, ..G::new(false) }))), false, true);
}
pub fn min_window(n: u64, c: u64) {
    go(&window(n, c, false), true, false);
}
pub fn pretty_window(n: u64, c: u64) {
    go(&window(n, c, false), false, false);
}
/// Whatever the parser accepts of programs that were changed in some place (but for those with do
/// loops, as an empty statement after one can be gone from what is printed).
fn damaged(a: u64, b: u64) -> String {
    let s = crate::reject::damage(a, b);
    assume(!s.as_bytes().windows(3).any(|w| w == b"do "));
    s
}
pub fn min_damaged(a: u64, b: u64) {
    go(&damaged(a, b), true, false);
}
pub fn pretty_damaged(a: u64, b: u64) {
    go(&damaged(a, b), false, false);
}
