//! Transforming a program changes nothing but arrow functions.
use crate::dump::*;
use crate::fidelity::*;
use crate::gen::*;
use crate::parsed::*;
use crate::sym::*;
use crate::total::window;
use ratel::Module;

fn transformed<'a>(m: &mut Module<'a>) {
    let before = lowered(m.body());
    let printed = ratel_codegen::codegen(m, true);
    ratel_transformer::transform(unsafe { &mut *(m as *mut Module<'a>) });
    let after = lowered(m.body());
    let out = ratel_codegen::codegen(m, true);
    show!("{:?}\n{:?}\n{}", String::from_utf8_lossy(&before.out), String::from_utf8_lossy(&after.out), out);
    observe(&after.out);
    observe(out.as_bytes());
    same(&before.out, &after.out, 1);
    if before.arrows == 0 {
        same_spans(&before.sp, &after.sp, 2);
        same(printed.as_bytes(), out.as_bytes(), 3);
        reach(1);
    } else {
        // what is generated is that program
        match ratel::parse(&out) {
            Ok(n) => same(&after.out, &lowered(n.body()).out, 4),
            Err(_) => check(false, 5),
        }
        reach(2);
    }
}

pub fn program_of(a: u64, _: u64) {
    let p = program(a, &mut G { printed: true, ..G::new(false) });
    let w = write(&p);
    observe(text(&w).as_bytes());
    match ratel::parse(text(&w)) {
        Ok(mut m) => transformed(&mut m),
        Err(_) => check(false, 6),
    }
}
pub fn window_of(n: u64, c: u64) {
    let src = window(n, c, false);
    show!("{}", src);
    observe(src.as_bytes());
    if let Ok(mut m) = ratel::parse(&src) {
        transformed(&mut m);
    }
}
