//! Minimal hand-written bindings to libz3's C API.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_del_config(c: Z);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_del_context(c: Z);
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, l: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_reset(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, completion: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, v: Z, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Z, sz: c_uint) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_const(c: Z, s: Z, ty: Z) -> Z;
    fn Z3_mk_numeral(c: Z, n: *const c_char, ty: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, ty: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, i: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, i: c_uint, a: Z) -> Z;
    fn Z3_set_error_handler(c: Z, h: Option<extern "C" fn(Z, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: Z, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(70);
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Z,
    s: Z,
    bv: Vec<Option<Z>>,
    bl: Vec<Option<Z>>,
    rg: FxMap<(usize, [u64; 4]), Z>,
    pub queries: u64,
    pub time: std::time::Duration,
    pub sat: u64,
    pub unsat: u64,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new() -> Z3 {
        let (c, s) = Self::mk();
        Z3 { c, s, bv: vec![], bl: vec![], rg: Default::default(), queries: 0, time: Default::default(), sat: 0, unsat: 0 }
    }
    fn mk() -> (Z, Z) {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let _ = Z3_mk_solver_for_logic;
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 20000);
            Z3_solver_set_params(c, s, p);
            (c, s)
        }
    }
    pub fn reset_all(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
        let (c, s) = Self::mk();
        self.c = c;
        self.s = s;
        self.bv.clear();
        self.bl.clear();
        self.rg.clear();
    }
    pub fn push(&mut self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&mut self) {
        unsafe { Z3_solver_pop(self.c, self.s, 1) }
    }
    pub fn reset(&mut self) {
        unsafe { Z3_solver_reset(self.c, self.s) }
    }
    pub fn check(&mut self) -> Res {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.time += t.elapsed();
        self.queries += 1;
        match r {
            1 => {
                self.sat += 1;
                Res::Sat
            }
            -1 => {
                self.unsat += 1;
                Res::Unsat
            }
            _ => Res::Unknown,
        }
    }
    pub fn assert(&mut self, ex: &Exprs, e: E) {
        let z = self.boolz(ex, e);
        unsafe { Z3_solver_assert(self.c, self.s, z) }
    }
    /// "byte v is a member of the set d", as a z3 Bool over maximal ranges
    fn member(&mut self, ex: &mut Exprs, v: usize, d: &[u64; 4]) -> Z {
        if let Some(z) = self.rg.get(&(v, *d)) {
            return *z;
        }
        let e = ex.var(v);
        let x = self.bvz(ex, e);
        let inn = |k: usize| d[k >> 6] >> (k & 63) & 1 == 1;
        let mut outs: Vec<Z> = vec![];
        let mut k = 0;
        unsafe {
            // conjunction of "not in gap"
            while k < 256 {
                if inn(k) {
                    k += 1;
                    continue;
                }
                let lo = k;
                while k < 256 && !inn(k) {
                    k += 1;
                }
                let hi = k - 1;
                let z = if lo == hi {
                    Z3_mk_not(self.c, Z3_mk_eq(self.c, x, self.num(lo as u128, 8)))
                } else if lo == 0 {
                    Z3_mk_not(self.c, Z3_mk_bvule(self.c, x, self.num(hi as u128, 8)))
                } else if hi == 255 {
                    Z3_mk_bvult(self.c, x, self.num(lo as u128, 8))
                } else {
                    let a = [Z3_mk_not(self.c, Z3_mk_bvult(self.c, x, self.num(lo as u128, 8))), Z3_mk_bvule(self.c, x, self.num(hi as u128, 8))];
                    Z3_mk_not(self.c, Z3_mk_and(self.c, 2, a.as_ptr()))
                };
                outs.push(z);
            }
            let n: u32 = d.iter().map(|q| q.count_ones()).sum();
            let z = if n == 1 {
                let k = (0..256).find(|k| inn(*k)).unwrap();
                Z3_mk_eq(self.c, x, self.num(k as u128, 8))
            } else if outs.is_empty() {
                Z3_mk_true(self.c)
            } else {
                Z3_mk_and(self.c, outs.len() as u32, outs.as_ptr())
            };
            self.rg.insert((v, *d), z);
            z
        }
    }
    pub fn assert_member(&mut self, ex: &mut Exprs, v: usize, d: &[u64; 4]) {
        let z = self.member(ex, v, d);
        unsafe { Z3_solver_assert(self.c, self.s, z) }
    }
    /// assert the negation of the conjunction of es and the memberships
    pub fn assert_not_all(&mut self, ex: &mut Exprs, es: &[E], mem: &[(usize, [u64; 4])]) {
        let mut v: Vec<Z> = es.iter().map(|e| self.boolz(ex, *e)).collect();
        for (i, d) in mem {
            v.push(self.member(ex, *i, d));
        }
        unsafe {
            let a = if v.is_empty() { Z3_mk_true(self.c) } else { Z3_mk_and(self.c, v.len() as u32, v.as_ptr()) };
            Z3_solver_assert(self.c, self.s, Z3_mk_not(self.c, a))
        }
    }
    pub fn model(&mut self, ex: &mut Exprs, nvars: usize, out: &mut [u8; 128]) {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            for i in 0..nvars {
                let v = ex.var(i);
                let z = self.bvz(ex, v);
                let mut r: Z = std::ptr::null_mut();
                if Z3_model_eval(self.c, m, z, true, &mut r) {
                    let mut u = 0u64;
                    Z3_get_numeral_uint64(self.c, r, &mut u);
                    out[i] = u as u8;
                }
            }
            Z3_model_dec_ref(self.c, m);
        }
    }
    fn num(&self, v: u128, w: u32) -> Z {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    /// 1-bit expression as a z3 Bool
    fn boolz(&mut self, ex: &Exprs, e: E) -> Z {
        let i = e as usize;
        if i >= self.bl.len() {
            self.bl.resize(ex.nodes.len().max(i + 1), None);
        }
        if let Some(z) = self.bl[i] {
            return z;
        }
        let n = *ex.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Eq => {
                    if ex.w(n.a) == 1 {
                        let (a, b) = (self.boolz(ex, n.a), self.boolz(ex, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.bvz(ex, n.a), self.bvz(ex, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bvz(ex, n.a), self.bvz(ex, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And => {
                    let v = [self.boolz(ex, n.a), self.boolz(ex, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolz(ex, n.a), self.boolz(ex, n.b)];
                    let w = [Z3_mk_not(c, v[0]), Z3_mk_not(c, v[1])];
                    Z3_mk_not(c, Z3_mk_and(c, 2, w.as_ptr()))
                }
                Op::Xor => {
                    if ex.k(n.b) == Some(1) {
                        Z3_mk_not(c, self.boolz(ex, n.a))
                    } else {
                        let (a, b) = (self.boolz(ex, n.a), self.boolz(ex, n.b));
                        Z3_mk_not(c, Z3_mk_eq(c, a, b))
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.boolz(ex, n.a), self.boolz(ex, n.b), self.boolz(ex, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let b = self.bvz(ex, e);
                    Z3_mk_eq(c, b, self.num(1, 1))
                }
            }
        };
        self.bl[i] = Some(z);
        z
    }
    fn bvz(&mut self, ex: &Exprs, e: E) -> Z {
        let i = e as usize;
        if i >= self.bv.len() {
            self.bv.resize(ex.nodes.len().max(i + 1), None);
        }
        if let Some(z) = self.bv[i] {
            return z;
        }
        let n = *ex.n(e);
        let c = self.c;
        let w = n.w as u32;
        let z = unsafe {
            match n.op {
                Op::Const => self.num(ex.ks[n.a as usize], w),
                Op::Var => {
                    let nm = CString::new(format!("b{}", n.a)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, 8))
                }
                Op::Undef => {
                    let nm = CString::new(format!("undef{}", e)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolz(ex, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Op::Ite => {
                    let b = self.boolz(ex, n.a);
                    let (x, y) = (self.bvz(ex, n.b), self.bvz(ex, n.c));
                    Z3_mk_ite(c, b, x, y)
                }
                Op::Concat => {
                    let (x, y) = (self.bvz(ex, n.a), self.bvz(ex, n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract => {
                    let x = self.bvz(ex, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, x)
                }
                Op::ZExt => {
                    let x = self.bvz(ex, n.a);
                    Z3_mk_zero_ext(c, w - ex.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.bvz(ex, n.a);
                    Z3_mk_sign_ext(c, w - ex.w(n.a), x)
                }
                Op::Lut => {
                    // nested ite over maximal runs of equal values
                    let v = self.bvz(ex, n.b);
                    let t = ex.luts[n.a as usize].clone();
                    let mut runs: Vec<(u64, u64)> = vec![]; // (last index, value)
                    for k in 0..256 {
                        match runs.last_mut() {
                            Some(r) if r.1 == t[k] => r.0 = k as u64,
                            _ => runs.push((k as u64, t[k])),
                        }
                    }
                    fn build(z: &Z3, v: Z, runs: &[(u64, u64)], w: u32) -> Z {
                        if runs.len() == 1 {
                            return z.num(runs[0].1 as u128, w);
                        }
                        let h = runs.len() / 2;
                        let l = build(z, v, &runs[..h], w);
                        let r = build(z, v, &runs[h..], w);
                        unsafe { Z3_mk_ite(z.c, Z3_mk_bvule(z.c, v, z.num(runs[h - 1].0 as u128, 8)), l, r) }
                    }
                    build(self, v, &runs, w)
                }
                _ => {
                    let (x, y) = (self.bvz(ex, n.a), self.bvz(ex, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[i] = Some(z);
        z
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}
