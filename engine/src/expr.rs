//! Hash-consed bit-vector expressions over symbolic input bytes.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;
pub const MAXV: usize = 127;
pub const UNDEF_BIT: u128 = 1 << 127;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Undef,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Lut,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub sup: u128,
}

pub type Table = Rc<[u64; 256]>;

pub struct Exprs {
    pub nodes: Vec<Node>,
    cons: FxMap<(u8, u8, u32, u32, u32), E>,
    pub ks: Vec<u128>,
    kcons: FxMap<(u8, u64, u64), E>,
    pub luts: Vec<Table>,
    lutcons: HashMap<(u8, Vec<u64>), u32>,
    tables: FxMap<E, Table>,
    memo: Vec<u128>,
    stamp: Vec<u32>,
    cur: u32,
}

pub fn m(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

/// Concrete semantics of every operator. `w` is the result width, `wa` the width of operand a.
pub fn apply(op: Op, w: u32, wa: u32, a: u128, b: u128, c: u128, wb: u32) -> u128 {
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m(w)
            } else {
                a / b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sx(a, w) < 0 {
                    1
                } else {
                    m(w)
                }
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sx(a, w);
            if b >= w as u128 {
                (if s < 0 { -1i128 } else { 0 }) as u128
            } else {
                (s >> b) as u128
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Op::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat => (a << wb) | b,
        Op::ZExt => a,
        Op::SExt => sx(a, wa) as u128,
        Op::Extract => a >> b, // b = low bit
        _ => unreachable!(),
    };
    r & m(w)
}

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            nodes: vec![],
            cons: Default::default(),
            ks: vec![],
            kcons: Default::default(),
            luts: vec![],
            lutcons: Default::default(),
            tables: Default::default(),
            memo: vec![],
            stamp: vec![],
            cur: 0,
        }
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn sup(&self, e: E) -> u128 {
        self.nodes[e as usize].sup
    }
    pub fn k(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(self.ks[n.a as usize])
        } else {
            None
        }
    }
    fn push(&mut self, n: Node) -> E {
        let key = (n.op as u8, n.w, n.a, n.b, n.c);
        if let Some(e) = self.cons.get(&key) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.memo.push(0);
        self.stamp.push(0);
        self.cons.insert(key, id);
        id
    }
    pub fn cst(&mut self, w: u32, v: u128) -> E {
        let v = v & m(w);
        let key = (w as u8, v as u64, (v >> 64) as u64);
        if let Some(e) = self.kcons.get(&key) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        self.ks.push(v);
        self.nodes.push(Node { op: Op::Const, w: w as u8, a: self.ks.len() as u32 - 1, b: 0, c: 0, sup: 0 });
        self.memo.push(0);
        self.stamp.push(0);
        self.kcons.insert(key, id);
        id
    }
    pub fn var(&mut self, i: usize) -> E {
        self.push(Node { op: Op::Var, w: 8, a: i as u32, b: 0, c: 0, sup: 1 << i })
    }
    pub fn undef(&mut self, w: u32) -> E {
        self.push(Node { op: Op::Undef, w: w as u8, a: 0, b: 0, c: 0, sup: UNDEF_BIT })
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, nargs: u32) -> E {
        let mut sup = self.sup(a);
        if nargs > 1 {
            sup |= self.sup(b);
        }
        if nargs > 2 {
            sup |= self.sup(c);
        }
        self.push(Node { op, w: w as u8, a, b, c, sup })
    }
    pub fn not1(&mut self, a: E) -> E {
        let one = self.cst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let wa = self.w(a);
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => wa,
        };
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.cst(w, apply(op, w, wa, x, y, 0, wa));
        }
        // commutative: constant to the right
        let (a, b, ka, kb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ka.is_some() || (kb.is_none() && a > b) {
                    (b, a, kb, ka)
                } else {
                    (a, b, ka, kb)
                }
            }
            _ => (a, b, ka, kb),
        };
        let na = *self.n(a);
        match op {
            Op::Add | Op::Or | Op::Xor | Op::Sub | Op::Shl | Op::LShr | Op::AShr if kb == Some(0) => return a,
            Op::Mul | Op::UDiv if kb == Some(1) => return a,
            Op::And | Op::Mul if kb == Some(0) => return b,
            Op::Shl | Op::LShr if kb.map_or(false, |k| k >= w as u128) => return self.cst(w, 0),
            Op::And if kb == Some(m(w)) => return a,
            Op::Or if kb == Some(m(w)) => return b,
            Op::And | Op::Or if a == b => return a,
            Op::Xor | Op::Sub if a == b => return self.cst(w, 0),
            Op::Eq | Op::Ule | Op::Sle if a == b && na.sup & UNDEF_BIT == 0 => return self.cst(1, 1),
            Op::Ult | Op::Slt if a == b && na.sup & UNDEF_BIT == 0 => return self.cst(1, 0),
            Op::Ult if kb == Some(0) => return self.cst(1, 0),
            _ => {}
        }
        match op {
            Op::Xor => {
                if let Some(k) = kb {
                    // (x ^ k1) ^ k
                    if na.op == Op::Xor {
                        if let Some(k1) = self.k(na.b) {
                            let kk = self.cst(w, k ^ k1);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                }
            }
            Op::Add => {
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k1) = self.k(na.b) {
                            let kk = self.cst(w, k.wrapping_add(k1));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if let Some(k) = kb {
                    let kk = self.cst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::And => {
                if let Some(k) = kb {
                    // mask of low bits: zext(extract)
                    let ones = k.trailing_ones();
                    if ones > 0 && ones < w && k == m(ones) && (na.op == Op::Concat || na.op == Op::ZExt) {
                        let x = self.extract(a, 0, ones);
                        return self.zext(x, w);
                    }
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    let k = k as u32;
                    if na.op == Op::Concat || na.op == Op::ZExt || na.op == Op::LShr {
                        if na.op == Op::LShr {
                            if let Some(k1) = self.k(na.b) {
                                let kk = self.cst(w, k1 + k as u128);
                                return self.bin(Op::LShr, na.a, kk);
                            }
                        } else {
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    let k = k as u32;
                    if na.op == Op::Concat || na.op == Op::ZExt {
                        let x = self.extract(a, 0, w - k);
                        let z = self.cst(k, 0);
                        return self.concat(x, z);
                    }
                }
            }
            Op::Or => {
                // disjoint concat-shaped or: zext(x) | concat(y, 0)
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
            }
            Op::Eq => {
                if let Some(k) = kb {
                    match na.op {
                        Op::ZExt => {
                            let w0 = self.w(na.a);
                            if k > m(w0) {
                                return self.cst(1, 0);
                            }
                            let kk = self.cst(w0, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kh = self.cst(wh, k >> wl);
                            let kl = self.cst(wl, k);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            if let (Some(t), Some(f)) = (self.k(na.b), self.k(na.c)) {
                                return match (t == k, f == k) {
                                    (true, true) => self.cst(1, 1),
                                    (false, false) => self.cst(1, 0),
                                    (true, false) => na.a,
                                    (false, true) => self.not1(na.a),
                                };
                            }
                        }
                        Op::Xor => {
                            if wa > 1 {
                                if let Some(k1) = self.k(na.b) {
                                    let kk = self.cst(wa, k ^ k1);
                                    return self.bin(Op::Eq, na.a, kk);
                                }
                                if k == 0 {
                                    return self.bin(Op::Eq, na.a, na.b);
                                }
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = self.cst(wa, 0);
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(k1) = self.k(na.b) {
                                let kk = self.cst(wa, k.wrapping_sub(k1));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        _ => {}
                    }
                    if wa == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                } else {
                    let nb = *self.n(b);
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if na.op == Op::ZExt {
                    let w0 = self.w(na.a);
                    if let Some(k) = kb {
                        if k > m(w0) {
                            return self.cst(1, 1);
                        }
                        let kk = self.cst(w0, k);
                        return self.bin(op, na.a, kk);
                    }
                    let nb = *self.n(b);
                    if nb.op == Op::ZExt && self.w(nb.a) == w0 {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if let Some(k) = ka {
                    let nb = *self.n(b);
                    if nb.op == Op::ZExt {
                        let w0 = self.w(nb.a);
                        if k > m(w0) {
                            return self.cst(1, 0);
                        }
                        let kk = self.cst(w0, k);
                        return self.bin(op, kk, nb.a);
                    }
                }
            }
            _ => {}
        }
        let e = self.mk(op, w, a, b, 0, 2);
        self.canon(e)
    }
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        for (x, y) in [(a, b), (b, a)] {
            let nx = *self.n(x);
            let ny = *self.n(y);
            if nx.op == Op::ZExt && ny.op == Op::Concat && self.k(ny.b) == Some(0) {
                let wl = self.w(ny.b);
                let wx = self.w(nx.a);
                if wx <= wl {
                    let lo = self.zext(nx.a, wl);
                    return Some(self.concat(ny.a, lo));
                }
                let _ = w;
            }
        }
        None
    }
    /// 1-bit unary expressions that are constant over all byte values become constants.
    fn canon(&mut self, e: E) -> E {
        let n = *self.n(e);
        if n.w == 1 && n.sup.count_ones() == 1 && n.sup & UNDEF_BIT == 0 {
            let t = self.table(e);
            let f = t[0];
            if t.iter().all(|x| *x == f) {
                return self.cst(1, f as u128);
            }
        }
        e
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.k(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let e = self.mk(Op::Ite, w, c, a, b, 3);
        self.canon(e)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.cst(w, (x << wb) | y);
        }
        if self.k(a) == Some(0) {
            return self.zext(b, w);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        // adjacent extracts
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + wb {
            return self.extract(na.a, nb.b, w);
        }
        // concat(x, concat(y, z)) with x,y adjacent extracts
        if na.op == Op::Extract && nb.op == Op::Concat {
            let ny = *self.n(nb.a);
            if ny.op == Op::Extract && ny.a == na.a && na.b == ny.b + ny.w as u32 {
                let j = self.extract(na.a, ny.b, ny.w as u32 + wa);
                return self.concat(j, nb.b);
            }
        }
        if na.op == Op::Undef && nb.op == Op::Undef {
            return self.undef(w);
        }
        self.mk(Op::Concat, w, a, b, 0, 2)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(k) = self.k(a) {
            return self.cst(w, k >> lo);
        }
        let na = *self.n(a);
        match na.op {
            Op::Undef => return self.undef(w),
            Op::Concat => {
                let wl = self.w(na.b);
                if lo >= wl {
                    return self.extract(na.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(na.b, lo, w);
                }
                let l = self.extract(na.b, lo, wl - lo);
                let h = self.extract(na.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let w0 = self.w(na.a);
                if lo >= w0 {
                    return self.cst(w, 0);
                }
                if lo + w <= w0 {
                    return self.extract(na.a, lo, w);
                }
                let x = self.extract(na.a, lo, w0 - lo);
                return self.zext(x, w);
            }
            Op::Extract => return self.extract(na.a, na.b + lo, w),
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return self.bin(na.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(na.b, lo, w);
                let y = self.extract(na.c, lo, w);
                return self.ite(na.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(na.a, 0, w);
                let y = self.extract(na.b, 0, w);
                return self.bin(na.op, x, y);
            }
            Op::SExt => {
                let w0 = self.w(na.a);
                if lo + w <= w0 {
                    return self.extract(na.a, lo, w);
                }
            }
            _ => {}
        }
        // lo is stored raw in b
        let e = self.push(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0, sup: na.sup });
        self.canon(e)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.k(a) {
            return self.cst(w, k);
        }
        let na = *self.n(a);
        if na.op == Op::ZExt {
            return self.zext(na.a, w);
        }
        self.mk(Op::ZExt, w, a, 0, 0, 1)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.k(a) {
            return self.cst(w, sx(k, wa) as u128);
        }
        self.mk(Op::SExt, w, a, 0, 0, 1)
    }
    /// Expression equal to `vals[v]` for the single variable v.
    pub fn lut(&mut self, var: usize, vals: Box<[u64; 256]>, w: u32) -> E {
        if vals.iter().all(|x| *x == vals[0]) {
            return self.cst(w, vals[0] as u128);
        }
        let v = self.var(var);
        let key = (w as u8, vals.to_vec());
        let id = match self.lutcons.get(&key) {
            Some(i) => *i,
            None => {
                let id = self.luts.len() as u32;
                self.luts.push(Rc::from(vals));
                self.lutcons.insert(key, id);
                id
            }
        };
        self.push(Node { op: Op::Lut, w: w as u8, a: id, b: v, c: 0, sup: 1 << var })
    }
    pub fn unary(&self, e: E) -> Option<usize> {
        let n = self.n(e);
        if n.sup.count_ones() == 1 && n.sup & UNDEF_BIT == 0 {
            Some(n.sup.trailing_zeros() as usize)
        } else {
            None
        }
    }
    pub fn table(&mut self, e: E) -> Table {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        let n = *self.n(e);
        let w = n.w as u32;
        let mut r = [0u64; 256];
        match n.op {
            Op::Const => r = [self.ks[n.a as usize] as u64; 256],
            Op::Var => {
                for i in 0..256 {
                    r[i] = i as u64
                }
            }
            Op::Lut => r = *self.luts[n.a as usize],
            _ => {
                let wa = self.w(n.a);
                let big = wa > 64 || w > 64 || (n.op == Op::Ite && self.w(n.b) > 64);
                if big {
                    let mut asg = [0u8; 128];
                    let v = n.sup.trailing_zeros() as usize;
                    for i in 0..256 {
                        asg[v] = i as u8;
                        self.new_assign();
                        r[i] = self.eval(e, &asg) as u64;
                    }
                } else {
                    let ta = self.table(n.a);
                    let (tb, wb) = match n.op {
                        Op::Extract => (Rc::new([n.b as u64; 256]), 0),
                        Op::ZExt | Op::SExt => (ta.clone(), 0),
                        _ => (self.table(n.b), self.w(n.b)),
                    };
                    let tc = if n.op == Op::Ite { self.table(n.c) } else { ta.clone() };
                    for i in 0..256 {
                        r[i] = apply(n.op, w, wa, ta[i] as u128, tb[i] as u128, tc[i] as u128, wb) as u64;
                    }
                }
            }
        }
        let t: Table = Rc::new(r);
        self.tables.insert(e, t.clone());
        t
    }
    pub fn new_assign(&mut self) {
        self.cur += 1;
    }
    pub fn eval(&mut self, e: E, asg: &[u8; 128]) -> u128 {
        if self.stamp[e as usize] == self.cur {
            return self.memo[e as usize];
        }
        let n = *self.n(e);
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.ks[n.a as usize],
            Op::Var => asg[n.a as usize] as u128,
            Op::Undef => 0,
            Op::Lut => {
                let v = self.eval(n.b, asg);
                self.luts[n.a as usize][v as usize] as u128
            }
            Op::Ite => {
                let c = self.eval(n.a, asg);
                if c != 0 {
                    self.eval(n.b, asg)
                } else {
                    self.eval(n.c, asg)
                }
            }
            Op::Extract => (self.eval(n.a, asg) >> n.b) & m(w),
            Op::ZExt | Op::SExt => {
                let a = self.eval(n.a, asg);
                apply(n.op, w, self.w(n.a), a, 0, 0, 0)
            }
            _ => {
                let a = self.eval(n.a, asg);
                let b = self.eval(n.b, asg);
                apply(n.op, w, self.w(n.a), a, b, 0, self.w(n.b))
            }
        };
        self.stamp[e as usize] = self.cur;
        self.memo[e as usize] = r;
        r
    }
}
