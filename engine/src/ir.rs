//! Parser for (the subset of) textual LLVM IR that rustc emits, lowered into a compact
//! register-machine form that the symbolic executor interprets.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(b) => match b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, fs) => fs.iter().map(|f| f.align()).max().unwrap_or(1),
            _ => 1,
        }
    }
    /// Number of bytes written by a store of this type.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(b) => ((*b as u64) + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.alloc_size(),
            Ty::Vector(n, t) => match **t {
                Ty::Int(b) => (n * b as u64 + 7) / 8,
                _ => n * t.store_size(),
            },
            Ty::Struct(packed, fs) => {
                let mut o = 0u64;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.alloc_size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        let a = self.align();
        (self.store_size() + a - 1) / a * a
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(packed, fs) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.alloc_size();
                }
                o
            }
            Ty::Array(_, t) => t.alloc_size() * i as u64,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    W(u128),
    Undef(u32),
    Agg(Box<Vec<Opnd>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32, // ip of the first instruction of the block
    pub copies: Box<[(u32, Opnd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    /// inline assembly that only holds a comment
    AsmComment,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: u32,
    pub callee: Callee,
    pub args: Box<[Opnd]>,
    pub rbits: u32,
    pub normal: Option<Box<Edge>>, // invoke
}

pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, dst: u32, a: Opnd, b: Opnd },
    ICmp { p: Pred, w: u32, dst: u32, a: Opnd, b: Opnd },
    Cast { c: Cast, from: u32, to: u32, dst: u32, a: Opnd },
    Gep { dst: u32, base: Opnd, off: u64, terms: Box<[(Opnd, u64, u32)]> },
    Load { dst: u32, bits: u32, addr: Opnd },
    LoadT { dst: u32, ty: Box<Ty>, addr: Opnd },
    Store { bits: u32, val: Opnd, addr: Opnd },
    StoreT { ty: Box<Ty>, val: Opnd, addr: Opnd },
    Select { dst: u32, w: u32, c: Opnd, a: Opnd, b: Opnd },
    Call(Box<CallI>),
    Alloca { dst: u32, size: u64, n: Opnd },
    Extract { dst: u32, a: Opnd, path: Box<[u32]> },
    Insert { dst: u32, a: Opnd, v: Opnd, path: Box<[u32]>, ty: Box<Ty> },
    VBin { op: Bin, n: u64, w: u32, dst: u32, a: Opnd, b: Opnd },
    VICmp { p: Pred, n: u64, w: u32, dst: u32, a: Opnd, b: Opnd },
    VCast { c: Cast, n: u64, from: u32, to: u32, dst: u32, a: Opnd },
    VSelect { dst: u32, n: u64, w: u32, c: Opnd, a: Opnd, b: Opnd },
    BitV2I { dst: u32, n: u64, w: u32, a: Opnd },
    BitI2V { dst: u32, n: u64, w: u32, a: Opnd },
    BitV2V { dst: u32, n1: u64, w1: u32, n2: u64, w2: u32, a: Opnd },
    InsEl { dst: u32, n: u64, w: u32, a: Opnd, v: Opnd, i: Opnd },
    ExtEl { dst: u32, n: u64, a: Opnd, i: Opnd },
    Shuffle { dst: u32, n: u64, w: u32, a: Opnd, b: Opnd, mask: Box<[i64]> },
    FCmp { p: u8, w: u32, dst: u32, a: Opnd, b: Opnd },
    FNeg { w: u32, dst: u32, a: Opnd },
    Rmw { op: u8, bits: u32, dst: u32, addr: Opnd, v: Opnd },
    CmpXchg { bits: u32, dst: u32, addr: Opnd, cmp: Opnd, new: Opnd },
    Freeze { dst: u32, a: Opnd },
    Nop,
    Br(Box<Edge>),
    CondBr { c: Opnd, t: Box<Edge>, f: Box<Edge> },
    Switch { w: u32, v: Opnd, cases: Box<[(u128, Edge)]>, default: Box<Edge> },
    Ret(Option<Opnd>),
    Unreachable,
    Resume,
    Unsupported(Box<String>),
}

pub struct Func {
    pub name: String,
    pub code: Vec<Inst>,
    pub nregs: u32,
    pub nparams: u32,
    pub defined: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub bytes: Vec<u8>,
    pub st: Vec<u8>, // 1 = undef
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
}

pub const FN_BASE: u64 = 1 << 32;
pub fn fn_addr(i: u32) -> u64 {
    FN_BASE + 16 * (i as u64 + 1)
}
pub fn addr_fn(a: u64) -> Option<u32> {
    if a >> 32 == 1 && a % 16 == 0 && (a & 0xffff_ffff) >= 16 {
        Some(((a & 0xffff_ffff) / 16 - 1) as u32)
    } else {
        None
    }
}

#[derive(Clone, Debug)]
enum Const {
    Int(u128),
    F64(u64),
    Null,
    Undef,
    Zero,
    Str(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Sym(String, i64), // global + offset (as pointer or ptrtoint)
    Splat(Box<(Ty, Const)>),
    Bad(String),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.i + 60).min(self.s.len());
        Err(format!("{} at {:?}", m, String::from_utf8_lossy(&self.s[self.i.min(e)..e])))
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected {}", c as char))
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && isid(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let s = self.i;
        if self.word() == w {
            true
        } else {
            self.i = s;
            false
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    out.push(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2]));
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    /// Name after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && isid(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn balanced(&mut self) {
        // at '(' or '[' etc
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => {
                    self.quoted();
                    continue;
                }
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' {
            return true;
        }
        if c == b'%' {
            return true;
        }
        let w = self.peek_word();
        matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token")
            || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|b| b.is_ascii_digit()))
    }
    fn uint(&mut self) -> R<u64> {
        let w = self.word();
        w.parse().or_else(|_| self.err("uint"))
    }
}

struct Ctx {
    types: HashMap<String, Ty>,
    syms: HashMap<String, u64>, // global + function addresses
    fidx: HashMap<String, u32>,
}

impl Ctx {
    fn ty(&self, p: &mut P) -> R<Ty> {
        let c = p.peek();
        match c {
            b'{' => {
                p.i += 1;
                let mut fs = vec![];
                if !p.eat(b'}') {
                    loop {
                        fs.push(self.ty(p)?);
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    p.expect(b'}')?;
                }
                Ok(Ty::Struct(false, fs))
            }
            b'<' => {
                p.i += 1;
                if p.eat(b'{') {
                    let mut fs = vec![];
                    if !p.eat(b'}') {
                        loop {
                            fs.push(self.ty(p)?);
                            if !p.eat(b',') {
                                break;
                            }
                        }
                        p.expect(b'}')?;
                    }
                    p.expect(b'>')?;
                    Ok(Ty::Struct(true, fs))
                } else {
                    let n = p.uint()?;
                    if !p.eat_word("x") {
                        return p.err("vector x");
                    }
                    let t = self.ty(p)?;
                    p.expect(b'>')?;
                    Ok(Ty::Vector(n, Box::new(t)))
                }
            }
            b'[' => {
                p.i += 1;
                let n = p.uint()?;
                if !p.eat_word("x") {
                    return p.err("array x");
                }
                let t = self.ty(p)?;
                p.expect(b']')?;
                Ok(Ty::Array(n, Box::new(t)))
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                self.types.get(&n).cloned().ok_or_else(|| format!("unknown type {}", n))
            }
            _ => {
                let w = p.word();
                Ok(match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.len() > 1 && w.as_bytes()[0] == b'i' => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => return p.err(&format!("type? {}", w)),
                    },
                    _ => return p.err(&format!("type? {}", w)),
                })
            }
        }
    }

    fn konst(&self, p: &mut P, ty: &Ty) -> R<Const> {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                Ok(Const::Sym(p.name(), 0))
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 1;
                Ok(Const::Str(p.quoted()))
            }
            b'{' | b'[' => {
                p.i += 1;
                let close = if c == b'{' { b'}' } else { b']' };
                self.agg(p, close)
            }
            b'<' => {
                p.i += 1;
                if p.eat(b'{') {
                    let r = self.agg(p, b'}')?;
                    p.expect(b'>')?;
                    Ok(r)
                } else {
                    self.agg(p, b'>')
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "null" => Ok(Const::Null),
                    "none" => Ok(Const::Null),
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "undef" | "poison" => Ok(Const::Undef),
                    "zeroinitializer" => Ok(Const::Zero),
                    "splat" => {
                        p.expect(b'(')?;
                        let t = self.ty(p)?;
                        let k = self.konst(p, &t)?;
                        p.expect(b')')?;
                        Ok(Const::Splat(Box::new((t, k))))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                        p.expect(b'(')?;
                        let t = self.ty(p)?;
                        let k = self.konst(p, &t)?;
                        if !p.eat_word("to") {
                            return p.err("to");
                        }
                        let _ = self.ty(p)?;
                        p.expect(b')')?;
                        Ok(k)
                    }
                    "getelementptr" => {
                        while !matches!(p.peek(), b'(') {
                            p.word();
                            if p.peek() == b'(' && p.s[..p.i].ends_with(b"inrange") {
                                p.balanced();
                            }
                        }
                        p.expect(b'(')?;
                        let t = self.ty(p)?;
                        p.expect(b',')?;
                        let bt = self.ty(p)?;
                        let base = self.konst(p, &bt)?;
                        let mut off = 0i64;
                        let mut cur = t;
                        let mut first = true;
                        while p.eat(b',') {
                            let it = self.ty(p)?;
                            let k = self.konst(p, &it)?;
                            let v = match k {
                                Const::Int(v) => sx(v, it.bits()),
                                Const::Zero => 0,
                                _ => return p.err("gep const idx"),
                            };
                            if first {
                                off += v as i64 * cur.alloc_size() as i64;
                                first = false;
                            } else {
                                off += cur.field_offset(v as usize) as i64;
                                cur = elem(&cur, v as usize);
                            }
                        }
                        p.expect(b')')?;
                        match base {
                            Const::Sym(n, o) => Ok(Const::Sym(n, o + off)),
                            Const::Null => Ok(Const::Int(off as u64 as u128)),
                            Const::Int(v) => Ok(Const::Int((v as i64 + off) as u64 as u128)),
                            _ => p.err("gep base"),
                        }
                    }
                    "add" | "sub" => {
                        while p.peek() != b'(' {
                            p.word();
                        }
                        p.expect(b'(')?;
                        let t = self.ty(p)?;
                        let a = self.konst(p, &t)?;
                        p.expect(b',')?;
                        let t2 = self.ty(p)?;
                        let b = self.konst(p, &t2)?;
                        p.expect(b')')?;
                        let a = self.kval(&t, &a);
                        let b = self.kval(&t2, &b);
                        match (a, b) {
                            (Opnd::C(a), Opnd::C(b)) => Ok(Const::Int(
                                (if w == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) }) as u128 & mask128(t.bits()),
                            )),
                            _ => p.err("const add"),
                        }
                    }
                    _ => {
                        let f = matches!(ty, Ty::Float | Ty::Double);
                        if f {
                            if let Some(h) = w.strip_prefix("0x") {
                                let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                if *ty == Ty::Float {
                                    return Ok(Const::F64((f64::from_bits(v) as f32).to_bits() as u64));
                                }
                                return Ok(Const::F64(v));
                            }
                            // decimal: consumed by word() except '+'
                            let mut s = w.to_string();
                            if p.s.get(p.i) == Some(&b'+') {
                                p.i += 1;
                                s.push('+');
                                s.push_str(p.word());
                            }
                            let v: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                            return Ok(Const::F64(if *ty == Ty::Float { (v as f32).to_bits() as u64 } else { v.to_bits() }));
                        }
                        if let Ok(v) = w.parse::<i128>() {
                            return Ok(Const::Int(v as u128 & mask128(ty.bits())));
                        }
                        if let Ok(v) = w.parse::<u128>() {
                            return Ok(Const::Int(v & mask128(ty.bits())));
                        }
                        Ok(Const::Bad(format!("const {}", w)))
                    }
                }
            }
        }
    }

    fn agg(&self, p: &mut P, close: u8) -> R<Const> {
        let mut v = vec![];
        if p.eat(close) {
            return Ok(Const::Agg(v));
        }
        loop {
            let t = self.ty(p)?;
            let k = self.konst(p, &t)?;
            v.push((t, k));
            if !p.eat(b',') {
                break;
            }
        }
        p.expect(close)?;
        Ok(Const::Agg(v))
    }

    fn kval(&self, ty: &Ty, k: &Const) -> Opnd {
        match k {
            Const::Int(v) => {
                if ty.bits() > 64 {
                    Opnd::W(*v)
                } else {
                    Opnd::C(*v as u64)
                }
            }
            Const::F64(v) => Opnd::C(*v),
            Const::Null => Opnd::C(0),
            Const::Undef => match ty {
                Ty::Vector(n, t) | Ty::Array(n, t) => Opnd::Agg(Box::new((0..*n).map(|_| self.kval(t, k)).collect())),
                Ty::Struct(_, fs) => Opnd::Agg(Box::new(fs.iter().map(|t| self.kval(t, k)).collect())),
                _ => Opnd::Undef(ty.bits()),
            },
            Const::Zero => match ty {
                Ty::Vector(n, t) | Ty::Array(n, t) => Opnd::Agg(Box::new((0..*n).map(|_| self.kval(t, k)).collect())),
                Ty::Struct(_, fs) => Opnd::Agg(Box::new(fs.iter().map(|t| self.kval(t, k)).collect())),
                _ => {
                    if ty.bits() > 64 {
                        Opnd::W(0)
                    } else {
                        Opnd::C(0)
                    }
                }
            },
            Const::Str(b) => Opnd::Agg(Box::new(b.iter().map(|x| Opnd::C(*x as u64)).collect())),
            Const::Agg(v) => Opnd::Agg(Box::new(v.iter().map(|(t, k)| self.kval(t, k)).collect())),
            Const::Splat(b) => match ty {
                Ty::Vector(n, _) => Opnd::Agg(Box::new((0..*n).map(|_| self.kval(&b.0, &b.1)).collect())),
                _ => Opnd::Undef(0),
            },
            Const::Sym(n, o) => match self.syms.get(n) {
                Some(a) => Opnd::C((*a as i64 + o) as u64),
                None => Opnd::C(0),
            },
            Const::Bad(_) => Opnd::Undef(ty.bits()),
        }
    }

    fn kbytes(&self, ty: &Ty, k: &Const, out: &mut [u8], st: &mut [u8]) {
        match k {
            Const::Str(b) => out[..b.len()].copy_from_slice(b),
            Const::Zero | Const::Null => {}
            Const::Undef => st[..ty.store_size() as usize].fill(1),
            Const::Int(v) => {
                let n = ty.store_size() as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Const::F64(v) => {
                let n = ty.store_size() as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Const::Sym(..) => {
                if let Opnd::C(a) = self.kval(ty, k) {
                    out[..8].copy_from_slice(&a.to_le_bytes());
                }
            }
            Const::Agg(v) => {
                for (i, (t, k)) in v.iter().enumerate() {
                    let o = match ty {
                        Ty::Vector(_, t) => t.store_size() as usize * i,
                        _ => ty.field_offset(i) as usize,
                    };
                    self.kbytes(t, k, &mut out[o..], &mut st[o..]);
                }
            }
            Const::Splat(b) => {
                if let Ty::Vector(n, t) = ty {
                    for i in 0..*n {
                        let o = (t.store_size() * i) as usize;
                        self.kbytes(t, &b.1, &mut out[o..], &mut st[o..]);
                    }
                }
            }
            Const::Bad(m) => panic!("bad global initialiser {}", m),
        }
    }
}

fn elem(t: &Ty, i: usize) -> Ty {
    match t {
        Ty::Struct(_, fs) => fs[i].clone(),
        Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
        _ => Ty::Other,
    }
}

pub fn mask128(b: u32) -> u128 {
    if b >= 128 {
        !0
    } else {
        (1u128 << b) - 1
    }
}
fn sx(v: u128, b: u32) -> i128 {
    if b == 0 || b >= 128 {
        v as i128
    } else {
        ((v << (128 - b)) as i128) >> (128 - b)
    }
}

struct FnCtx<'c> {
    c: &'c Ctx,
    regs: HashMap<String, u32>,
}

struct PendEdge {
    target: String,
}

enum Term {
    None,
    Br(PendEdge),
    Cond(Opnd, PendEdge, PendEdge),
    Switch(u32, Opnd, Vec<(u128, PendEdge)>, PendEdge),
    Invoke(CallI, PendEdge),
}

struct Blk {
    phis: Vec<(u32, Vec<(Opnd, String)>)>,
    insts: Vec<Inst>,
    term: Term,
}

impl<'c> FnCtx<'c> {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn val(&mut self, p: &mut P, ty: &Ty) -> R<Opnd> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Ok(Opnd::R(self.reg(n)));
        }
        let k = self.c.konst(p, ty)?;
        if let Const::Bad(m) = k {
            return Err(m);
        }
        Ok(self.c.kval(ty, &k))
    }
    fn tyval(&mut self, p: &mut P) -> R<(Ty, Opnd)> {
        let t = self.c.ty(p)?;
        let v = self.val(p, &t)?;
        Ok((t, v))
    }
    fn label(&mut self, p: &mut P) -> R<String> {
        if !p.eat_word("label") {
            return p.err("label");
        }
        p.expect(b'%')?;
        Ok(p.name())
    }
    fn call(&mut self, p: &mut P, dst: u32) -> R<CallI> {
        // after `call`/`invoke`
        while !p.is_type_start() {
            let w = p.word();
            if w.is_empty() {
                return p.err("call attrs");
            }
            if w == "align" || w == "cc" {
                p.uint()?;
            } else if p.peek() == b'(' {
                p.balanced();
            }
        }
        let rt = self.c.ty(p)?;
        if p.peek() == b'(' {
            p.balanced();
        }
        let callee = match p.peek() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                match self.c.fidx.get(&n) {
                    Some(i) => Callee::Fn(*i),
                    None => return Err(format!("unknown callee {}", n)),
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                Callee::Ind(Opnd::R(self.reg(n)))
            }
            _ => {
                if p.peek_word() == "asm" {
                    while p.peek() != b'"' {
                        if p.word().is_empty() {
                            return p.err("asm");
                        }
                    }
                    let t = p.quoted();
                    p.expect(b',')?;
                    p.peek();
                    let k = p.quoted();
                    let ok = (t.is_empty() || (t.starts_with(b"/*") && t.ends_with(b"*/")))
                        && (rt.bits() == 0 || k.starts_with(b"=&r,0,") || k.starts_with(b"=r,0,"));
                    if !ok {
                        return Err("inline asm".into());
                    }
                    Callee::AsmComment
                } else {
                    Callee::Ind(self.val(p, &Ty::Ptr)?)
                }
            }
        };
        p.expect(b'(')?;
        let mut args = vec![];
        if !p.eat(b')') {
            loop {
                let t = self.c.ty(p)?;
                if t == Ty::Other {
                    // metadata operand: skip
                    let mut d = 0;
                    loop {
                        match p.s[p.i] {
                            b'(' => d += 1,
                            b')' if d == 0 => break,
                            b')' => d -= 1,
                            b',' if d == 0 => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                    args.push(Opnd::Undef(1));
                } else {
                    // attributes
                    loop {
                        let c = p.peek();
                        if c == b'%' || c == b'@' || c == b'{' || c == b'[' || c == b'<' || c == b'-' || c.is_ascii_digit() {
                            break;
                        }
                        let w = p.peek_word();
                        if matches!(
                            w,
                            "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                                | "ptrtoint" | "splat" | "add" | "sub" | "bitcast" | "c" | "trunc"
                        ) {
                            break;
                        }
                        p.word();
                        if w == "align" {
                            p.uint()?;
                        } else if p.peek() == b'(' {
                            p.balanced();
                        }
                        if w.is_empty() {
                            return p.err("arg attrs");
                        }
                    }
                    args.push(self.val(p, &t)?);
                }
                if !p.eat(b',') {
                    break;
                }
            }
            p.expect(b')')?;
        }
        Ok(CallI { dst, callee, args: args.into_boxed_slice(), rbits: rt.bits(), normal: None })
    }

    fn inst(&mut self, p: &mut P, b: &mut Blk) -> R<()> {
        let mut dst = NODST;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            p.expect(b'=')?;
            dst = self.reg(n);
        }
        let mut op = p.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let bin = match op {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            _ => None,
        };
        if let Some(bop) = bin {
            while !p.is_type_start() {
                p.word();
            }
            let t = self.c.ty(p)?;
            let a = self.val(p, &t)?;
            p.expect(b',')?;
            let bb = self.val(p, &t)?;
            b.insts.push(match &t {
                Ty::Vector(n, e) => Inst::VBin { op: bop, n: *n, w: e.bits(), dst, a, b: bb },
                _ => Inst::Bin { op: bop, w: t.bits(), dst, a, b: bb },
            });
            return Ok(());
        }
        match op {
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" {
                    w = p.word();
                }
                let pr = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return p.err("icmp pred"),
                };
                let t = self.c.ty(p)?;
                let a = self.val(p, &t)?;
                p.expect(b',')?;
                let bb = self.val(p, &t)?;
                b.insts.push(match &t {
                    Ty::Vector(n, e) => Inst::VICmp { p: pr, n: *n, w: e.bits(), dst, a, b: bb },
                    _ => Inst::ICmp { p: pr, w: t.bits(), dst, a, b: bb },
                });
            }
            "fcmp" => {
                let mut w = p.word();
                while matches!(w, "fast" | "nnan" | "ninf" | "nsz") {
                    w = p.word();
                }
                let pr = match w {
                    "oeq" => 0,
                    "ogt" => 1,
                    "oge" => 2,
                    "olt" => 3,
                    "ole" => 4,
                    "one" => 5,
                    "ord" => 6,
                    "uno" => 7,
                    "ueq" => 8,
                    "ugt" => 9,
                    "uge" => 10,
                    "ult" => 11,
                    "ule" => 12,
                    "une" => 13,
                    _ => return p.err("fcmp pred"),
                };
                let t = self.c.ty(p)?;
                let a = self.val(p, &t)?;
                p.expect(b',')?;
                let bb = self.val(p, &t)?;
                b.insts.push(Inst::FCmp { p: pr, w: t.bits(), dst, a, b: bb });
            }
            "fneg" => {
                let t = self.c.ty(p)?;
                let a = self.val(p, &t)?;
                b.insts.push(Inst::FNeg { w: t.bits(), dst, a });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (t, a) = self.tyval(p)?;
                if !p.eat_word("to") {
                    return p.err("to");
                }
                let t2 = self.c.ty(p)?;
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "ptrtoint" | "inttoptr" => {
                        if t.bits() == t2.bits() {
                            Cast::Bit
                        } else if t.bits() < t2.bits() {
                            Cast::ZExt
                        } else {
                            Cast::Trunc
                        }
                    }
                    _ => Cast::Bit,
                };
                b.insts.push(match (&t, &t2) {
                    (Ty::Vector(n, e), Ty::Vector(m, f)) => {
                        if c == Cast::Bit {
                            Inst::BitV2V { dst, n1: *n, w1: e.bits(), n2: *m, w2: f.bits(), a }
                        } else {
                            Inst::VCast { c, n: *n, from: e.bits(), to: f.bits(), dst, a }
                        }
                    }
                    (Ty::Vector(n, e), _) => Inst::BitV2I { dst, n: *n, w: e.bits(), a },
                    (_, Ty::Vector(n, e)) => Inst::BitI2V { dst, n: *n, w: e.bits(), a },
                    _ => Inst::Cast { c, from: t.bits(), to: t2.bits(), dst, a },
                });
            }
            "getelementptr" => {
                while !p.is_type_start() {
                    p.word();
                }
                let t = self.c.ty(p)?;
                p.expect(b',')?;
                let (bt, base) = self.tyval(p)?;
                if bt != Ty::Ptr {
                    return p.err("vector gep");
                }
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        p.i -= 1;
                        break;
                    }
                    let (it, v) = self.tyval(p)?;
                    let scale;
                    if first {
                        scale = cur.alloc_size();
                        first = false;
                    } else {
                        match (&cur, &v) {
                            (Ty::Struct(..), Opnd::C(k)) => {
                                off = off.wrapping_add(cur.field_offset(*k as usize));
                                cur = elem(&cur, *k as usize);
                                continue;
                            }
                            _ => {
                                let e = elem(&cur, 0);
                                scale = e.alloc_size();
                                cur = e;
                            }
                        }
                    }
                    match v {
                        Opnd::C(k) => {
                            let k = sx(k as u128, it.bits()) as i64 as u64;
                            off = off.wrapping_add(k.wrapping_mul(scale))
                        }
                        v => terms.push((v, scale, it.bits())),
                    }
                }
                b.insts.push(Inst::Gep { dst, base, off, terms: terms.into_boxed_slice() });
            }
            "load" => {
                while !p.is_type_start() {
                    p.word();
                }
                let t = self.c.ty(p)?;
                p.expect(b',')?;
                let (_, addr) = self.tyval(p)?;
                b.insts.push(if t.bits() > 0 && t.bits() <= 64 {
                    Inst::Load { dst, bits: t.bits(), addr }
                } else {
                    Inst::LoadT { dst, ty: Box::new(t), addr }
                });
            }
            "store" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (t, val) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, addr) = self.tyval(p)?;
                b.insts.push(if t.bits() > 0 && t.bits() <= 64 {
                    Inst::Store { bits: t.bits(), val, addr }
                } else {
                    Inst::StoreT { ty: Box::new(t), val, addr }
                });
            }
            "select" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (ct, c) = self.tyval(p)?;
                p.expect(b',')?;
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, bb) = self.tyval(p)?;
                b.insts.push(match (&ct, &t) {
                    (Ty::Vector(n, _), Ty::Vector(_, e)) => Inst::VSelect { dst, n: *n, w: e.bits(), c, a, b: bb },
                    _ => Inst::Select { dst, w: t.bits(), c, a, b: bb },
                });
            }
            "phi" => {
                while !p.is_type_start() {
                    p.word();
                }
                let t = self.c.ty(p)?;
                let mut inc = vec![];
                loop {
                    p.expect(b'[')?;
                    let v = self.val(p, &t)?;
                    p.expect(b',')?;
                    p.expect(b'%')?;
                    let l = p.name();
                    p.expect(b']')?;
                    inc.push((v, l));
                    let s = p.i;
                    if p.eat(b',') {
                        if p.peek() != b'[' {
                            p.i = s;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                b.phis.push((dst, inc));
            }
            "alloca" => {
                let t = self.c.ty(p)?;
                let mut n = Opnd::C(1);
                let s = p.i;
                if p.eat(b',') && p.is_type_start() {
                    n = self.tyval(p)?.1;
                } else {
                    p.i = s;
                }
                b.insts.push(Inst::Alloca { dst, size: t.alloc_size(), n });
            }
            "call" => {
                let c = self.call(p, dst)?;
                if let Callee::AsmComment = c.callee {
                    // an optimisation barrier: hands back its operand
                    if dst != NODST {
                        let w = c.rbits;
                        b.insts.push(Inst::Bin { op: Bin::Or, w, dst, a: c.args[0].clone(), b: Opnd::C(0) });
                    }
                } else {
                    b.insts.push(Inst::Call(Box::new(c)));
                }
            }
            "invoke" => {
                let c = self.call(p, dst)?;
                // skip attrs up to "to label"
                loop {
                    let ch = p.peek();
                    if ch == b'#' {
                        p.i += 1;
                        p.word();
                        continue;
                    }
                    let w = p.peek_word();
                    if w == "to" {
                        break;
                    }
                    if w.is_empty() {
                        return p.err("invoke");
                    }
                    p.word();
                    if p.peek() == b'(' {
                        p.balanced();
                    }
                }
                p.word();
                let l = self.label(p)?;
                if !p.eat_word("unwind") {
                    return p.err("unwind");
                }
                self.label(p)?;
                b.term = Term::Invoke(c, PendEdge { target: l });
            }
            "br" => {
                if p.peek_word() == "label" {
                    let l = self.label(p)?;
                    b.term = Term::Br(PendEdge { target: l });
                } else {
                    let (_, c) = self.tyval(p)?;
                    p.expect(b',')?;
                    let t = self.label(p)?;
                    p.expect(b',')?;
                    let f = self.label(p)?;
                    b.term = Term::Cond(c, PendEdge { target: t }, PendEdge { target: f });
                }
            }
            "switch" => {
                let (t, v) = self.tyval(p)?;
                p.expect(b',')?;
                let d = self.label(p)?;
                p.expect(b'[')?;
                let mut cs = vec![];
                while !p.eat(b']') {
                    let (_, k) = self.tyval(p)?;
                    p.expect(b',')?;
                    let l = self.label(p)?;
                    let kv = match k {
                        Opnd::C(v) => v as u128,
                        Opnd::W(v) => v,
                        _ => return p.err("switch case"),
                    };
                    cs.push((kv, PendEdge { target: l }));
                }
                b.term = Term::Switch(t.bits(), v, cs, PendEdge { target: d });
            }
            "ret" => {
                let t = self.c.ty(p)?;
                if t == Ty::Void {
                    b.insts.push(Inst::Ret(None));
                } else {
                    let v = self.val(p, &t)?;
                    b.insts.push(Inst::Ret(Some(v)));
                }
            }
            "unreachable" => b.insts.push(Inst::Unreachable),
            "resume" => b.insts.push(Inst::Resume),
            "landingpad" => b.insts.push(Inst::Nop),
            "filter" | "cleanup" | "catch" => {}
            "fence" => b.insts.push(Inst::Nop),
            "freeze" => {
                let (_, a) = self.tyval(p)?;
                b.insts.push(Inst::Freeze { dst, a });
            }
            "extractvalue" => {
                let (_, a) = self.tyval(p)?;
                let mut path = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.uint()? as u32);
                }
                b.insts.push(Inst::Extract { dst, a, path: path.into_boxed_slice() });
            }
            "insertvalue" => {
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, v) = self.tyval(p)?;
                let mut path = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.uint()? as u32);
                }
                b.insts.push(Inst::Insert { dst, a, v, path: path.into_boxed_slice(), ty: Box::new(t) });
            }
            "insertelement" => {
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, v) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, i) = self.tyval(p)?;
                if let Ty::Vector(n, e) = &t {
                    b.insts.push(Inst::InsEl { dst, n: *n, w: e.bits(), a, v, i });
                } else {
                    return p.err("insertelement");
                }
            }
            "extractelement" => {
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, i) = self.tyval(p)?;
                if let Ty::Vector(n, _) = &t {
                    b.insts.push(Inst::ExtEl { dst, n: *n, a, i });
                } else {
                    return p.err("extractelement");
                }
            }
            "shufflevector" => {
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, bb) = self.tyval(p)?;
                p.expect(b',')?;
                let (mt, m) = self.tyval(p)?;
                let mask: Vec<i64> = match (&mt, &m) {
                    (Ty::Vector(..), Opnd::Agg(v)) => v
                        .iter()
                        .map(|o| match o {
                            Opnd::C(k) => *k as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return p.err("shuffle mask"),
                };
                if let Ty::Vector(n, e) = &t {
                    b.insts.push(Inst::Shuffle { dst, n: *n, w: e.bits(), a, b: bb, mask: mask.into_boxed_slice() });
                } else {
                    return p.err("shufflevector");
                }
            }
            "atomicrmw" => {
                let mut w = p.word();
                if w == "volatile" {
                    w = p.word();
                }
                let o = match w {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => return p.err("rmw"),
                };
                let (_, addr) = self.tyval(p)?;
                p.expect(b',')?;
                let (t, v) = self.tyval(p)?;
                b.insts.push(Inst::Rmw { op: o, bits: t.bits(), dst, addr, v });
            }
            "cmpxchg" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (_, addr) = self.tyval(p)?;
                p.expect(b',')?;
                let (t, cmp) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, new) = self.tyval(p)?;
                b.insts.push(Inst::CmpXchg { bits: t.bits(), dst, addr, cmp, new });
            }
            _ => return Err(format!("unsupported instruction {}", op)),
        }
        Ok(())
    }
}

/// Split the text of a function body into logical instruction lines.
fn parse_func(c: &Ctx, params: &[String], entry: String, body: &str) -> R<(Vec<Inst>, u32)> {
    let mut fc = FnCtx { c, regs: HashMap::new() };
    for n in params {
        fc.reg(n.clone());
    }
    let mut blocks: Vec<(String, Blk)> = vec![];
    let newblk = || Blk { phis: vec![], insts: vec![], term: Term::None };
    let mut cur = (entry, newblk());
    let bytes = body.as_bytes();
    let mut pos = 0;
    let mut started = false;
    while pos < bytes.len() {
        let eol = body[pos..].find('\n').map(|k| pos + k).unwrap_or(bytes.len());
        let line = &body[pos..eol];
        if line.trim().is_empty() || line.starts_with(';') {
            pos = eol + 1;
            continue;
        }
        let b0 = line.as_bytes()[0];
        if b0 != b' ' && b0 != b'\t' {
            // label
            let mut p = P { s: line.as_bytes(), i: 0 };
            let n = p.name();
            if started || !cur.1.insts.is_empty() {
                blocks.push(std::mem::replace(&mut cur, (n, newblk())));
            } else {
                cur.0 = n;
            }
            started = true;
            pos = eol + 1;
            continue;
        }
        started = true;
        // multi-line constructs
        let mut end = eol;
        let t = line.trim_start();
        if t.starts_with("switch ") {
            end = pos + body[pos..].find("\n  ]").ok_or("switch end")? + 4;
            let e2 = body[end..].find('\n').map(|k| end + k).unwrap_or(bytes.len());
            let mut p = P { s: body[pos..end].as_bytes(), i: 0 };
            fc.inst(&mut p, &mut cur.1)?;
            pos = e2 + 1;
            continue;
        }
        if t.contains("invoke ") && (t.starts_with("invoke ") || t.contains("= invoke ")) {
            let e2 = body[eol + 1..].find('\n').map(|k| eol + 1 + k).unwrap_or(bytes.len());
            end = e2;
        }
        let text = &body[pos..end];
        let mut p = P { s: text.as_bytes(), i: 0 };
        if let Err(m) = fc.inst(&mut p, &mut cur.1) {
            cur.1.insts.push(Inst::Unsupported(Box::new(format!("{}: {}", m, text.trim()))));
        }
        pos = end + 1;
    }
    blocks.push(cur);
    // layout
    let mut start: HashMap<String, u32> = HashMap::new();
    let mut bi: HashMap<String, usize> = HashMap::new();
    let mut ip = 0u32;
    for (k, (n, b)) in blocks.iter().enumerate() {
        start.insert(n.clone(), ip);
        bi.insert(n.clone(), k);
        ip += b.insts.len() as u32 + if matches!(b.term, Term::None) { 0 } else { 1 };
    }
    let edge = |from: &str, e: &PendEdge| -> R<Edge> {
        let k = *bi.get(&e.target).ok_or_else(|| format!("no block {}", e.target))?;
        let mut copies = vec![];
        for (d, inc) in &blocks[k].1.phis {
            let v = inc.iter().find(|(_, l)| l == from).ok_or_else(|| format!("phi from {} in {}", from, e.target))?;
            copies.push((*d, v.0.clone()));
        }
        Ok(Edge { target: start[&e.target], copies: copies.into_boxed_slice() })
    };
    let mut code = vec![];
    for (n, b) in &blocks {
        code.extend(b.insts.iter().cloned());
        match &b.term {
            Term::None => {}
            Term::Br(e) => code.push(Inst::Br(Box::new(edge(n, e)?))),
            Term::Cond(c, t, f) => code.push(Inst::CondBr { c: c.clone(), t: Box::new(edge(n, t)?), f: Box::new(edge(n, f)?) }),
            Term::Switch(w, v, cs, d) => {
                let mut cases = vec![];
                for (k, e) in cs {
                    cases.push((*k, edge(n, e)?));
                }
                cases.sort_by_key(|c| c.0);
                code.push(Inst::Switch { w: *w, v: v.clone(), cases: cases.into_boxed_slice(), default: Box::new(edge(n, d)?) })
            }
            Term::Invoke(c, e) => {
                let mut c = c.clone();
                c.normal = Some(Box::new(edge(n, e)?));
                code.push(Inst::Call(Box::new(c)));
            }
        }
    }
    Ok((code, fc.regs.len() as u32))
}

pub fn parse(text: &str) -> R<Module> {
    let mut ctx = Ctx { types: HashMap::new(), syms: HashMap::new(), fidx: HashMap::new() };
    let mut funcs: Vec<Func> = vec![];
    let mut globs: Vec<(String, usize)> = vec![]; // name, pos after '='
    let mut bodies: Vec<(u32, usize, usize, usize)> = vec![]; // fidx, header pos, body start, body end
    // pass 1
    let mut pos = 0;
    let mut gobj = 2u64;
    let mut aliases: Vec<(String, String)> = vec![];
    while pos < text.len() {
        let eol = text[pos..].find('\n').map(|k| pos + k).unwrap_or(text.len());
        let line = &text[pos..eol];
        if line.starts_with('@') {
            let mut p = P { s: text.as_bytes(), i: pos + 1 };
            let n = p.name();
            p.expect(b'=')?;
            if line.contains(" alias ") {
                // aliasee is the last @name on the line
                if let Some(k) = line.rfind('@') {
                    let mut q = P { s: line.as_bytes(), i: k + 1 };
                    aliases.push((n, q.name()));
                }
            } else {
                ctx.syms.insert(n.clone(), gobj << 32);
                gobj += 1;
                globs.push((n, p.i));
            }
            pos = eol + 1;
        } else if line.starts_with('%') {
            let mut p = P { s: text.as_bytes(), i: pos + 1 };
            let n = p.name();
            p.expect(b'=')?;
            p.eat_word("type");
            let t = ctx.ty(&mut p).unwrap_or(Ty::Other);
            ctx.types.insert(n, t);
            pos = eol + 1;
        } else if line.starts_with("define ") || line.starts_with("declare ") {
            let def = line.starts_with("define ");
            let at = pos + line.find(" @").ok_or("no fn name")? + 2;
            let mut p = P { s: text.as_bytes(), i: at };
            let n = p.name();
            let i = funcs.len() as u32;
            ctx.fidx.insert(n.clone(), i);
            ctx.syms.insert(n.clone(), fn_addr(i));
            funcs.push(Func { name: n, code: vec![], nregs: 0, nparams: 0, defined: def });
            if def {
                let end = eol + text[eol..].find("\n}").ok_or("fn end")?;
                bodies.push((i, p.i, eol + 1, end + 1));
                pos = end + 3;
            } else {
                pos = eol + 1;
            }
        } else {
            pos = eol + 1;
        }
    }
    for (a, t) in aliases {
        if let Some(x) = ctx.syms.get(&t).cloned() {
            ctx.syms.insert(a.clone(), x);
        }
        if let Some(x) = ctx.fidx.get(&t).cloned() {
            ctx.fidx.insert(a, x);
        }
    }
    // globals
    let mut globals = vec![];
    for (n, at) in globs {
        let mut p = P { s: text.as_bytes(), i: at };
        let mut external = false;
        let constant;
        loop {
            let w = p.word();
            match w {
                "external" | "extern_weak" => external = true,
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => {
                    constant = false;
                    break;
                }
                "" => {
                    if p.peek() == b'(' {
                        p.balanced();
                    } else {
                        return p.err("global");
                    }
                }
                _ => {}
            }
        }
        let t = ctx.ty(&mut p)?;
        let size = t.alloc_size();
        let mut bytes = vec![0u8; size as usize];
        let mut st = vec![0u8; size as usize];
        if !external {
            let k = ctx.konst(&mut p, &t)?;
            ctx.kbytes(&t, &k, &mut bytes, &mut st);
        }
        let addr = ctx.syms[&n];
        globals.push(Global { name: n, addr, size, bytes, st, constant, external });
    }
    // bodies
    for (fi, hp, bs, be) in bodies {
        let mut p = P { s: text.as_bytes(), i: hp };
        // params
        p.expect(b'(')?;
        let mut names = vec![];
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.i += 3;
                    break;
                }
                ctx.ty(&mut p)?;
                loop {
                    let ch = p.peek();
                    if ch == b'%' {
                        break;
                    }
                    let w = p.word();
                    if w.is_empty() {
                        return p.err("param");
                    }
                    if w == "align" {
                        p.uint()?;
                    } else if p.peek() == b'(' {
                        p.balanced();
                    }
                }
                p.i += 1;
                names.push(p.name());
                if !p.eat(b',') {
                    break;
                }
            }
            p.expect(b')')?;
        }
        let unnamed = names.iter().filter(|n| n.bytes().all(|b| b.is_ascii_digit())).count();
        let entry = unnamed.to_string();
        match parse_func(&ctx, &names, entry, &text[bs..be]) {
            Ok((code, nregs)) => {
                let f = &mut funcs[fi as usize];
                f.code = code;
                f.nregs = nregs;
                f.nparams = names.len() as u32;
            }
            Err(m) => {
                let f = &mut funcs[fi as usize];
                f.code = vec![Inst::Unsupported(Box::new(m))];
                f.nregs = names.len() as u32;
                f.nparams = names.len() as u32;
            }
        }
    }
    Ok(Module { fidx: ctx.fidx, funcs, globals })
}
