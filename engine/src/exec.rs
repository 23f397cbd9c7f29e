//! Path-forking symbolic interpreter.  One `Exec` explores one path at a time: it re-executes the
//! harness from its entry, follows a recorded decision prefix, and then takes the first feasible
//! side of every further symbolic decision, queueing the remaining sides as new prefixes.

use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};

#[derive(Clone, Copy, Debug)]
pub enum Val {
    C(u64),
    E(E),
    W(u32),
    A(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Panic(String),
    Abort(String),
    MemErr(String),
    Uninit(String),
    Unreachable(String),
    Budget(String),
    Dead,
    Unsupported(String),
    Inconclusive(String),
    Done,
}

type R<T> = Result<T, Stop>;

struct Obj {
    size: u32,
    data: Vec<u8>,
    st: Vec<u8>,
    sym: Vec<E>,
    kind: u8, // 0 heap, 1 stack, 2 global, 3 constant, 9 dead
    align: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Body,
    Undefined,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    NoShim,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    PosixMemalign,
    Panic,
    Abort,
    MemCpy,
    MemSet,
    Bcmp,
    Memcmp,
    Strlen,
    RandKeys,
    Nop,
    UMax(u32),
    UMin(u32),
    SMax(u32),
    SMin(u32),
    USubSat(u32),
    UAddSat(u32),
    SSubSat(u32),
    SAddSat(u32),
    UAddO(u32),
    USubO(u32),
    UMulO(u32),
    SAddO(u32),
    SSubO(u32),
    SMulO(u32),
    Ctlz(u32),
    Cttz(u32),
    Ctpop(u32),
    Bswap(u32),
    BitRev(u32),
    Fshl(u32),
    Fshr(u32),
    Abs(u32),
    UCmp(u32),
    SCmp(u32),
    Ident,
    IsConst,
    Fabs,
    SymByte,
    SymChoice,
    SymAssume,
    SymCheck,
    SymObserve,
    SymReach,
    SymTag,
}

struct Frame<'m> {
    code: &'m [Inst],
    fi: u32,
    ip: u32,
    base: u32,
    dst: u32,
    normal: Option<&'m Edge>,
    alloca0: u32,
}

pub struct Shared {
    pub m: Module,
    builtins: Vec<B>,
    /// functions whose arguments are made concrete
    conc: Vec<bool>,
}

impl Shared {
    pub fn new(m: Module) -> Shared {
        let builtins = m.funcs.iter().map(|f| builtin(&f.name, f.defined)).collect();
        let conc = m.funcs.iter().map(|f| f.name.contains("4itoa")).collect();
        Shared { m, builtins, conc }
    }
}

fn builtin(n: &str, defined: bool) -> B {
    if let Some(r) = n.strip_prefix("llvm.") {
        let w = r.rsplit('.').next().and_then(|t| t.strip_prefix('i')).and_then(|t| t.parse().ok()).unwrap_or(0u32);
        let has = |p: &str| r.starts_with(p);
        if r.contains(".v") && r.split('.').any(|t| t.starts_with('v') && t.len() > 1 && t.as_bytes()[1].is_ascii_digit()) {
            return B::Undefined;
        }
        return if has("memcpy") || has("memmove") {
            B::MemCpy
        } else if has("memset") {
            B::MemSet
        } else if has("lifetime") || has("assume") || has("experimental.noalias") || has("dbg") || has("donothing") || has("x86.sse2.pause") || has("prefetch") || has("invariant") {
            B::Nop
        } else if has("umax") {
            B::UMax(w)
        } else if has("umin") {
            B::UMin(w)
        } else if has("smax") {
            B::SMax(w)
        } else if has("smin") {
            B::SMin(w)
        } else if has("usub.sat") {
            B::USubSat(w)
        } else if has("uadd.sat") {
            B::UAddSat(w)
        } else if has("ssub.sat") {
            B::SSubSat(w)
        } else if has("sadd.sat") {
            B::SAddSat(w)
        } else if has("uadd.with.overflow") {
            B::UAddO(w)
        } else if has("usub.with.overflow") {
            B::USubO(w)
        } else if has("umul.with.overflow") {
            B::UMulO(w)
        } else if has("sadd.with.overflow") {
            B::SAddO(w)
        } else if has("ssub.with.overflow") {
            B::SSubO(w)
        } else if has("smul.with.overflow") {
            B::SMulO(w)
        } else if has("ctlz") {
            B::Ctlz(w)
        } else if has("cttz") {
            B::Cttz(w)
        } else if has("ctpop") {
            B::Ctpop(w)
        } else if has("bswap") {
            B::Bswap(w)
        } else if has("bitreverse") {
            B::BitRev(w)
        } else if has("fshl") {
            B::Fshl(w)
        } else if has("fshr") {
            B::Fshr(w)
        } else if has("abs") {
            B::Abs(w)
        } else if has("ucmp") {
            B::UCmp(r.rsplit('.').next().and_then(|t| t.strip_prefix('i')).and_then(|t| t.parse().ok()).unwrap_or(64))
        } else if has("scmp") {
            B::SCmp(w)
        } else if has("expect") || has("threadlocal") || has("launder") || has("strip.invariant") {
            B::Ident
        } else if has("is.constant") {
            B::IsConst
        } else if has("trap") || has("debugtrap") {
            B::Abort
        } else if has("fabs.f64") {
            B::Fabs
        } else {
            B::Undefined
        };
    }
    match n {
        "sym_byte" => return B::SymByte,
        "sym_choice" => return B::SymChoice,
        "sym_assume" => return B::SymAssume,
        "sym_check" => return B::SymCheck,
        "sym_observe" => return B::SymObserve,
        "sym_reach" => return B::SymReach,
        "sym_tag" => return B::SymTag,
        "malloc" => return B::Malloc,
        "calloc" => return B::Calloc,
        "free" => return B::Free,
        "realloc" => return B::CRealloc,
        "posix_memalign" => return B::PosixMemalign,
        "memcpy" | "memmove" => return B::MemCpy,
        "memset" => return B::MemSet,
        "bcmp" => return B::Bcmp,
        "memcmp" => return B::Memcmp,
        "strlen" => return B::Strlen,
        "abort" | "exit" | "_exit" => return B::Abort,
        _ => {}
    }
    if n.ends_with("___rust_alloc") {
        return B::Alloc;
    }
    if n.ends_with("___rust_alloc_zeroed") {
        return B::AllocZ;
    }
    if n.ends_with("___rust_dealloc") {
        return B::Dealloc;
    }
    if n.ends_with("___rust_realloc") {
        return B::Realloc;
    }
    if n.contains("rust_no_alloc_shim_is_unstable") {
        return B::NoShim;
    }
    for p in [
        "9panicking9panic_fmt",
        "9panicking18panic_nounwind",
        "9panicking18panic_bounds_check",
        "9panicking5panic",
        "9panicking11panic_const",
        "9panicking19panic_cannot_unwind",
        "9panicking16panic_in_cleanup",
        "9panicking11begin_panic",
        "17rust_begin_unwind",
        "10rust_panic",
        "18handle_alloc_error",
        "17capacity_overflow",
        "6option13unwrap_failed",
        "6option13expect_failed",
        "6result13unwrap_failed",
        "3str16slice_error_fail",
    ] {
        if n.contains(p) {
            return B::Panic;
        }
    }
    if n.contains("hashmap_random_keys") {
        return B::RandKeys;
    }
    if defined {
        B::Body
    } else {
        B::Undefined
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // "check", "panic", "memory", "hang", ...
    pub id: u32,
    pub detail: String,
    pub input: Vec<u8>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub insts: u64,
    pub decisions: u64,
    pub forced: u64,
    pub checks: u64,
    pub leaf_sat: u64,
    pub leaf_unsat: u64,
    pub branch_queries: u64,
}

pub struct Leaf {
    pub input: Vec<u8>,
    pub outcome: u8, // 0 ok, 1 panic
    pub obs: u64,
    pub tags: u64,
}

pub struct Exec<'m> {
    sh: &'m Shared,
    pub ex: Exprs,
    pub z: Z3,
    objs: Vec<Obj>,
    nglob: usize,
    dirty: Vec<u32>,
    regs: Vec<Val>,
    frames: Vec<Frame<'m>>,
    allocas: Vec<u32>,
    aggs: Vec<(u32, u32)>,
    aggv: Vec<Val>,
    wides: Vec<u128>,
    pool: Vec<Vec<(Vec<u8>, Vec<u8>)>>,
    // path condition
    pc: Vec<E>,
    forced: Vec<E>,
    checks: Vec<(E, u32)>,
    dom: Vec<[u64; 4]>,
    ent: Vec<bool>,
    wit: [u8; 128],
    wit_ok: bool,
    nvars: usize,
    audit: u32,
    prefix: Vec<u64>,
    dpos: usize,
    decs: Vec<u64>,
    pub new_prefixes: Vec<Vec<u64>>,
    obs: Vec<(Val, u32)>,
    pub reach: FxMap<u32, u64>,
    pub tags: FxMap<u64, u64>,
    cur_tag: u64,
    pub hit: Vec<bool>,
    pub stats: Stats,
    icount: u64,
    budget: u64,
    heap: u64,
    heap_max: u64,
    trace_slow: bool,
    tmpv: Vec<Val>,
    since_reset: u32,
}

fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 || w == 0 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl<'m> Exec<'m> {
    pub fn new(sh: &'m Shared, budget: u64, heap_max: u64) -> Self {
        let mut objs = vec![];
        for _ in 0..2 {
            objs.push(Obj { size: 0, data: vec![], st: vec![], sym: vec![], kind: 9, align: 1 });
        }
        for g in &sh.m.globals {
            assert_eq!(g.addr >> 32, objs.len() as u64);
            objs.push(Obj {
                size: if g.external { 0 } else { g.size as u32 },
                data: g.bytes.clone(),
                st: g.st.clone(),
                sym: vec![],
                kind: if g.constant { 3 } else { 2 },
                align: 16,
            });
        }
        let nglob = objs.len();
        Exec {
            hit: vec![false; sh.m.funcs.len()],
            sh,
            ex: Exprs::new(),
            z: Z3::new(),
            objs,
            nglob,
            dirty: vec![],
            regs: vec![],
            frames: vec![],
            allocas: vec![],
            aggs: vec![],
            aggv: vec![],
            wides: vec![],
            pool: (0..33).map(|_| vec![]).collect(),
            pc: vec![],
            forced: vec![],
            checks: vec![],
            dom: vec![],
            ent: vec![],
            wit: [0; 128],
            wit_ok: true,
            nvars: 0,
            audit: 0,
            prefix: vec![],
            dpos: 0,
            decs: vec![],
            new_prefixes: vec![],
            obs: vec![],
            reach: Default::default(),
            tags: Default::default(),
            cur_tag: 0,
            stats: Default::default(),
            icount: 0,
            budget,
            heap: 0,
            heap_max,
            trace_slow: std::env::var_os("RATSYM_SLOW").is_some(),
            tmpv: vec![],
            since_reset: 0,
        }
    }

    // ---------------------------------------------------------------- memory
    fn new_obj(&mut self, size: u64, kind: u8, align: u32) -> R<u64> {
        if size > (1 << 28) {
            return Err(Stop::Budget(format!("allocation of {} bytes", size)));
        }
        self.heap += size;
        if self.heap > self.heap_max {
            return Err(Stop::Budget("memory budget exceeded".into()));
        }
        let size = size as usize;
        let class = (usize::BITS - size.leading_zeros()) as usize;
        let (mut data, mut st) = self.pool[class].pop().unwrap_or_else(|| (Vec::with_capacity(1 << class), Vec::with_capacity(1 << class)));
        data.clear();
        data.resize(size, 0);
        st.clear();
        st.resize(size, 1);
        let id = self.objs.len() as u64;
        self.objs.push(Obj { size: size as u32, data, st, sym: vec![], kind, align });
        Ok(id << 32)
    }
    fn kill_obj(&mut self, id: usize) {
        let o = &mut self.objs[id];
        self.heap -= o.size as u64;
        let class = (usize::BITS - (o.size as usize).leading_zeros()) as usize;
        o.kind = 9;
        o.size = 0;
        o.sym = vec![];
        let d = std::mem::take(&mut o.data);
        let s = std::mem::take(&mut o.st);
        self.pool[class].push((d, s));
    }
    fn reset_path(&mut self) {
        for id in self.nglob..self.objs.len() {
            if self.objs[id].kind != 9 {
                self.kill_obj(id);
            }
        }
        self.objs.truncate(self.nglob);
        let dirty = std::mem::take(&mut self.dirty);
        for d in dirty {
            let g = &self.sh.m.globals[d as usize - 2];
            let o = &mut self.objs[d as usize];
            o.data.copy_from_slice(&g.bytes);
            o.st.copy_from_slice(&g.st);
            o.sym = vec![];
            o.align = 16;
        }
        self.heap = 0;
        self.regs.clear();
        self.frames.clear();
        self.allocas.clear();
        self.aggs.clear();
        self.aggv.clear();
        self.wides.clear();
        self.pc.clear();
        self.forced.clear();
        self.checks.clear();
        self.dom.clear();
        self.ent.clear();
        self.wit = [0; 128];
        self.wit_ok = true;
        self.nvars = 0;
        self.dpos = 0;
        self.decs.clear();
        self.obs.clear();
        self.icount = 0;
        self.cur_tag = 0;
        self.since_reset += 1;
        if self.since_reset > 4000 || self.ex.nodes.len() > 400_000 {
            self.since_reset = 0;
            self.ex = Exprs::new();
            self.z.reset_all();
        }
    }
    fn fname(&self, fi: u32) -> &str {
        &self.sh.m.funcs[fi as usize].name
    }
    pub fn stack(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(12) {
            if !s.is_empty() {
                s.push_str(" < ");
            }
            s.push_str(self.fname(f.fi));
        }
        s
    }
    #[inline(always)]
    fn chk(&self, a: u64, n: usize) -> R<(usize, usize)> {
        let id = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as usize;
        if id < self.objs.len() && off + n <= self.objs[id].size as usize {
            Ok((id, off))
        } else {
            Err(self.memerr(a, n))
        }
    }
    #[cold]
    fn memerr(&self, a: u64, n: usize) -> Stop {
        let id = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as u32 as i32;
        let d = if id >= self.objs.len() || id < 2 {
            format!("invalid pointer {:#x}", a)
        } else {
            let o = &self.objs[id];
            if o.kind == 9 {
                "use after free".to_string()
            } else {
                format!("offset {} size {} outside object of {} bytes (kind {})", off, n, o.size, o.kind)
            }
        };
        Stop::MemErr(format!("{} in {}", d, self.stack()))
    }
    fn load_c(&mut self, a: u64, n: usize, bits: u32) -> R<Val> {
        let (id, off) = self.chk(a, n)?;
        let o = &self.objs[id];
        if n <= 8 {
            let mut v = 0u64;
            let mut s = 0u64;
            let d = &o.data[off..off + n];
            let t = &o.st[off..off + n];
            match n {
                1 => {
                    v = d[0] as u64;
                    s = t[0] as u64;
                }
                4 => {
                    v = u32::from_le_bytes(d.try_into().unwrap()) as u64;
                    s = u32::from_le_bytes(t.try_into().unwrap()) as u64;
                }
                8 => {
                    v = u64::from_le_bytes(d.try_into().unwrap());
                    s = u64::from_le_bytes(t.try_into().unwrap());
                }
                _ => {
                    for i in (0..n).rev() {
                        v = v << 8 | d[i] as u64;
                        s |= t[i] as u64;
                    }
                }
            }
            if s == 0 {
                return Ok(Val::C(v & mask(bits)));
            }
        }
        let e = self.load_e(id, off, n);
        let e = if bits < 8 * n as u32 { self.ex.extract(e, 0, bits) } else { e };
        Ok(self.from_e(e))
    }
    fn byte_e(&mut self, id: usize, off: usize) -> E {
        match self.objs[id].st[off] {
            0 => {
                let v = self.objs[id].data[off];
                self.ex.cst(8, v as u128)
            }
            1 => self.ex.undef(8),
            _ => self.objs[id].sym[off],
        }
    }
    fn load_e(&mut self, id: usize, off: usize, n: usize) -> E {
        let mut e = self.byte_e(id, off);
        for i in 1..n {
            let b = self.byte_e(id, off + i);
            e = self.ex.concat(b, e);
        }
        e
    }
    fn load_int(&mut self, addr: Val, bits: u32) -> R<Val> {
        let n = ((bits + 7) / 8) as usize;
        match addr {
            Val::C(a) => self.load_c(a, n, bits),
            Val::E(e) => {
                self.no_undef(e, "load address")?;
                if let Some(v) = self.ex.unary(e) {
                    if bits <= 64 {
                        let t = self.ex.table(e);
                        let mut vals = Box::new([0u64; 256]);
                        let mut ok = true;
                        let mut first = None;
                        for x in 0..256 {
                            if self.in_dom(v, x) {
                                let a = t[x];
                                match self.chk(a, n) {
                                    Ok((id, off)) => {
                                        let o = &self.objs[id];
                                        let mut r = 0u64;
                                        for i in (0..n).rev() {
                                            if o.st[off + i] != 0 {
                                                ok = false;
                                            }
                                            r = r << 8 | o.data[off + i] as u64;
                                        }
                                        vals[x] = r & mask(bits);
                                        if first.is_none() {
                                            first = Some(vals[x]);
                                        }
                                    }
                                    Err(_) => ok = false,
                                }
                            }
                            if !ok {
                                break;
                            }
                        }
                        if ok {
                            let f = first.unwrap_or(0);
                            for x in 0..256 {
                                if !self.in_dom(v, x) {
                                    vals[x] = f;
                                }
                            }
                            let e = self.ex.lut(v, vals, bits);
                            return Ok(self.from_e(e));
                        }
                    }
                }
                let a = self.concretize(e)?;
                self.load_c(a, n, bits)
            }
            _ => Err(Stop::Unsupported("load addr".into())),
        }
    }
    fn wr(&mut self, id: usize) -> R<()> {
        match self.objs[id].kind {
            3 => Err(Stop::MemErr(format!("write to constant in {}", self.stack()))),
            2 => {
                if self.objs[id].align == 16 {
                    self.objs[id].align = 17; // marks dirty
                    self.dirty.push(id as u32);
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn put_byte(&mut self, id: usize, off: usize, e: E) {
        if let Some(k) = self.ex.k(e) {
            let o = &mut self.objs[id];
            o.data[off] = k as u8;
            o.st[off] = 0;
        } else if self.ex.n(e).op == Op::Undef {
            self.objs[id].st[off] = 1;
        } else {
            let o = &mut self.objs[id];
            if o.sym.is_empty() {
                o.sym = vec![0; o.size as usize];
            }
            o.sym[off] = e;
            o.st[off] = 2;
        }
    }
    fn caddr(&mut self, a: Val) -> R<u64> {
        match a {
            Val::C(a) => Ok(a),
            Val::E(e) => self.concretize(e),
            _ => Err(Stop::Unsupported("address".into())),
        }
    }
    fn store_int(&mut self, addr: Val, bits: u32, v: Val) -> R<()> {
        let a = self.caddr(addr)?;
        let n = ((bits + 7) / 8) as usize;
        let (id, off) = self.chk(a, n)?;
        self.wr(id)?;
        match v {
            Val::C(v) => {
                let o = &mut self.objs[id];
                match n {
                    1 => {
                        o.data[off] = v as u8;
                        o.st[off] = 0;
                    }
                    8 => {
                        o.data[off..off + 8].copy_from_slice(&v.to_le_bytes());
                        o.st[off..off + 8].fill(0);
                    }
                    _ => {
                        let b = v.to_le_bytes();
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                        o.st[off..off + n].fill(0);
                    }
                }
            }
            _ => {
                let e = self.to_e(v, bits)?;
                let e = self.ex.zext(e, 8 * n as u32);
                for i in 0..n {
                    let b = self.ex.extract(e, 8 * i as u32, 8);
                    self.put_byte(id, off + i, b);
                }
            }
        }
        Ok(())
    }
    fn load_ty(&mut self, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(b) if *b > 64 => {
                let n = ((*b + 7) / 8) as usize;
                let (id, off) = self.chk(addr, n)?;
                let e = self.load_e(id, off, n);
                let e = if *b < 8 * n as u32 { self.ex.extract(e, 0, *b) } else { e };
                Ok(self.from_e(e))
            }
            Ty::Vector(n, t) => {
                let w = t.bits();
                if w % 8 != 0 {
                    let tot = *n as u32 * w;
                    let v = self.load_c(addr, ((tot + 7) / 8) as usize, tot)?;
                    let e = self.to_e(v, tot)?;
                    let mut els = vec![];
                    for i in 0..*n {
                        let x = self.ex.extract(e, i as u32 * w, w);
                        els.push(self.from_e(x));
                    }
                    return Ok(self.agg(&els));
                }
                let mut els = vec![];
                for i in 0..*n {
                    els.push(self.load_c(addr + i * (w as u64 / 8), (w / 8) as usize, w)?);
                }
                Ok(self.agg(&els))
            }
            Ty::Struct(_, fs) => {
                let mut els = vec![];
                for (i, f) in fs.iter().enumerate() {
                    els.push(self.load_ty(addr + ty.field_offset(i), f)?);
                }
                Ok(self.agg(&els))
            }
            Ty::Array(n, t) => {
                let mut els = vec![];
                for i in 0..*n {
                    els.push(self.load_ty(addr + i * t.alloc_size(), t)?);
                }
                Ok(self.agg(&els))
            }
            t => {
                let b = t.bits();
                if b == 0 {
                    return Err(Stop::Unsupported("load type".into()));
                }
                self.load_c(addr, ((b + 7) / 8) as usize, b)
            }
        }
    }
    fn store_ty(&mut self, addr: u64, ty: &Ty, v: Val) -> R<()> {
        match ty {
            Ty::Int(b) if *b > 64 => {
                let n = ((*b + 7) / 8) as usize;
                let (id, off) = self.chk(addr, n)?;
                self.wr(id)?;
                let e = self.to_e(v, *b)?;
                let e = self.ex.zext(e, 8 * n as u32);
                for i in 0..n {
                    let x = self.ex.extract(e, 8 * i as u32, 8);
                    self.put_byte(id, off + i, x);
                }
                Ok(())
            }
            Ty::Vector(n, t) => {
                let w = t.bits();
                if w % 8 != 0 {
                    let tot = *n as u32 * w;
                    let mut e = None;
                    for i in 0..*n {
                        let x = self.agg_get(v, i as usize)?;
                        let x = self.to_e(x, w)?;
                        e = Some(match e {
                            None => x,
                            Some(p) => self.ex.concat(x, p),
                        });
                    }
                    let v = self.from_e(e.unwrap());
                    return self.store_int(Val::C(addr), tot, v);
                }
                for i in 0..*n {
                    let x = self.agg_get(v, i as usize)?;
                    self.store_int(Val::C(addr + i * (w as u64 / 8)), w, x)?;
                }
                Ok(())
            }
            Ty::Struct(_, fs) => {
                for (i, f) in fs.iter().enumerate() {
                    let x = self.agg_get(v, i)?;
                    self.store_ty(addr + ty.field_offset(i), f, x)?;
                }
                Ok(())
            }
            Ty::Array(n, t) => {
                for i in 0..*n {
                    let x = self.agg_get(v, i as usize)?;
                    self.store_ty(addr + i * t.alloc_size(), t, x)?;
                }
                Ok(())
            }
            t => self.store_int(Val::C(addr), t.bits(), v),
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.chk(s, n)?;
        let (di, d_o) = self.chk(d, n)?;
        self.wr(di)?;
        if si == di {
            let o = &mut self.objs[si];
            o.data.copy_within(so..so + n, d_o);
            o.st.copy_within(so..so + n, d_o);
            if !o.sym.is_empty() {
                o.sym.copy_within(so..so + n, d_o);
            }
            return Ok(());
        }
        let (a, b) = if si < di {
            let (x, y) = self.objs.split_at_mut(di);
            (&x[si], &mut y[0])
        } else {
            let (x, y) = self.objs.split_at_mut(si);
            (&y[0], &mut x[di])
        };
        b.data[d_o..d_o + n].copy_from_slice(&a.data[so..so + n]);
        b.st[d_o..d_o + n].copy_from_slice(&a.st[so..so + n]);
        if !a.sym.is_empty() {
            if b.sym.is_empty() {
                b.sym = vec![0; b.size as usize];
            }
            b.sym[d_o..d_o + n].copy_from_slice(&a.sym[so..so + n]);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- values
    fn agg(&mut self, els: &[Val]) -> Val {
        let s = self.aggv.len() as u32;
        self.aggv.extend_from_slice(els);
        self.aggs.push((s, els.len() as u32));
        Val::A(self.aggs.len() as u32 - 1)
    }
    fn agg_get(&self, v: Val, i: usize) -> R<Val> {
        match v {
            Val::A(k) => {
                let (s, n) = self.aggs[k as usize];
                if i < n as usize {
                    Ok(self.aggv[s as usize + i])
                } else {
                    Err(Stop::Unsupported("aggregate index".into()))
                }
            }
            _ => Err(Stop::Unsupported("aggregate".into())),
        }
    }
    fn to_e(&mut self, v: Val, w: u32) -> R<E> {
        match v {
            Val::C(k) => Ok(self.ex.cst(w, k as u128)),
            Val::E(e) => Ok(e),
            Val::W(i) => {
                let k = self.wides[i as usize];
                Ok(self.ex.cst(w, k))
            }
            Val::A(_) => Err(Stop::Unsupported("aggregate as int".into())),
        }
    }
    fn from_e(&mut self, e: E) -> Val {
        match self.ex.k(e) {
            Some(k) => {
                if self.ex.w(e) <= 64 {
                    Val::C(k as u64)
                } else {
                    self.wides.push(k);
                    Val::W(self.wides.len() as u32 - 1)
                }
            }
            None => Val::E(e),
        }
    }
    #[inline(always)]
    fn get(&mut self, o: &Opnd, base: usize) -> Val {
        match o {
            Opnd::R(r) => self.regs[base + *r as usize],
            Opnd::C(c) => Val::C(*c),
            _ => self.get_slow(o, base),
        }
    }
    #[cold]
    fn get_slow(&mut self, o: &Opnd, base: usize) -> Val {
        match o {
            Opnd::W(k) => {
                self.wides.push(*k);
                Val::W(self.wides.len() as u32 - 1)
            }
            Opnd::Undef(w) => {
                if *w == 0 {
                    Val::C(0)
                } else {
                    Val::E(self.ex.undef(*w))
                }
            }
            Opnd::Agg(v) => {
                let els: Vec<Val> = v.iter().map(|o| self.get(o, base)).collect();
                self.agg(&els)
            }
            _ => unreachable!(),
        }
    }

    // ---------------------------------------------------------------- path condition
    fn in_dom(&self, v: usize, x: usize) -> bool {
        self.dom[v][x >> 6] >> (x & 63) & 1 == 1
    }
    fn no_undef(&self, e: E, what: &str) -> R<()> {
        if self.ex.sup(e) & UNDEF_BIT != 0 {
            return Err(Stop::Uninit(format!("{} depends on uninitialised memory in {}", what, self.stack())));
        }
        Ok(())
    }
    /// Assert the whole path condition.  Conjuncts over a single byte are first folded into one set
    /// per byte (`dom`); with `raw` they are asserted as they were recorded instead.
    fn assert_pc(&mut self, raw: bool) {
        self.z.reset();
        for i in 0..self.pc.len() {
            let e = self.pc[i];
            if raw || self.ex.unary(e).is_none() {
                self.z.assert(&self.ex, e);
            }
        }
        if !raw {
            for v in 0..self.nvars {
                let d = self.dom[v];
                if d != [!0; 4] {
                    self.z.assert_member(&mut self.ex, v, &d);
                }
            }
        }
    }
    /// Is pc && e satisfiable?
    fn z_feasible(&mut self, e: E) -> R<Option<[u8; 128]>> {
        self.assert_pc(false);
        self.z.assert(&self.ex, e);
        self.stats.branch_queries += 1;
        let t0 = std::time::Instant::now();
        let r = self.z.check();
        if self.trace_slow && t0.elapsed().as_millis() > 100 {
            eprintln!("SLOW {:?} {}", t0.elapsed(), self.stack());
        }
        match r {
            Res::Sat => {
                let mut m = [0u8; 128];
                self.z.model(&mut self.ex, self.nvars, &mut m);
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Inconclusive("z3 returned unknown on a branch query".into())),
        }
    }
    fn add(&mut self, e: E, forced: bool) {
        if forced {
            self.forced.push(e);
            self.stats.forced += 1;
            return;
        }
        self.pc.push(e);
        if let Some(v) = self.ex.unary(e) {
            let t = self.ex.table(e);
            let mut d = self.dom[v];
            for x in 0..256 {
                if t[x] == 0 {
                    d[x >> 6] &= !(1 << (x & 63));
                }
            }
            self.dom[v] = d;
            if !self.in_dom(v, self.wit[v] as usize) {
                if self.ent[v] {
                    self.wit_ok = false;
                } else if let Some(x) = (0..256).find(|x| self.in_dom(v, *x)) {
                    self.wit[v] = x as u8;
                }
            }
        } else {
            let s = self.ex.sup(e);
            for v in 0..self.nvars {
                if s >> v & 1 == 1 {
                    self.ent[v] = true;
                }
            }
            if self.wit_ok {
                self.ex.new_assign();
                if self.ex.eval(e, &self.wit) == 0 {
                    self.wit_ok = false;
                }
            }
        }
    }
    /// Feasibility of (e, !e) under the current path condition.
    fn feas(&mut self, e: E) -> R<(bool, bool)> {
        if let Some(v) = self.ex.unary(e) {
            let t = self.ex.table(e);
            let (mut ft, mut ff) = (false, false);
            for x in 0..256 {
                if self.in_dom(v, x) {
                    if t[x] != 0 {
                        ft = true
                    } else {
                        ff = true
                    }
                }
            }
            if !self.ent[v] || !(ft && ff) {
                return Ok((ft, ff));
            }
        }
        if !self.wit_ok {
            let one = self.ex.cst(1, 1);
            match self.z_feasible(one)? {
                Some(m) => {
                    self.wit = m;
                    self.wit_ok = true;
                }
                None => return Ok((false, false)),
            }
        }
        self.ex.new_assign();
        let b = self.ex.eval(e, &self.wit) != 0;
        let other = if b { self.ex.not1(e) } else { e };
        let o = self.z_feasible(other)?.is_some();
        Ok(if b { (true, o) } else { (o, true) })
    }
    fn decide(&mut self, e: E) -> R<bool> {
        if let Some(k) = self.ex.k(e) {
            return Ok(k != 0);
        }
        self.no_undef(e, "branch")?;
        let (taken, forced);
        if self.dpos < self.prefix.len() {
            let d = self.prefix[self.dpos];
            self.dpos += 1;
            taken = d & 1 == 1;
            forced = d & 2 == 2;
            self.decs.push(d);
        } else {
            let (ft, ff) = self.feas(e)?;
            match (ft, ff) {
                (true, true) => {
                    let mut p = self.decs.clone();
                    p.push(0);
                    self.new_prefixes.push(p);
                    taken = true;
                    forced = false;
                    self.stats.decisions += 1;
                }
                (true, false) => {
                    taken = true;
                    forced = true;
                }
                (false, true) => {
                    taken = false;
                    forced = true;
                }
                (false, false) => return Err(Stop::Inconclusive("path condition became unsatisfiable".into())),
            }
            self.decs.push(taken as u64 | (forced as u64) << 1);
        }
        let c = if taken { e } else { self.ex.not1(e) };
        self.add(c, forced);
        Ok(taken)
    }
    fn or_all(&mut self, es: &[E]) -> E {
        let mut r = self.ex.cst(1, 0);
        for e in es {
            r = self.ex.bin(Op::Or, r, *e);
        }
        r
    }
    fn concretize(&mut self, e: E) -> R<u64> {
        if let Some(k) = self.ex.k(e) {
            return Ok(k as u64);
        }
        self.no_undef(e, "value")?;
        let w = self.ex.w(e);
        if let Some(v) = self.ex.unary(e) {
            if !self.ent[v] {
                let t = self.ex.table(e);
                let mut vals: Vec<u64> = (0..256).filter(|x| self.in_dom(v, *x)).map(|x| t[x]).collect();
                vals.sort_unstable();
                vals.dedup();
                let eqs: Vec<E> = vals
                    .iter()
                    .map(|k| {
                        let k = self.ex.cst(w, *k as u128);
                        self.ex.bin(Op::Eq, e, k)
                    })
                    .collect();
                if vals.len() == 1 {
                    self.add(eqs[0], true);
                    return Ok(vals[0]);
                }
                let all = self.or_all(&eqs);
                if self.ex.k(all).is_none() {
                    self.add(all, true);
                }
                let i = if self.dpos < self.prefix.len() {
                    let i = self.prefix[self.dpos] as usize;
                    self.dpos += 1;
                    i
                } else {
                    for k in (1..vals.len()).rev() {
                        let mut p = self.decs.clone();
                        p.push(k as u64);
                        self.new_prefixes.push(p);
                    }
                    self.stats.decisions += 1;
                    0
                };
                self.decs.push(i as u64);
                self.add(eqs[i], false);
                return Ok(vals[i]);
            }
        }
        // a few bytes with few values each: fork on the bytes themselves
        let sup = self.ex.sup(e) & !UNDEF_BIT;
        let vars: Vec<usize> = (0..128).filter(|v| sup >> v & 1 == 1).collect();
        let mut prod = 1u64;
        let mut ok = vars.len() > 1;
        for v in &vars {
            let n: u32 = self.dom[*v].iter().map(|d| d.count_ones()).sum();
            prod = prod.saturating_mul(n as u64);
            ok &= !self.ent[*v];
        }
        if ok && prod <= 4096 {
            let mut asg = [0u8; 128];
            for v in vars {
                let b = self.ex.var(v);
                asg[v] = self.concretize(b)? as u8;
            }
            self.ex.new_assign();
            return Ok(self.ex.eval(e, &asg) as u64);
        }
        for _ in 0..4096 {
            let cand;
            if self.dpos < self.prefix.len() {
                cand = self.prefix[self.dpos];
                self.dpos += 1;
            } else {
                if !self.wit_ok {
                    let one = self.ex.cst(1, 1);
                    match self.z_feasible(one)? {
                        Some(m) => {
                            self.wit = m;
                            self.wit_ok = true;
                        }
                        None => return Err(Stop::Inconclusive("unsatisfiable".into())),
                    }
                }
                self.ex.new_assign();
                cand = self.ex.eval(e, &self.wit) as u64;
            }
            self.decs.push(cand);
            let k = self.ex.cst(w, cand as u128);
            let c = self.ex.bin(Op::Eq, e, k);
            if self.decide(c)? {
                return Ok(cand);
            }
        }
        Err(Stop::Inconclusive("too many values".into()))
    }
    fn conc(&mut self, v: Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(c),
            Val::E(e) => self.concretize(e),
            _ => Err(Stop::Unsupported("wide value where word expected".into())),
        }
    }
    fn switch_e(&mut self, e: E, cases: &'m [(u128, Edge)], default: &'m Edge) -> R<&'m Edge> {
        self.no_undef(e, "switch")?;
        let w = self.ex.w(e);
        // group the cases by target
        let mut groups: Vec<(u32, &'m Edge, Vec<u128>)> = vec![];
        for (k, ed) in cases {
            let same = groups.iter_mut().find(|g| g.0 == ed.target && edges_eq(g.1, ed));
            match same {
                Some(g) => g.2.push(*k),
                None => groups.push((ed.target, ed, vec![*k])),
            }
        }
        let mut conds: Vec<E> = vec![];
        for g in &groups {
            let mut r = self.ex.cst(1, 0);
            for k in &g.2 {
                let k = self.ex.cst(w, *k);
                let q = self.ex.bin(Op::Eq, e, k);
                r = self.ex.bin(Op::Or, r, q);
            }
            conds.push(r);
        }
        let mut d = self.ex.cst(1, 1);
        for c in conds.clone() {
            let n = self.ex.not1(c);
            d = self.ex.bin(Op::And, d, n);
        }
        if let Some(v) = self.ex.unary(e) {
            if !self.ent[v] {
                let mut alts: Vec<(E, usize)> = vec![];
                for (i, c) in conds.iter().chain(std::iter::once(&d)).enumerate() {
                    let f = match self.ex.k(*c) {
                        Some(k) => k != 0,
                        None => {
                            let t = self.ex.table(*c);
                            (0..256).any(|x| self.in_dom(v, x) && t[x] != 0)
                        }
                    };
                    if f {
                        alts.push((*c, i));
                    }
                }
                let pick = |i: usize| if i < groups.len() { groups[i].1 } else { default };
                if alts.len() == 1 {
                    if self.ex.k(alts[0].0).is_none() {
                        self.add(alts[0].0, true);
                    }
                    return Ok(pick(alts[0].1));
                }
                let es: Vec<E> = alts.iter().map(|a| a.0).collect();
                let all = self.or_all(&es);
                if self.ex.k(all).is_none() {
                    self.add(all, true);
                }
                let k = if self.dpos < self.prefix.len() {
                    let k = self.prefix[self.dpos] as usize;
                    self.dpos += 1;
                    k
                } else {
                    for k in (1..alts.len()).rev() {
                        let mut p = self.decs.clone();
                        p.push(k as u64);
                        self.new_prefixes.push(p);
                    }
                    self.stats.decisions += 1;
                    0
                };
                self.decs.push(k as u64);
                self.add(alts[k].0, false);
                return Ok(pick(alts[k].1));
            }
        }
        for (i, c) in conds.iter().enumerate() {
            if self.decide(*c)? {
                return Ok(groups[i].1);
            }
        }
        Ok(default)
    }

    // ---------------------------------------------------------------- running
    /// Explore one path.  Returns how it ended; leaf verdicts are produced by `finish`.
    pub fn run(&mut self, entry: u32, params: &[u64], prefix: Vec<u64>) -> Stop {
        self.reset_path();
        self.prefix = prefix;
        let f = &self.sh.m.funcs[entry as usize];
        self.regs.resize(f.nregs as usize, Val::C(0));
        for (i, p) in params.iter().enumerate() {
            if i < f.nparams as usize {
                self.regs[i] = Val::C(*p);
            }
        }
        self.hit[entry as usize] = true;
        self.frames.push(Frame { code: &f.code, fi: entry, ip: 0, base: 0, dst: NODST, normal: None, alloca0: 0 });
        let r = self.interp();
        self.stats.insts += self.icount;
        match r {
            Ok(()) => Stop::Done,
            Err(s) => s,
        }
    }
    #[inline(always)]
    fn take(&mut self, e: &'m Edge, base: usize) {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.get(&e.copies[0].1, base);
                self.regs[base + e.copies[0].0 as usize] = v;
            }
            _ => {
                self.tmpv.clear();
                for c in e.copies.iter() {
                    let v = self.get(&c.1, base);
                    self.tmpv.push(v);
                }
                for (i, c) in e.copies.iter().enumerate() {
                    self.regs[base + c.0 as usize] = self.tmpv[i];
                }
            }
        }
        self.frames.last_mut().unwrap().ip = e.target;
    }
    fn bin(&mut self, op: Bin, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sx64(x, w) >> y.min(63)) as u64,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => {
                        return Err(Stop::Unreachable(format!("division by zero in {}", self.stack())))
                    }
                    Bin::UDiv => x / y,
                    Bin::URem => x % y,
                    Bin::SDiv => sx64(x, w).wrapping_div(sx64(y, w)) as u64,
                    Bin::SRem => sx64(x, w).wrapping_rem(sx64(y, w)) as u64,
                    Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv => {
                        if w == 64 {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            (match op {
                                Bin::FAdd => p + q,
                                Bin::FSub => p - q,
                                Bin::FMul => p * q,
                                _ => p / q,
                            })
                            .to_bits()
                        } else {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                Bin::FAdd => p + q,
                                Bin::FSub => p - q,
                                Bin::FMul => p * q,
                                _ => p / q,
                            })
                            .to_bits() as u64
                        }
                    }
                };
                return Ok(Val::C(r & mask(w)));
            }
        }
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            _ => {
                let (a, b) = (self.conc(a)?, self.conc(b)?);
                return self.bin(op, w, Val::C(a), Val::C(b));
            }
        };
        let x = self.to_e(a, w)?;
        let y = self.to_e(b, w)?;
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && w <= 64 && self.ex.unary(x).is_none() {
            // division of a value made of several bytes: one path per value is cheaper than the solver's division
            let (x, y) = (self.concretize(x)?, self.concretize(y)?);
            return self.bin(op, w, Val::C(x), Val::C(y));
        }
        let e = self.ex.bin(o, x, y);
        Ok(self.from_e(e))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx64(x, w) < sx64(y, w),
                Pred::Sle => sx64(x, w) <= sx64(y, w),
                Pred::Sgt => sx64(x, w) > sx64(y, w),
                Pred::Sge => sx64(x, w) >= sx64(y, w),
            };
            return Ok(Val::C(r as u64));
        }
        let x = self.to_e(a, w)?;
        let y = self.to_e(b, w)?;
        let e = match p {
            Pred::Eq => self.ex.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ex.bin(Op::Eq, x, y);
                self.ex.not1(e)
            }
            Pred::Ult => self.ex.bin(Op::Ult, x, y),
            Pred::Ule => self.ex.bin(Op::Ule, x, y),
            Pred::Ugt => self.ex.bin(Op::Ult, y, x),
            Pred::Uge => self.ex.bin(Op::Ule, y, x),
            Pred::Slt => self.ex.bin(Op::Slt, x, y),
            Pred::Sle => self.ex.bin(Op::Sle, x, y),
            Pred::Sgt => self.ex.bin(Op::Slt, y, x),
            Pred::Sge => self.ex.bin(Op::Sle, y, x),
        };
        Ok(self.from_e(e))
    }
    fn cast(&mut self, c: Cast, from: u32, to: u32, a: Val) -> R<Val> {
        if let Val::C(x) = a {
            if to <= 64 {
                return Ok(Val::C(match c {
                    Cast::Trunc => x & mask(to),
                    Cast::ZExt | Cast::Bit => x,
                    Cast::SExt => sx64(x, from) as u64 & mask(to),
                    Cast::UiToFp => {
                        if to == 64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    Cast::SiToFp => {
                        if to == 64 {
                            (sx64(x, from) as f64).to_bits()
                        } else {
                            (sx64(x, from) as f32).to_bits() as u64
                        }
                    }
                    Cast::FpToUi => (f64::from_bits(x) as u64) & mask(to),
                    Cast::FpToSi => (f64::from_bits(x) as i64 as u64) & mask(to),
                }));
            }
        }
        let x = self.to_e(a, from)?;
        let e = match c {
            Cast::Trunc => self.ex.extract(x, 0, to),
            Cast::ZExt => self.ex.zext(x, to),
            Cast::SExt => self.ex.sext(x, to),
            Cast::Bit => x,
            _ => {
                let v = self.concretize(x)?;
                return self.cast(c, from, to, Val::C(v));
            }
        };
        Ok(self.from_e(e))
    }
    fn ret(&mut self, v: Option<Val>) -> bool {
        let f = self.frames.pop().unwrap();
        while self.allocas.len() as u32 > f.alloca0 {
            let id = self.allocas.pop().unwrap();
            self.kill_obj(id as usize);
        }
        self.regs.truncate(f.base as usize);
        if self.frames.is_empty() {
            return true;
        }
        let base = self.frames.last().unwrap().base as usize;
        if f.dst != NODST {
            if let Some(v) = v {
                self.regs[base + f.dst as usize] = v;
            }
        }
        if let Some(e) = f.normal {
            self.take(e, base);
        }
        false
    }

    fn interp(&mut self) -> R<()> {
        'outer: loop {
            let (code, base) = {
                let f = self.frames.last().unwrap();
                (f.code, f.base as usize)
            };
            let mut ip = self.frames.last().unwrap().ip as usize;
            loop {
                self.icount += 1;
                let inst: &'m Inst = &code[ip];
                ip += 1;
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        self.regs[base + *$d as usize] = v;
                    }};
                }
                match inst {
                    Inst::Bin { op, w, dst, a, b } => {
                        let (x, y) = (self.get(a, base), self.get(b, base));
                        set!(dst, self.bin(*op, *w, x, y)?)
                    }
                    Inst::ICmp { p, w, dst, a, b } => {
                        let (x, y) = (self.get(a, base), self.get(b, base));
                        set!(dst, self.icmp(*p, *w, x, y)?)
                    }
                    Inst::Cast { c, from, to, dst, a } => {
                        let x = self.get(a, base);
                        set!(dst, self.cast(*c, *from, *to, x)?)
                    }
                    Inst::Gep { dst, base: b, off, terms } => {
                        let v = self.get(b, base);
                        let mut acc = match v {
                            Val::C(a) => Val::C(a.wrapping_add(*off)),
                            Val::E(e) => {
                                let k = self.ex.cst(64, *off as u128);
                                let e = self.ex.bin(Op::Add, e, k);
                                self.from_e(e)
                            }
                            _ => return Err(Stop::Unsupported("gep base".into())),
                        };
                        for (o, scale, w) in terms.iter() {
                            let t = self.get(o, base);
                            match (acc, t) {
                                (Val::C(a), Val::C(i)) => acc = Val::C(a.wrapping_add((sx64(i, *w) as u64).wrapping_mul(*scale))),
                                _ => {
                                    let i = self.to_e(t, *w)?;
                                    let i = self.ex.sext(i, 64);
                                    let s = self.ex.cst(64, *scale as u128);
                                    let m = self.ex.bin(Op::Mul, i, s);
                                    let a = self.to_e(acc, 64)?;
                                    let e = self.ex.bin(Op::Add, a, m);
                                    acc = self.from_e(e);
                                }
                            }
                        }
                        set!(dst, acc)
                    }
                    Inst::Load { dst, bits, addr } => {
                        let a = self.get(addr, base);
                        if let Val::E(_) = a {
                            self.frames.last_mut().unwrap().ip = ip as u32;
                        }
                        set!(dst, self.load_int(a, *bits)?)
                    }
                    Inst::LoadT { dst, ty, addr } => {
                        let a = self.get(addr, base);
                        let a = self.caddr(a)?;
                        set!(dst, self.load_ty(a, ty)?)
                    }
                    Inst::Store { bits, val, addr } => {
                        let (v, a) = (self.get(val, base), self.get(addr, base));
                        self.store_int(a, *bits, v)?;
                    }
                    Inst::StoreT { ty, val, addr } => {
                        let (v, a) = (self.get(val, base), self.get(addr, base));
                        let a = self.caddr(a)?;
                        self.store_ty(a, ty, v)?;
                    }
                    Inst::Select { dst, w, c, a, b } => {
                        let c = self.get(c, base);
                        let r = match c {
                            Val::C(k) => {
                                if k != 0 {
                                    self.get(a, base)
                                } else {
                                    self.get(b, base)
                                }
                            }
                            Val::E(e) => {
                                let (x, y) = (self.get(a, base), self.get(b, base));
                                if *w == 0 || matches!(x, Val::A(_)) {
                                    if self.decide(e)? {
                                        x
                                    } else {
                                        y
                                    }
                                } else {
                                    let (x, y) = (self.to_e(x, *w)?, self.to_e(y, *w)?);
                                    let e = self.ex.ite(e, x, y);
                                    self.from_e(e)
                                }
                            }
                            _ => return Err(Stop::Unsupported("select".into())),
                        };
                        set!(dst, r)
                    }
                    Inst::Br(e) => {
                        if self.icount > self.budget {
                            return Err(Stop::Budget(format!("instruction budget exceeded in {}", self.stack())));
                        }
                        self.take(e, base);
                        ip = e.target as usize;
                    }
                    Inst::CondBr { c, t, f } => {
                        if self.icount > self.budget {
                            return Err(Stop::Budget(format!("instruction budget exceeded in {}", self.stack())));
                        }
                        let c = self.get(c, base);
                        let b = match c {
                            Val::C(k) => k != 0,
                            Val::E(e) => self.decide(e)?,
                            _ => return Err(Stop::Unsupported("br".into())),
                        };
                        let e: &'m Edge = if b { t } else { f };
                        self.take(e, base);
                        ip = e.target as usize;
                    }
                    Inst::Switch { w: _, v, cases, default } => {
                        if self.icount > self.budget {
                            return Err(Stop::Budget(format!("instruction budget exceeded in {}", self.stack())));
                        }
                        let v = self.get(v, base);
                        let e: &'m Edge = match v {
                            Val::C(k) => match cases.binary_search_by_key(&(k as u128), |c| c.0) {
                                Ok(i) => &cases[i].1,
                                Err(_) => default,
                            },
                            Val::W(i) => {
                                let k = self.wides[i as usize];
                                match cases.binary_search_by_key(&k, |c| c.0) {
                                    Ok(i) => &cases[i].1,
                                    Err(_) => default,
                                }
                            }
                            Val::E(e) => self.switch_e(e, cases, default)?,
                            _ => return Err(Stop::Unsupported("switch".into())),
                        };
                        self.take(e, base);
                        ip = e.target as usize;
                    }
                    Inst::Ret(v) => {
                        let v = v.as_ref().map(|o| self.get(o, base));
                        if self.ret(v) {
                            return Ok(());
                        }
                        continue 'outer;
                    }
                    Inst::Call(c) => {
                        self.frames.last_mut().unwrap().ip = ip as u32;
                        if self.icount > self.budget {
                            return Err(Stop::Budget(format!("instruction budget exceeded in {}", self.stack())));
                        }
                        let fi = match &c.callee {
                            Callee::Fn(i) => *i,
                            Callee::AsmComment => return Err(Stop::Unsupported("inline asm".into())),
                            Callee::Ind(o) => {
                                let a = self.get(o, base);
                                let a = self.caddr(a)?;
                                match addr_fn(a) {
                                    Some(i) if (i as usize) < self.sh.m.funcs.len() => i,
                                    _ => return Err(Stop::MemErr(format!("call through invalid function pointer {:#x} in {}", a, self.stack()))),
                                }
                            }
                        };
                        let bi = self.sh.builtins[fi as usize];
                        if bi == B::Body {
                            let f = &self.sh.m.funcs[fi as usize];
                            if self.sh.conc[fi as usize] {
                                // number formatting: one path per value
                                for o in c.args.iter() {
                                    if let Opnd::R(r) = o {
                                        let i = base + *r as usize;
                                        if let Val::E(x) = self.regs[i] {
                                            if self.ex.unary(x).is_none() {
                                                let k = self.concretize(x)?;
                                                self.regs[i] = Val::C(k);
                                            }
                                        }
                                    }
                                }
                            }
                            self.hit[fi as usize] = true;
                            if self.frames.len() > 3000 {
                                return Err(Stop::Budget(format!("call depth exceeded in {}", self.stack())));
                            }
                            let nb = self.regs.len();
                            let nr = f.nregs as usize;
                            self.regs.resize(nb + nr, Val::C(0));
                            for (i, o) in c.args.iter().enumerate() {
                                if i >= f.nparams as usize {
                                    break;
                                }
                                let v = self.get(o, base);
                                self.regs[nb + i] = v;
                            }
                            self.frames.push(Frame {
                                code: &f.code,
                                fi,
                                ip: 0,
                                base: nb as u32,
                                dst: c.dst,
                                normal: c.normal.as_deref(),
                                alloca0: self.allocas.len() as u32,
                            });
                            continue 'outer;
                        }
                        let args: Vec<Val> = c.args.iter().map(|o| self.get(o, base)).collect();
                        let r = self.builtin(bi, fi, &args)?;
                        if c.dst != NODST {
                            self.regs[base + c.dst as usize] = r;
                        }
                        if let Some(e) = &c.normal {
                            self.take(e, base);
                            ip = e.target as usize;
                        }
                    }
                    Inst::Alloca { dst, size, n } => {
                        let n = self.get(n, base);
                        let n = self.conc(n)?;
                        let a = self.new_obj(size * n, 1, 16)?;
                        self.allocas.push((a >> 32) as u32);
                        set!(dst, Val::C(a))
                    }
                    Inst::Extract { dst, a, path } => {
                        let mut v = self.get(a, base);
                        for i in path.iter() {
                            v = self.agg_get(v, *i as usize)?;
                        }
                        set!(dst, v)
                    }
                    Inst::Insert { dst, a, v, path, ty: _ } => {
                        let x = self.get(a, base);
                        let v = self.get(v, base);
                        let r = self.insert(x, v, path)?;
                        set!(dst, r)
                    }
                    Inst::Freeze { dst, a } => {
                        let v = self.get(a, base);
                        let v = match v {
                            Val::E(e) if self.ex.n(e).op == Op::Undef => Val::C(0),
                            v => v,
                        };
                        set!(dst, v)
                    }
                    Inst::Nop => {}
                    Inst::Unreachable => return Err(Stop::Unreachable(format!("unreachable code reached in {}", self.stack()))),
                    Inst::Resume => return Err(Stop::Abort("resume".into())),
                    Inst::Unsupported(s) => return Err(Stop::Unsupported(format!("{} in {}", s, self.stack()))),
                    other => {
                        let (dst, v) = self.slow(other, base)?;
                        if dst != NODST {
                            self.regs[base + dst as usize] = v;
                        }
                    }
                }
            }
        }
    }

    fn insert(&mut self, a: Val, v: Val, path: &[u32]) -> R<Val> {
        let (s, n) = match a {
            Val::A(k) => self.aggs[k as usize],
            _ => return Err(Stop::Unsupported("insertvalue".into())),
        };
        let mut els: Vec<Val> = self.aggv[s as usize..(s + n) as usize].to_vec();
        let i = path[0] as usize;
        els[i] = if path.len() == 1 { v } else { self.insert(els[i], v, &path[1..])? };
        Ok(self.agg(&els))
    }

    fn slow(&mut self, inst: &'m Inst, base: usize) -> R<(u32, Val)> {
        Ok(match inst {
            Inst::VBin { op, n, w, dst, a, b } => {
                let (x, y) = (self.get(a, base), self.get(b, base));
                let mut els = vec![];
                for i in 0..*n as usize {
                    let (p, q) = (self.agg_get(x, i)?, self.agg_get(y, i)?);
                    els.push(self.bin(*op, *w, p, q)?);
                }
                (*dst, self.agg(&els))
            }
            Inst::VICmp { p, n, w, dst, a, b } => {
                let (x, y) = (self.get(a, base), self.get(b, base));
                let mut els = vec![];
                for i in 0..*n as usize {
                    let (l, r) = (self.agg_get(x, i)?, self.agg_get(y, i)?);
                    els.push(self.icmp(*p, *w, l, r)?);
                }
                (*dst, self.agg(&els))
            }
            Inst::VCast { c, n, from, to, dst, a } => {
                let x = self.get(a, base);
                let mut els = vec![];
                for i in 0..*n as usize {
                    let p = self.agg_get(x, i)?;
                    els.push(self.cast(*c, *from, *to, p)?);
                }
                (*dst, self.agg(&els))
            }
            Inst::VSelect { dst, n, w, c, a, b } => {
                let (c, x, y) = (self.get(c, base), self.get(a, base), self.get(b, base));
                let mut els = vec![];
                for i in 0..*n as usize {
                    let (k, p, q) = (self.agg_get(c, i)?, self.agg_get(x, i)?, self.agg_get(y, i)?);
                    let k = self.to_e(k, 1)?;
                    let (p, q) = (self.to_e(p, *w)?, self.to_e(q, *w)?);
                    let e = self.ex.ite(k, p, q);
                    els.push(self.from_e(e));
                }
                (*dst, self.agg(&els))
            }
            Inst::BitV2I { dst, n, w, a } => {
                let x = self.get(a, base);
                let e = self.vec_bits(x, *n as usize, *w)?;
                (*dst, self.from_e(e))
            }
            Inst::BitI2V { dst, n, w, a } => {
                let x = self.get(a, base);
                let e = self.to_e(x, *n as u32 * *w)?;
                let r = self.bits_vec(e, *n as usize, *w);
                (*dst, r)
            }
            Inst::BitV2V { dst, n1, w1, n2, w2, a } => {
                let x = self.get(a, base);
                let e = self.vec_bits(x, *n1 as usize, *w1)?;
                let r = self.bits_vec(e, *n2 as usize, *w2);
                (*dst, r)
            }
            Inst::InsEl { dst, n, w: _, a, v, i } => {
                let (x, v, i) = (self.get(a, base), self.get(v, base), self.get(i, base));
                let i = self.conc(i)? as usize;
                let mut els = vec![];
                for k in 0..*n as usize {
                    els.push(if k == i { v } else { self.agg_get(x, k)? });
                }
                (*dst, self.agg(&els))
            }
            Inst::ExtEl { dst, n: _, a, i } => {
                let (x, i) = (self.get(a, base), self.get(i, base));
                let i = self.conc(i)? as usize;
                (*dst, self.agg_get(x, i)?)
            }
            Inst::Shuffle { dst, n, w, a, b, mask } => {
                let (x, y) = (self.get(a, base), self.get(b, base));
                let mut els = vec![];
                for m in mask.iter() {
                    els.push(if *m < 0 {
                        Val::E(self.ex.undef(*w))
                    } else if (*m as u64) < *n {
                        self.agg_get(x, *m as usize)?
                    } else {
                        self.agg_get(y, *m as usize - *n as usize)?
                    });
                }
                (*dst, self.agg(&els))
            }
            Inst::FCmp { p, w, dst, a, b } => {
                let (x, y) = (self.get(a, base), self.get(b, base));
                let (x, y) = (self.conc(x)?, self.conc(y)?);
                let (x, y) = if *w == 64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p {
                    0 => x == y,
                    1 => x > y,
                    2 => x >= y,
                    3 => x < y,
                    4 => x <= y,
                    5 => !un && x != y,
                    6 => !un,
                    7 => un,
                    8 => un || x == y,
                    9 => un || x > y,
                    10 => un || x >= y,
                    11 => un || x < y,
                    12 => un || x <= y,
                    _ => un || x != y,
                };
                (*dst, Val::C(r as u64))
            }
            Inst::FNeg { w, dst, a } => {
                let x = self.get(a, base);
                let x = self.conc(x)?;
                (*dst, Val::C(x ^ (1 << (w - 1))))
            }
            Inst::Rmw { op, bits, dst, addr, v } => {
                let (a, v) = (self.get(addr, base), self.get(v, base));
                let old = self.load_int(a, *bits)?;
                let new = match op {
                    0 => v,
                    1 => self.bin(Bin::Add, *bits, old, v)?,
                    2 => self.bin(Bin::Sub, *bits, old, v)?,
                    3 => self.bin(Bin::And, *bits, old, v)?,
                    4 => self.bin(Bin::Or, *bits, old, v)?,
                    5 => self.bin(Bin::Xor, *bits, old, v)?,
                    _ => return Err(Stop::Unsupported("atomicrmw".into())),
                };
                self.store_int(a, *bits, new)?;
                (*dst, old)
            }
            Inst::CmpXchg { bits, dst, addr, cmp, new } => {
                let (a, c, n) = (self.get(addr, base), self.get(cmp, base), self.get(new, base));
                let old = self.load_int(a, *bits)?;
                let eq = self.icmp(Pred::Eq, *bits, old, c)?;
                let eq = self.conc(eq)?;
                if eq != 0 {
                    self.store_int(a, *bits, n)?;
                }
                (*dst, self.agg(&[old, Val::C(eq)]))
            }
            _ => return Err(Stop::Unsupported("instruction".into())),
        })
    }
    fn vec_bits(&mut self, v: Val, n: usize, w: u32) -> R<E> {
        let x = self.agg_get(v, 0)?;
        let mut e = self.to_e(x, w)?;
        for i in 1..n {
            let x = self.agg_get(v, i)?;
            let x = self.to_e(x, w)?;
            e = self.ex.concat(x, e);
        }
        Ok(e)
    }
    fn bits_vec(&mut self, e: E, n: usize, w: u32) -> Val {
        let mut els = vec![];
        for i in 0..n {
            let x = self.ex.extract(e, i as u32 * w, w);
            els.push(self.from_e(x));
        }
        self.agg(&els)
    }

    fn bytes_eq(&mut self, p: u64, q: u64, n: usize) -> R<E> {
        let mut r = self.ex.cst(1, 1);
        if n == 0 {
            return Ok(r);
        }
        let (pi, po) = self.chk(p, n)?;
        let (qi, qo) = self.chk(q, n)?;
        let mut syms = vec![];
        for i in 0..n {
            let (s, t) = (self.objs[pi].st[po + i], self.objs[qi].st[qo + i]);
            if s == 0 && t == 0 {
                if self.objs[pi].data[po + i] != self.objs[qi].data[qo + i] {
                    return Ok(self.ex.cst(1, 0));
                }
            } else {
                syms.push(i);
            }
        }
        for i in syms {
            let a = self.byte_e(pi, po + i);
            let b = self.byte_e(qi, qo + i);
            let e = self.ex.bin(Op::Eq, a, b);
            r = self.ex.bin(Op::And, r, e);
        }
        Ok(r)
    }

    /// Apply a total function of one word to a possibly symbolic value.
    fn map1(&mut self, v: Val, w: u32, rw: u32, f: impl Fn(u64) -> u64) -> R<Val> {
        match v {
            Val::C(x) => Ok(Val::C(f(x) & mask(rw))),
            Val::E(e) => {
                if let Some(var) = self.ex.unary(e) {
                    let t = self.ex.table(e);
                    let mut vals = Box::new([0u64; 256]);
                    for x in 0..256 {
                        vals[x] = f(t[x] & mask(w)) & mask(rw);
                    }
                    let e = self.ex.lut(var, vals, rw);
                    return Ok(self.from_e(e));
                }
                let x = self.concretize(e)?;
                Ok(Val::C(f(x) & mask(rw)))
            }
            _ => Err(Stop::Unsupported("wide intrinsic".into())),
        }
    }

    fn cmp_sel(&mut self, p: Pred, w: u32, a: Val, b: Val) -> R<Val> {
        let c = self.icmp(p, w, a, b)?;
        match c {
            Val::C(k) => Ok(if k != 0 { a } else { b }),
            Val::E(c) => {
                let (x, y) = (self.to_e(a, w)?, self.to_e(b, w)?);
                let e = self.ex.ite(c, x, y);
                Ok(self.from_e(e))
            }
            _ => unreachable!(),
        }
    }

    fn alloc(&mut self, size: Val, align: u64, zero: bool) -> R<Val> {
        let n = self.conc(size)?;
        let a = self.new_obj(n, 0, align as u32)?;
        if zero {
            self.objs[(a >> 32) as usize].st.fill(0);
        }
        Ok(Val::C(a))
    }
    fn dealloc(&mut self, a: u64) -> R<()> {
        let id = (a >> 32) as usize;
        if id < self.nglob || id >= self.objs.len() || self.objs[id].kind != 0 || a & 0xffff_ffff != 0 {
            return Err(Stop::MemErr(format!("bad free of {:#x} in {}", a, self.stack())));
        }
        self.kill_obj(id);
        Ok(())
    }
    fn realloc(&mut self, p: u64, new: u64) -> R<Val> {
        let id = (p >> 32) as usize;
        if id >= self.objs.len() || self.objs[id].kind != 0 {
            return Err(Stop::MemErr(format!("bad realloc in {}", self.stack())));
        }
        let old = self.objs[id].size as u64;
        let a = self.new_obj(new, 0, 16)?;
        self.memcpy(a, p, old.min(new) as usize)?;
        self.kill_obj(id);
        Ok(Val::C(a))
    }

    fn arith_o(&mut self, w: u32, a: Val, b: Val, op: Op, signed: bool) -> R<Val> {
        if w > 64 {
            return Err(Stop::Unsupported("wide overflow intrinsic".into()));
        }
        let (x, y) = (self.to_e(a, w)?, self.to_e(b, w)?);
        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
        let (xx, yy) = if signed { (self.ex.sext(x, ww), self.ex.sext(y, ww)) } else { (self.ex.zext(x, ww), self.ex.zext(y, ww)) };
        let r = self.ex.bin(op, x, y);
        let rr = self.ex.bin(op, xx, yy);
        let back = if signed { self.ex.sext(r, ww) } else { self.ex.zext(r, ww) };
        let eq = self.ex.bin(Op::Eq, rr, back);
        let o = self.ex.not1(eq);
        let (r, o) = (self.from_e(r), self.from_e(o));
        Ok(self.agg(&[r, o]))
    }

    fn builtin(&mut self, bi: B, fi: u32, args: &[Val]) -> R<Val> {
        let zero = Val::C(0);
        match bi {
            B::Body => unreachable!(),
            B::Undefined => Err(Stop::Unsupported(format!("call to {} in {}", self.fname(fi), self.stack()))),
            B::Alloc => {
                let al = self.conc(args[1])?;
                self.alloc(args[0], al, false)
            }
            B::AllocZ => {
                let al = self.conc(args[1])?;
                self.alloc(args[0], al, true)
            }
            B::Dealloc => {
                let a = self.conc(args[0])?;
                self.dealloc(a)?;
                Ok(zero)
            }
            B::Realloc => {
                let p = self.conc(args[0])?;
                let n = self.conc(args[3])?;
                self.realloc(p, n)
            }
            B::NoShim | B::Nop => Ok(zero),
            B::Malloc => self.alloc(args[0], 16, false),
            B::Calloc => {
                let (a, b) = (self.conc(args[0])?, self.conc(args[1])?);
                self.alloc(Val::C(a * b), 16, true)
            }
            B::Free => {
                let a = self.conc(args[0])?;
                if a != 0 {
                    self.dealloc(a)?;
                }
                Ok(zero)
            }
            B::CRealloc => {
                let (p, n) = (self.conc(args[0])?, self.conc(args[1])?);
                if p == 0 {
                    return self.alloc(Val::C(n), 16, false);
                }
                self.realloc(p, n)
            }
            B::PosixMemalign => {
                let v = self.alloc(args[2], 16, false)?;
                self.store_int(args[0], 64, v)?;
                Ok(zero)
            }
            B::Panic => Err(Stop::Panic(format!("{} < {}", self.fname(fi), self.stack()))),
            B::Abort => Err(Stop::Abort(format!("{} < {}", self.fname(fi), self.stack()))),
            B::MemCpy => {
                let n = self.conc(args[2])?;
                let (d, s) = (self.conc(args[0])?, self.conc(args[1])?);
                self.memcpy(d, s, n as usize)?;
                Ok(args[0])
            }
            B::MemSet => {
                let n = self.conc(args[2])? as usize;
                let d = self.conc(args[0])?;
                if n > 0 {
                    let (id, off) = self.chk(d, n)?;
                    self.wr(id)?;
                    match args[1] {
                        Val::C(v) => {
                            let o = &mut self.objs[id];
                            o.data[off..off + n].fill(v as u8);
                            o.st[off..off + n].fill(0);
                        }
                        v => {
                            let e = self.to_e(v, 8)?;
                            let e = if self.ex.w(e) > 8 { self.ex.extract(e, 0, 8) } else { e };
                            for i in 0..n {
                                self.put_byte(id, off + i, e);
                            }
                        }
                    }
                }
                Ok(args[0])
            }
            B::Bcmp => {
                let n = self.conc(args[2])? as usize;
                let (p, q) = (self.conc(args[0])?, self.conc(args[1])?);
                let e = self.bytes_eq(p, q, n)?;
                let (o, z) = (self.ex.cst(32, 1), self.ex.cst(32, 0));
                let r = self.ex.ite(e, z, o);
                Ok(self.from_e(r))
            }
            B::Memcmp => {
                let n = self.conc(args[2])? as usize;
                let (p, q) = (self.conc(args[0])?, self.conc(args[1])?);
                let mut r = self.ex.cst(32, 0);
                if n > 0 {
                    let (pi, po) = self.chk(p, n)?;
                    let (qi, qo) = self.chk(q, n)?;
                    for i in (0..n).rev() {
                        let a = self.byte_e(pi, po + i);
                        let b = self.byte_e(qi, qo + i);
                        let eq = self.ex.bin(Op::Eq, a, b);
                        let lt = self.ex.bin(Op::Ult, a, b);
                        let (l, g) = (self.ex.cst(32, 0xffff_ffff), self.ex.cst(32, 1));
                        let d = self.ex.ite(lt, l, g);
                        r = self.ex.ite(eq, r, d);
                    }
                }
                Ok(self.from_e(r))
            }
            B::Strlen => {
                let p = self.conc(args[0])?;
                for i in 0..1 << 20 {
                    let v = self.load_c(p + i, 1, 8)?;
                    let c = self.icmp(Pred::Eq, 8, v, zero)?;
                    let t = match c {
                        Val::C(k) => k != 0,
                        Val::E(e) => self.decide(e)?,
                        _ => unreachable!(),
                    };
                    if t {
                        return Ok(Val::C(i));
                    }
                }
                Err(Stop::Budget("strlen".into()))
            }
            B::RandKeys => Ok(self.agg(&[Val::C(0x1234_5678), Val::C(0x9abc_def0)])),
            B::UMax(w) => self.cmp_sel(Pred::Ugt, w, args[0], args[1]),
            B::UMin(w) => self.cmp_sel(Pred::Ult, w, args[0], args[1]),
            B::SMax(w) => self.cmp_sel(Pred::Sgt, w, args[0], args[1]),
            B::SMin(w) => self.cmp_sel(Pred::Slt, w, args[0], args[1]),
            B::USubSat(w) => {
                let d = self.bin(Bin::Sub, w, args[0], args[1])?;
                let c = self.icmp(Pred::Ult, w, args[0], args[1])?;
                let c = self.to_e(c, 1)?;
                let (z, d) = (self.ex.cst(w, 0), self.to_e(d, w)?);
                let e = self.ex.ite(c, z, d);
                Ok(self.from_e(e))
            }
            B::UAddSat(w) => {
                let d = self.bin(Bin::Add, w, args[0], args[1])?;
                let c = self.icmp(Pred::Ult, w, d, args[0])?;
                let c = self.to_e(c, 1)?;
                let (z, d) = (self.ex.cst(w, !0), self.to_e(d, w)?);
                let e = self.ex.ite(c, z, d);
                Ok(self.from_e(e))
            }
            B::SSubSat(w) | B::SAddSat(w) => {
                let (x, y) = (self.conc(args[0])?, self.conc(args[1])?);
                let (x, y) = (sx64(x, w) as i128, sx64(y, w) as i128);
                let r = if let B::SSubSat(_) = bi { x - y } else { x + y };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                Ok(Val::C(r.clamp(lo, hi) as u64 & mask(w)))
            }
            B::UAddO(w) => self.arith_o(w, args[0], args[1], Op::Add, false),
            B::USubO(w) => self.arith_o(w, args[0], args[1], Op::Sub, false),
            B::UMulO(w) => self.arith_o(w, args[0], args[1], Op::Mul, false),
            B::SAddO(w) => self.arith_o(w, args[0], args[1], Op::Add, true),
            B::SSubO(w) => self.arith_o(w, args[0], args[1], Op::Sub, true),
            B::SMulO(w) => self.arith_o(w, args[0], args[1], Op::Mul, true),
            B::Ctlz(w) => {
                if w > 64 {
                    return Err(Stop::Unsupported("ctlz".into()));
                }
                self.map1(args[0], w, w, |x| if x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) })
            }
            B::Cttz(w) => {
                if w > 64 {
                    return Err(Stop::Unsupported("cttz".into()));
                }
                match args[0] {
                    Val::E(e) if self.ex.unary(e).is_none() => {
                        // first set bit: decide bit by bit (keeps the bits symbolic)
                        for i in 0..w {
                            let b = self.ex.extract(e, i, 1);
                            if self.decide(b)? {
                                return Ok(Val::C(i as u64));
                            }
                        }
                        Ok(Val::C(w as u64))
                    }
                    v => self.map1(v, w, w, |x| if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }),
                }
            }
            B::Ctpop(w) => self.map1(args[0], w, w, |x| x.count_ones() as u64),
            B::BitRev(w) => self.map1(args[0], w, w, |x| x.reverse_bits() >> (64 - w)),
            B::Bswap(w) => {
                let e = self.to_e(args[0], w)?;
                let n = w / 8;
                let mut r = self.ex.extract(e, 0, 8);
                for i in 1..n {
                    let b = self.ex.extract(e, 8 * i, 8);
                    r = self.ex.concat(r, b);
                }
                Ok(self.from_e(r))
            }
            B::Fshl(w) | B::Fshr(w) => {
                let s = self.conc(args[2])? % w as u64;
                let (a, b) = (self.to_e(args[0], w)?, self.to_e(args[1], w)?);
                let s = s as u32;
                let r = if let B::Fshl(_) = bi {
                    if s == 0 {
                        a
                    } else {
                        let h = self.ex.extract(a, 0, w - s);
                        let l = self.ex.extract(b, w - s, s);
                        self.ex.concat(h, l)
                    }
                } else if s == 0 {
                    b
                } else {
                    let h = self.ex.extract(a, 0, s);
                    let l = self.ex.extract(b, s, w - s);
                    self.ex.concat(h, l)
                };
                Ok(self.from_e(r))
            }
            B::Abs(w) => {
                let n = self.bin(Bin::Sub, w, zero, args[0])?;
                self.cmp_sel(Pred::Sgt, w, args[0], n)
            }
            B::UCmp(w) | B::SCmp(w) => {
                let (p, q) = if let B::UCmp(_) = bi { (Pred::Ult, Pred::Eq) } else { (Pred::Slt, Pred::Eq) };
                let lt = self.icmp(p, w, args[0], args[1])?;
                let eq = self.icmp(q, w, args[0], args[1])?;
                let (lt, eq) = (self.to_e(lt, 1)?, self.to_e(eq, 1)?);
                let (m1, z, p1) = (self.ex.cst(8, 0xff), self.ex.cst(8, 0), self.ex.cst(8, 1));
                let r = self.ex.ite(eq, z, p1);
                let r = self.ex.ite(lt, m1, r);
                Ok(self.from_e(r))
            }
            B::Ident => Ok(args[0]),
            B::IsConst => Ok(zero),
            B::Fabs => {
                let x = self.conc(args[0])?;
                Ok(Val::C(x & !(1 << 63)))
            }
            B::SymByte | B::SymChoice => {
                let i = self.nvars;
                if i >= MAXV {
                    return Err(Stop::Unsupported("too many symbolic bytes".into()));
                }
                self.nvars += 1;
                self.dom.push([!0; 4]);
                self.ent.push(false);
                let e = self.ex.var(i);
                if bi == B::SymChoice {
                    let n = self.conc(args[0])?;
                    if n == 0 || n > 256 {
                        return Err(Stop::Unsupported("sym_choice range".into()));
                    }
                    if n < 256 {
                        let k = self.ex.cst(8, n as u128);
                        let c = self.ex.bin(Op::Ult, e, k);
                        if self.ex.k(c).is_none() {
                            self.add(c, false);
                        }
                    }
                    let v = self.concretize(e)?;
                    return Ok(Val::C(v));
                }
                Ok(Val::E(e))
            }
            B::SymAssume => match args[0] {
                Val::C(0) => Err(Stop::Dead),
                Val::C(_) => Ok(zero),
                Val::E(e) => {
                    self.no_undef(e, "assume")?;
                    let (ft, _) = if self.dpos < self.prefix.len() { (true, true) } else { self.feas(e)? };
                    if !ft {
                        let n = self.ex.not1(e);
                        self.add(n, true);
                        return Err(Stop::Dead);
                    }
                    self.add(e, false);
                    Ok(zero)
                }
                _ => Err(Stop::Unsupported("assume".into())),
            },
            B::SymCheck => {
                self.stats.checks += 1;
                let id = self.conc(args[1])? as u32;
                let e = self.to_e(args[0], 1)?;
                self.no_undef(e, "check")?;
                if self.ex.k(e) != Some(1) {
                    self.checks.push((e, id));
                    if self.ex.k(e) == Some(0) {
                        return Err(Stop::Done); // definitely violated here
                    }
                }
                Ok(zero)
            }
            B::SymObserve => {
                let n = self.conc(args[1])? as usize;
                let p = self.conc(args[0])?;
                for i in 0..n {
                    let v = self.load_c(p + i as u64, 1, 8)?;
                    self.obs.push((v, 8));
                }
                Ok(zero)
            }
            B::SymReach => {
                let id = self.conc(args[0])? as u32;
                *self.reach.entry(id).or_insert(0) += 1;
                Ok(zero)
            }
            B::SymTag => {
                self.cur_tag = self.conc(args[0])?;
                Ok(zero)
            }
        }
    }

    // ---------------------------------------------------------------- leaf verdict
    /// Let z3 decide the finished path: the path condition must be satisfiable (its model is
    /// kept for native validation), and (path condition) && !(every implied decision and every
    /// check) must be unsatisfiable.
    pub fn finish(&mut self, stop: &Stop, viol: &mut Vec<Violation>) -> Result<Option<Leaf>, String> {
        if *stop == Stop::Dead {
            self.stats.dead += 1;
        }
        // One path in 64 is also decided on the formulas exactly as recorded, without folding.
        self.audit += 1;
        let raw = self.audit % 64 == 1;
        let mut model = [0u8; 128];
        let mut have = false;
        if self.wit_ok && !raw {
            self.ex.new_assign();
            have = (0..self.nvars).all(|v| self.in_dom(v, self.wit[v] as usize));
            for i in 0..self.pc.len() {
                have = have && self.ex.eval(self.pc[i], &self.wit) != 0;
            }
        }
        if have {
            model = self.wit;
        } else {
            self.assert_pc(raw);
            match self.z.check() {
                Res::Sat => {
                    self.stats.leaf_sat += 1;
                    self.z.model(&mut self.ex, self.nvars, &mut model);
                }
                Res::Unsat => return Err("explored path has an unsatisfiable condition".into()),
                Res::Unknown => return Err("z3: unknown on path condition".into()),
            }
        }
        let input = model[..self.nvars].to_vec();
        // The path condition must imply every decision taken as implied and every check.
        let mut fs: Vec<E> = self.forced.clone();
        let checks = self.checks.clone();
        fs.extend(checks.iter().map(|c| c.0));
        fs.sort_unstable();
        fs.dedup();
        if !fs.is_empty() {
            let mut mem: Vec<(usize, [u64; 4])> = vec![];
            let mut rest = vec![];
            for e in &fs {
                match self.ex.unary(*e) {
                    Some(v) if !raw => {
                        let t = self.ex.table(*e);
                        let j = match mem.iter().position(|m| m.0 == v) {
                            Some(j) => j,
                            None => {
                                mem.push((v, [!0; 4]));
                                mem.len() - 1
                            }
                        };
                        for x in 0..256 {
                            if t[x] == 0 {
                                mem[j].1[x >> 6] &= !(1 << (x & 63));
                            }
                        }
                    }
                    _ => rest.push(*e),
                }
            }
            mem.sort_unstable();
            // A set equal to the byte's own path set repeats an asserted conjunct.
            self.assert_pc(raw);
            self.z.assert_not_all(&mut self.ex, &rest, &mem);
            match self.z.check() {
                Res::Unsat => self.stats.leaf_unsat += 1,
                Res::Unknown => return Err("z3: unknown on implied decisions and checks".into()),
                Res::Sat => {
                    let mut mm = [0u8; 128];
                    self.z.model(&mut self.ex, self.nvars, &mut mm);
                    self.ex.new_assign();
                    for i in 0..self.forced.len() {
                        if self.ex.eval(self.forced[i], &mm) == 0 {
                            return Err("z3 refuted a decision the engine took as implied".into());
                        }
                    }
                    for (e, id) in &checks {
                        if self.ex.eval(*e, &mm) == 0 {
                            viol.push(Violation { kind: "check".into(), id: *id, detail: String::new(), input: mm[..self.nvars].to_vec() });
                            return Ok(None);
                        }
                    }
                    return Err("z3 model does not falsify anything".into());
                }
            }
        }
        let outcome = match stop {
            Stop::Done => 0,
            Stop::Dead => return Ok(None),
            Stop::Panic(d) => {
                viol.push(Violation { kind: "panic".into(), id: 0, detail: d.clone(), input: input.clone() });
                return Ok(None);
            }
            Stop::Abort(d) => {
                viol.push(Violation { kind: "abort".into(), id: 0, detail: d.clone(), input: input.clone() });
                return Ok(None);
            }
            Stop::MemErr(d) => {
                viol.push(Violation { kind: "memory".into(), id: 0, detail: d.clone(), input: input.clone() });
                return Ok(None);
            }
            Stop::Uninit(d) => {
                viol.push(Violation { kind: "uninit".into(), id: 0, detail: d.clone(), input: input.clone() });
                return Ok(None);
            }
            Stop::Unreachable(d) => {
                viol.push(Violation { kind: "unreachable".into(), id: 0, detail: d.clone(), input: input.clone() });
                return Ok(None);
            }
            Stop::Budget(d) => {
                viol.push(Violation { kind: "hang".into(), id: 0, detail: d.clone(), input: input.clone() });
                return Ok(None);
            }
            Stop::Unsupported(d) | Stop::Inconclusive(d) => return Err(d.clone()),
        };
        // observations under the model
        self.ex.new_assign();
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        let obs = std::mem::take(&mut self.obs);
        for (v, _) in &obs {
            let b = match v {
                Val::C(c) => *c as u8,
                Val::E(e) => self.ex.eval(*e, &model) as u8,
                _ => 0,
            };
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        *self.tags.entry(self.cur_tag).or_insert(0) += 1;
        self.stats.paths += 1;
        Ok(Some(Leaf { input, outcome, obs: h, tags: self.cur_tag }))
    }
}

fn edges_eq(a: &Edge, b: &Edge) -> bool {
    if a.copies.len() != b.copies.len() {
        return false;
    }
    a.copies.iter().zip(b.copies.iter()).all(|(x, y)| {
        x.0 == y.0
            && match (&x.1, &y.1) {
                (Opnd::R(p), Opnd::R(q)) => p == q,
                (Opnd::C(p), Opnd::C(q)) => p == q,
                (Opnd::W(p), Opnd::W(q)) => p == q,
                _ => false,
            }
    })
}
