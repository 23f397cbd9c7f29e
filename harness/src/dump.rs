//! Both representations of a program written as the same stream of bytes, with the positions of
//! the nodes on the side: once from the reference tree, once from the tree the parser built.
use crate::src::Tok;
use crate::sym;
use crate::tree::*;

/// A position the existing tests fix to something else than the obvious, or that is not defined.
pub const WILD: u32 = u32::MAX;

pub struct Dump {
    pub out: Vec<u8>,
    pub sp: Vec<(u32, u32)>,
    /// write arrow functions as function expressions
    pub lower: bool,
    /// how many of them there were
    pub arrows: usize,
}

/// Compare without branching on the symbolic bytes.
pub fn same(a: &[u8], b: &[u8], id: u32) {
    sym::check(a.len() == b.len(), id);
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    sym::check(d == 0, id);
}
pub fn same_spans(expected: &[(u32, u32)], got: &[(u32, u32)], id: u32) {
    sym::check(expected.len() == got.len(), id);
    let mut ok = true;
    for i in 0..expected.len() {
        let (s, e) = expected[i];
        ok &= s == WILD || s == got[i].0;
        ok &= e == WILD || e == got[i].1;
    }
    sym::check(ok, id);
}

pub fn put(out: &mut Vec<u8>, s: &[u8]) {
    out.push(s.len() as u8);
    out.extend_from_slice(s);
}

// ---------------------------------------------------------------------------------------------
// reference

struct R<'w> {
    d: Dump,
    toks: &'w [Tok],
}
/// Whether the start and the end are unspecified.
type Wd = (bool, bool);
const OK: Wd = (false, false);

pub fn reference(b: &[St], toks: &[Tok]) -> Dump {
    let mut r = R { d: Dump { out: Vec::with_capacity(256), sp: Vec::with_capacity(64), lower: false, arrows: 0 }, toks };
    r.list(b);
    r.d
}

impl<'w> R<'w> {
    fn open(&mut self, tag: u8) -> usize {
        self.d.out.push(tag);
        self.d.sp.push((WILD, WILD));
        self.d.sp.len() - 1
    }
    fn close(&mut self, at: usize, t: &Sp, w: Wd) -> Wd {
        let s = if w.0 { WILD } else { self.toks[t.i.get() as usize].s };
        let e = if w.1 { WILD } else { self.toks[t.j.get() as usize - 1].e };
        self.d.sp[at] = (s, e);
        w
    }
    fn b(&mut self, x: u8) {
        self.d.out.push(x)
    }
    fn s(&mut self, s: &[u8]) {
        put(&mut self.d.out, s)
    }
    fn name(&mut self, n: &Name, w: Wd) {
        let at = self.open(b'n');
        self.s(&n.n);
        self.close(at, &n.t, w);
    }
    fn oname(&mut self, n: &Option<Name>) {
        match n {
            Some(n) => self.name(n, OK),
            None => self.b(b'-'),
        }
    }
    /// A child at the left edge of a node: what it says about the start of the node.
    fn left(&mut self, n: &N, t: &Sp) -> bool {
        self.e(n).0 || n.t.i.get() != t.i.get()
    }
    fn right(&mut self, n: &N, t: &Sp) -> bool {
        self.e(n).1 || n.t.j.get() != t.j.get()
    }
    fn es(&mut self, v: &[N]) {
        self.b(v.len() as u8);
        for x in v {
            self.e(x);
        }
    }
    fn e(&mut self, n: &N) -> Wd {
        let t = &n.t;
        let mut w = OK;
        let tag = match &n.k {
            K::Id(_) => b'I',
            K::This => b'T',
            K::Lit(..) => b'L',
            K::Seq(_) => b'S',
            K::Arr(_) => b'A',
            K::Mem(..) => b'M',
            K::CMem(..) => b'C',
            K::Target => b'G',
            K::Call(..) => b'K',
            K::Bin(..) => b'B',
            K::Pre(..) | K::New(..) => b'P',
            K::Post(..) => b'Q',
            K::Cond(..) => b'?',
            K::Tpl(_) => b'`',
            K::Tag(..) => b't',
            K::Spread(_) => b'.',
            K::Arrow(..) => b'>',
            K::Obj(_) => b'{',
            K::Fun(_) => b'F',
            K::Class(_) => b'X',
        };
        let at = self.open(tag);
        match &n.k {
            K::This | K::Target => {}
            K::Id(v) => self.s(v),
            K::Lit(k, v) => {
                self.b(*k);
                self.s(v);
            }
            K::Seq(v) => {
                self.b(v.len() as u8);
                for (i, x) in v.iter().enumerate() {
                    if i == 0 {
                        w.0 = self.left(x, t);
                    } else {
                        self.e(x);
                    }
                }
                w.1 = true;
            }
            K::Arr(v) => {
                self.b(v.len() as u8);
                for x in v {
                    match x {
                        Some(x) => {
                            self.e(x);
                        }
                        None => {
                            self.open(b'V');
                        }
                    }
                }
            }
            K::Mem(o, m) => {
                w = (self.left(o, t), true);
                self.name(m, (true, true));
            }
            K::CMem(o, p) => {
                w.0 = self.left(o, t);
                self.e(p);
            }
            K::Call(c, a) => {
                self.e(c);
                self.es(a);
                w.0 = true;
            }
            K::Bin(o, l, r) => {
                self.s(OPS[*o].0.as_bytes());
                w.0 = self.left(l, t);
                w.1 = self.right(r, t);
            }
            K::Pre(o, x) => {
                self.s(PRES[*o].as_bytes());
                w.1 = self.right(x, t);
            }
            K::New(c, a, ct) => {
                self.s(b"new");
                w.1 = true;
                match a {
                    Some(a) => {
                        let at = self.open(b'K');
                        self.e(c);
                        self.es(a);
                        self.close(at, ct, (true, false));
                    }
                    // a call in parentheses is called with no arguments
                    None if matches!(c.k, K::Call(..)) => {
                        let at = self.open(b'K');
                        self.e(c);
                        self.b(0);
                        self.close(at, &c.t, (true, false));
                    }
                    None => {
                        self.e(c);
                    }
                }
            }
            K::Post(o, x) => {
                self.s(PRES[*o].as_bytes());
                w.0 = self.left(x, t);
            }
            K::Cond(c, x, y) => {
                w.0 = self.left(c, t);
                self.e(x);
                w.1 = self.right(y, t);
            }
            K::Tpl(x) => self.tpl(x),
            K::Tag(x, q) => {
                w.0 = self.left(x, t);
                let at = self.open(b'`');
                self.tpl(q);
                self.close(at, &q.t, OK);
            }
            K::Spread(x) => w.1 = self.right(x, t),
            K::Arrow(ps, bare, b) => {
                w.0 = !*bare && !ps.is_empty();
                self.pats(ps);
                match b {
                    Body::Expr(x) => {
                        self.b(b'e');
                        w.1 = self.right(x, t);
                    }
                    Body::Block(b, t) => self.block(b, t),
                }
            }
            K::Obj(ps) => self.props(ps),
            K::Fun(f) => self.fun(f),
            K::Class(c) => self.class(c),
        }
        self.close(at, t, w)
    }
    fn tpl(&mut self, t: &Tpl) {
        self.b(t.quasis.len() as u8);
        for q in &t.quasis {
            let _ = self.open(b'q');
            self.s(q);
        }
        self.es(&t.exprs);
    }
    fn key(&mut self, k: &Key) {
        let at = self.open(b'k');
        match &k.k {
            KeyK::Lit(v, _) => {
                self.b(b'l');
                self.s(v);
            }
            KeyK::Bin(v) => {
                self.b(b'b');
                self.s(v);
            }
            KeyK::Comp(x) => {
                self.b(b'c');
                self.e(x);
            }
        }
        self.close(at, &k.t, OK);
    }
    fn props(&mut self, v: &[Prop]) {
        self.b(v.len() as u8);
        for p in v {
            let at = self.open(b'p');
            let mut w = OK;
            match &p.k {
                PropK::Short(v) => {
                    self.b(b's');
                    self.s(v);
                }
                PropK::Kv(k, x) => {
                    self.b(b'v');
                    self.key(k);
                    w.1 = self.right(x, &p.t);
                }
                PropK::Method(k, f) => {
                    self.b(b'm');
                    self.key(k);
                    self.method(f);
                }
                PropK::Spread(x) => {
                    self.b(b'.');
                    w.1 = self.right(x, &p.t);
                }
            }
            self.close(at, &p.t, w);
        }
    }
    fn method(&mut self, f: &Fun) {
        let at = self.open(b'f');
        self.fun(f);
        self.close(at, &f.t, OK);
    }
    fn pats(&mut self, v: &[Pat]) {
        self.b(v.len() as u8);
        for p in v {
            self.pat(p);
        }
    }
    fn pat(&mut self, p: &Pat) -> Wd {
        let tag = match &p.k {
            PatK::Void => b'V',
            PatK::Id(_) => b'i',
            PatK::Obj(_) => b'o',
            PatK::Arr(_) => b'a',
            PatK::Rest(_) => b'r',
            PatK::Assign(..) => b'=',
        };
        let at = self.open(tag);
        let mut w = OK;
        match &p.k {
            PatK::Void => return (true, true),
            PatK::Id(v) => self.s(v),
            PatK::Obj(ps) => self.props(ps),
            PatK::Arr(v) => self.pats(v),
            PatK::Rest(n) => self.name(n, OK),
            PatK::Assign(l, r) => {
                w.0 = self.pat(l).0;
                w.1 = self.right(r, &p.t);
            }
        }
        self.close(at, &p.t, w)
    }
    fn fun(&mut self, f: &Fun) {
        self.oname(&f.name);
        self.b(f.gen as u8);
        self.pats(&f.params);
        self.block(&f.body, &f.bt);
    }
    fn class(&mut self, c: &Cls) {
        self.oname(&c.name);
        match &c.ext {
            Some(x) => {
                self.b(b'x');
                self.e(x);
            }
            None => self.b(b'-'),
        }
        let at = self.open(b'b');
        self.b(c.members.len() as u8);
        for m in &c.members {
            let at = self.open(b'm');
            self.b(m.stat as u8);
            self.key(&m.key);
            let mut w = OK;
            match &m.k {
                MemberK::Method(f) => {
                    self.b(m.kind);
                    self.method(f);
                }
                MemberK::Value(x) => {
                    self.b(b'v');
                    w.1 = self.right(x, &m.t);
                }
            }
            self.close(at, &m.t, w);
        }
        self.close(at, &c.bt, OK);
    }
    fn block(&mut self, b: &[St], t: &Sp) {
        let at = self.open(b'b');
        self.list(b);
        self.close(at, t, OK);
    }
    pub fn list(&mut self, b: &[St]) {
        self.b(b.len() as u8);
        for s in b {
            self.st(s);
        }
    }
    fn oe(&mut self, x: &Option<N>) {
        match x {
            Some(x) => {
                self.e(x);
            }
            None => self.b(b'-'),
        }
    }
    /// Returns whether the end of the last one is unspecified.
    fn decls(&mut self, k: u8, v: &[Decl]) -> bool {
        self.b(k);
        self.b(v.len() as u8);
        let mut wild = false;
        for d in v {
            let at = self.open(b'd');
            let mut w = OK;
            w.0 = self.pat(&d.id).0;
            match &d.init {
                Some(x) => w.1 = self.right(x, &d.t),
                None => self.b(b'-'),
            }
            wild = w.1;
            self.close(at, &d.t, w);
        }
        wild
    }
    fn init(&mut self, i: &ForInit) {
        match i {
            ForInit::Decl(k, v, t) => {
                let at = self.open(b'D');
                let w = self.decls(*k, v);
                self.close(at, t, (false, w));
            }
            ForInit::Expr(x) => {
                let at = self.open(b'E');
                let w = self.e(x);
                self.close(at, &x.t, w);
            }
        }
    }
    /// A statement at the right edge of another.
    fn inner(&mut self, s: &St) -> bool {
        self.st(s).1
    }
    fn st(&mut self, s: &St) -> Wd {
        let t = &s.t;
        let tag = match &s.k {
            SK::Empty => b'0',
            SK::Debugger => b'1',
            SK::Expr(_) => b'2',
            SK::Decl(..) => b'3',
            SK::Ret(_) => b'4',
            SK::Break(_) => b'5',
            SK::Cont(_) => b'6',
            SK::Throw(_) => b'7',
            SK::If(..) => b'8',
            SK::While(..) => b'9',
            SK::Do(..) => b':',
            SK::For(..) => b';',
            SK::ForIn(..) => b'<',
            SK::ForOf(..) => b'=',
            SK::Try(..) => b'>',
            SK::Block(_) => b'?',
            SK::Labeled(..) => b'@',
            SK::Fun(_) => b'A',
            SK::Class(_) => b'B',
            SK::Switch(..) => b'C',
            SK::Import(..) => b'D',
        };
        let at = self.open(tag);
        let mut w = OK;
        match &s.k {
            SK::Empty | SK::Debugger => {}
            SK::Expr(x) => {
                w = self.e(x);
                w.0 |= x.t.i.get() != t.i.get();
                w.1 |= x.t.j.get() != t.j.get();
            }
            SK::Decl(k, v) => {
                let x = self.decls(*k, v);
                // the semicolon belongs to a declaration
                w.1 = x && self.last(v).t.j.get() == t.j.get();
            }
            SK::Ret(x) => {
                if let Some(x) = x {
                    w.1 = self.right(x, t);
                } else {
                    self.b(b'-');
                }
            }
            SK::Break(l) | SK::Cont(l) => self.oname(l),
            SK::Throw(x) => w.1 = self.right(x, t),
            SK::If(c, x, y) => {
                self.e(c);
                w.1 = self.inner(x);
                match y {
                    Some(y) => w.1 = self.inner(y),
                    None => self.b(b'-'),
                }
            }
            SK::While(c, x) => {
                self.e(c);
                w.1 = self.inner(x);
            }
            SK::Do(x, c) => {
                self.st(x);
                self.e(c);
            }
            SK::For(i, c, u, x) => {
                match i {
                    Some(i) => self.init(i),
                    None => self.b(b'-'),
                }
                self.oe(c);
                self.oe(u);
                w.1 = self.inner(x);
            }
            SK::ForIn(i, e, x) | SK::ForOf(i, e, x) => {
                self.init(i);
                self.e(e);
                w.1 = self.inner(x);
            }
            SK::Try(b, c, f) => {
                self.block(&b.b, &b.t);
                match c {
                    Some((p, b, t)) => {
                        let at = self.open(b'h');
                        self.pat(p);
                        self.block(&b.b, &b.t);
                        self.close(at, t, OK);
                    }
                    None => self.b(b'-'),
                }
                match f {
                    Some(b) => self.block(&b.b, &b.t),
                    None => self.b(b'-'),
                }
            }
            SK::Block(b) => self.list(b),
            SK::Labeled(l, x) => {
                self.s(l);
                w.1 = self.inner(x);
            }
            SK::Fun(f) => self.fun(f),
            SK::Class(c) => self.class(c),
            SK::Switch(x, cs, ct) => {
                self.e(x);
                let at = self.open(b'b');
                self.b(cs.len() as u8);
                for c in cs {
                    let at = self.open(b'c');
                    self.oe(&c.test);
                    self.list(&c.body);
                    // where a case ends is that of its last statement, whose semicolon may belong to it
                    self.close(at, &c.t, (false, true));
                }
                self.close(at, ct, OK);
            }
            SK::Import(v, src) => {
                self.b(v.len() as u8);
                for x in v {
                    let at = self.open(b's');
                    match &x.k {
                        SpecK::Default(n) => {
                            self.b(b'd');
                            self.name(n, (false, true));
                        }
                        SpecK::Namespace(n) => {
                            self.b(b'*');
                            self.name(n, (true, true));
                        }
                        SpecK::Named(n, l) => {
                            self.b(b'n');
                            self.name(n, (true, true));
                            self.name(l.as_ref().unwrap_or(n), (true, true));
                        }
                    }
                    self.close(at, &x.t, (false, true));
                }
                self.s(src);
            }
        }
        self.close(at, t, w)
    }
    fn last<'a>(&self, v: &'a [Decl]) -> &'a Decl {
        &v[v.len() - 1]
    }
}

