//! Arbitrary reference programs of a bounded depth. Structure is chosen (one path per choice),
//! names, digits and literal contents are arbitrary bytes of their class.
use crate::sym::*;
use crate::tree::*;

pub struct G {
    /// every operator instead of one per precedence level (at the outermost operators)
    pub ops: bool,
    /// leave out regular expressions and divisions
    pub noslash: bool,
    /// no empty statement after a do loop (which is printed without its semicolon)
    pub printed: bool,
    pub top: bool,
    /// operators only, all other operands are names
    pub spine: bool,
    /// names are A or B (2), or all different (1)
    pub few: u8,
    pub next: u8,
}

pub const NEXPR: usize = 26;

impl G {
    pub fn new(ops: bool) -> G {
        G { ops, noslash: false, printed: false, top: true, spine: false, few: 0, next: 0 }
    }
    /// A one-letter name (capital letters, which begin no keyword, so that lexing it takes no branch).
    pub fn id(&mut self) -> Bytes {
        if self.few == 1 {
            self.next += 1;
            return vec![b'A' + self.next - 1];
        }
        let b = byte();
        assume(b.wrapping_sub(b'A') < if self.few == 2 { 2 } else { 26 });
        vec![b]
    }
    pub fn name(&mut self) -> Name {
        let n = self.id();
        name(n)
    }
    pub fn leaf(&mut self) -> N {
        let v = self.id();
        n(K::Id(v))
    }
    fn bleaf(&mut self) -> B {
        b(self.leaf())
    }
    pub fn num(&mut self) -> Bytes {
        let d = byte();
        assume(d.wrapping_sub(b'1') < 9);
        vec![d]
    }
    /// An ordinary character of a string, template or regular expression: 0-9 : ; < = > ? @ A-Z
    pub fn plain(&mut self) -> u8 {
        let c = byte();
        assume(c.wrapping_sub(b'0') < 43);
        c
    }
    fn string(&mut self) -> Bytes {
        let c = self.plain();
        vec![b'"', c, b'"']
    }
    /// Which of n children goes to full depth.
    fn hot(&mut self, d: usize, n: usize) -> usize {
        if d == 0 {
            n
        } else {
            choice(n)
        }
    }
    fn sub(&mut self, d: usize, hot: bool) -> N {
        if hot {
            self.expr(d)
        } else {
            self.leaf()
        }
    }
    /// An expression of depth at most d.
    pub fn expr(&mut self, d: usize) -> N {
        if d == 0 {
            return self.leaf();
        }
        if self.spine {
            return self.operator(d - 1);
        }
        let k = choice(NEXPR);
        self.construct(k, d - 1)
    }
    fn bx(&mut self, d: usize, hot: bool) -> B {
        b(self.sub(d, hot))
    }
    fn two(&mut self, d: usize) -> (B, B) {
        let h = self.hot(d, 2);
        let l = self.bx(d, h == 0);
        let r = self.bx(d, h == 1);
        (l, r)
    }
    fn binop(&mut self, all: bool) -> usize {
        let o = if all { choice(NBIN) } else { REPS[choice(REPS.len())] };
        if self.noslash {
            assume(o != 3);
        }
        o
    }
    pub fn op(&mut self) -> usize {
        let all = self.ops;
        self.binop(all)
    }
    /// Something that may be assigned to.
    pub fn target(&mut self, d: usize) -> N {
        match if d == 0 { 0 } else { choice(3) } {
            0 => self.leaf(),
            1 => {
                let o = self.expr(d - 1);
                let m = self.name();
                n(K::Mem(b(o), m))
            }
            _ => {
                let (o, p) = self.two(d - 1);
                n(K::CMem(o, p))
            }
        }
    }
    /// An operator of any precedence level with at most one operand that is not a name.
    fn operator(&mut self, d: usize) -> N {
        let k = [7, 9, 10, 12, 13, 14, 15, 17, 18, 19, 20, 21, 25][choice(13)];
        n(match k {
            9 => {
                let o = b(self.expr(d));
                K::Mem(o, self.name())
            }
            10 => {
                let o = b(self.expr(d));
                K::CMem(o, self.bleaf())
            }
            12 => {
                let o = b(self.expr(d));
                K::Call(o, vec![self.leaf()])
            }
            13 => {
                let o = self.binop(false);
                let (l, r) = self.two(d);
                K::Bin(o, l, r)
            }
            14 => {
                let h = self.hot(d, 2);
                let l = if h == 0 { self.target(d) } else { self.leaf() };
                let r = self.bx(d, h == 1);
                K::Bin(NBIN, b(l), r)
            }
            15 => {
                let o = [0, 1, 2, 4][choice(4)];
                K::Pre(o, b(self.expr(d)))
            }
            17 => {
                let o = 7 + choice(2);
                K::Post(o, b(self.target(d)))
            }
            18 => {
                let h = self.hot(d, 3);
                let t = self.bx(d, h == 0);
                let c = self.bx(d, h == 1);
                let a = self.bx(d, h == 2);
                K::Cond(t, c, a)
            }
            19 => {
                let o = 7 + choice(2);
                K::Pre(o, b(self.target(d)))
            }
            20 => {
                let t = b(self.expr(d));
                K::Tag(t, self.tpl(0))
            }
            21 => {
                let p = self.pid();
                K::Arrow(vec![p], true, Body::Expr(b(self.expr(d))))
            }
            25 => {
                let c = self.expr(d);
                if choice(2) == 0 {
                    K::New(b(c), None, Sp::default())
                } else {
                    K::New(b(c), Some(vec![]), Sp::default())
                }
            }
            _ => {
                let (l, r) = self.two(d);
                K::Seq(vec![*l, *r])
            }
        })
    }
    pub fn construct(&mut self, k: usize, d: usize) -> N {
        let all = std::mem::replace(&mut self.top, false) && self.ops;
        let r = match k {
            0 => return self.leaf(),
            1 => K::This,
            2 => K::Lit(b'n', self.num()),
            3 => {
                let x = byte();
                assume(x.wrapping_sub(b'0') < 2);
                K::Lit(b'b', vec![b'0', b'b', x])
            }
            4 => K::Lit(b's', self.string()),
            5 => {
                assume(!self.noslash);
                let c = self.plain();
                K::Lit(b'r', vec![b'/', c, b'/', b'g'])
            }
            6 => match choice(4) {
                0 => K::Lit(b'U', b"undefined".to_vec()),
                1 => K::Lit(b'N', b"null".to_vec()),
                2 => K::Lit(b'T', b"true".to_vec()),
                _ => K::Lit(b'F', b"false".to_vec()),
            },
            7 => {
                let (l, r) = self.two(d);
                K::Seq(vec![*l, *r])
            }
            8 => K::Arr(match choice(6) {
                0 => vec![],
                1 => vec![Some(self.expr(d))],
                2 => {
                    let (l, r) = self.two(d);
                    vec![Some(*l), Some(*r)]
                }
                3 => {
                    let (l, r) = (self.leaf(), self.expr(d));
                    vec![Some(l), None, Some(r)]
                }
                4 => {
                    let e = self.expr(d);
                    vec![None, Some(n(K::Spread(b(e))))]
                }
                _ => {
                    let e = self.expr(d);
                    let l = self.leaf();
                    vec![Some(n(K::Spread(b(e)))), Some(l), None]
                }
            }),
            9 => {
                let o = b(self.expr(d));
                K::Mem(o, self.name())
            }
            10 => {
                let (o, p) = self.two(d);
                K::CMem(o, p)
            }
            11 => K::Target,
            12 => match choice(3) {
                0 => K::Call(b(self.expr(d)), vec![]),
                1 => {
                    let (c, a) = self.two(d);
                    K::Call(c, vec![*a])
                }
                _ => {
                    let c = self.bleaf();
                    let (x, y) = self.two(d);
                    K::Call(c, vec![*x, n(K::Spread(y))])
                }
            },
            13 => {
                let o = self.binop(all);
                let (l, r) = self.two(d);
                K::Bin(o, l, r)
            }
            14 => {
                let o = if all { NBIN + choice(OPS.len() - NBIN) } else { NBIN + choice(2) };
                if self.noslash {
                    assume(o != NBIN + 5);
                }
                let h = self.hot(d, 2);
                let l = if h == 0 { self.target(d) } else { self.leaf() };
                let r = self.bx(d, h == 1);
                K::Bin(o, b(l), r)
            }
            15 => {
                let o = if all || d == 0 { choice(7) } else { [1, 2, 4][choice(3)] };
                K::Pre(o, b(self.expr(d)))
            }
            16 => {
                let o = 7 + choice(2);
                K::Pre(o, b(self.target(d)))
            }
            17 => {
                let o = 7 + choice(2);
                K::Post(o, b(self.target(d)))
            }
            18 => {
                let h = self.hot(d, 3);
                let t = self.bx(d, h == 0);
                let c = self.bx(d, h == 1);
                let a = self.bx(d, h == 2);
                K::Cond(t, c, a)
            }
            19 => K::Tpl(self.tpl(d)),
            20 => {
                let h = self.hot(d, 2);
                let t = self.bx(d, h == 0);
                K::Tag(t, self.tpl(if h == 0 { 0 } else { d }))
            }
            21 => match choice(6) {
                0 => {
                    let p = self.pid();
                    K::Arrow(vec![p], true, Body::Expr(b(self.expr(d))))
                }
                1 => K::Arrow(vec![], false, Body::Expr(b(self.expr(d)))),
                2 => {
                    let p = self.pid();
                    let (x, y) = self.two(d);
                    let l = self.pid();
                    K::Arrow(vec![p, pat(PatK::Assign(Box::new(l), x))], false, Body::Expr(y))
                }
                3 => {
                    let p = self.pid();
                    K::Arrow(vec![p], false, Body::Block(vec![], Sp::default()))
                }
                4 => {
                    let p = self.pid();
                    let e = self.expr(d);
                    K::Arrow(vec![p], true, Body::Block(vec![st(SK::Ret(Some(e)))], Sp::default()))
                }
                _ => {
                    let e = self.expr(d);
                    K::Arrow(vec![], false, Body::Block(vec![st(SK::Expr(e))], Sp::default()))
                }
            },
            22 => K::Obj(self.props(d)),
            23 => K::Fun(self.fun(d, true)),
            24 => K::Class(self.class(d, true)),
            _ => {
                let c = self.expr(d);
                match choice(3) {
                    0 => {
                        K::New(b(c), None, Sp::default())
                    }
                    1 => K::New(b(c), Some(vec![]), Sp::default()),
                    _ => {
                        let a = self.leaf();
                        K::New(b(c), Some(vec![a]), Sp::default())
                    }
                }
            }
        };
        n(r)
    }
    pub fn pid(&mut self) -> Pat {
        let v = self.id();
        pat(PatK::Id(v))
    }
    fn quasi(&mut self) -> Bytes {
        vec![self.plain()]
    }
    fn tpl(&mut self, d: usize) -> Tpl {
        let (q, e) = match choice(4) {
            0 => (vec![self.quasi()], vec![]),
            1 => (vec![vec![], self.quasi()], vec![self.expr(d)]),
            2 => {
                let (x, y) = self.two(d);
                (vec![self.quasi(), vec![], self.quasi()], vec![*x, *y])
            }
            _ => (vec![vec![]], vec![]),
        };
        Tpl { quasis: q, exprs: e, t: Sp::default() }
    }
    /// A property key: name, string, number, binary number, computed.
    fn key(&mut self, d: usize, string: bool) -> Key {
        let c = if d == 0 { choice(5) } else { 4 };
        key(match c {
            0 => KeyK::Lit(self.id(), Tk::Word),
            1 => {
                assume(string);
                KeyK::Lit(self.string(), Tk::Str)
            }
            2 => KeyK::Lit(self.num(), Tk::Num),
            3 => KeyK::Bin(b"0b1".to_vec()),
            _ => KeyK::Comp(b(self.expr(d))),
        })
    }
    pub fn pkey(&mut self) -> Key {
        key(KeyK::Lit(self.id(), Tk::Word))
    }
    fn props(&mut self, d: usize) -> Vec<Prop> {
        match choice(7) {
            0 => vec![],
            1 => vec![prop(PropK::Short(self.id()))],
            2 => {
                let k = if d == 0 || choice(2) == 0 { self.key(0, true) } else { self.key(d, true) };
                let v = if d > 0 && matches!(k.k, KeyK::Comp(_)) { self.leaf() } else { self.expr(d) };
                vec![prop(PropK::Kv(k, v))]
            }
            3 => {
                let (x, y) = self.two(d);
                let (k, l) = (self.pkey(), self.pkey());
                vec![prop(PropK::Kv(k, *x)), prop(PropK::Kv(l, *y))]
            }
            4 => {
                let k = self.key(0, true);
                let f = self.method(d);
                vec![prop(PropK::Method(k, f))]
            }
            5 => {
                let e = self.expr(d);
                vec![prop(PropK::Spread(e)), prop(PropK::Short(self.id()))]
            }
            _ => {
                let (k, l) = (self.pkey(), self.pkey());
                let f = self.method(0);
                let e = self.expr(d);
                vec![prop(PropK::Method(k, f)), prop(PropK::Kv(l, e))]
            }
        }
    }
    /// Parameters and body without a name.
    fn method(&mut self, d: usize) -> Fun {
        match choice(3) {
            0 => fun(None, false, vec![], vec![]),
            1 => {
                let p = self.pid();
                let e = self.expr(d);
                fun(None, false, vec![p], vec![st(SK::Ret(Some(e)))])
            }
            _ => {
                let p = self.pid();
                let e = self.expr(d);
                fun(None, false, vec![pat(PatK::Assign(Box::new(p), b(e)))], vec![])
            }
        }
    }
    pub fn fun(&mut self, d: usize, expr: bool) -> Fun {
        let named = if expr { choice(2) == 1 } else { true };
        let n = if named { Some(self.name()) } else { None };
        match choice(6) {
            0 => fun(n, false, vec![], vec![]),
            1 => {
                let p = self.pid();
                let e = self.expr(d);
                fun(n, true, vec![p], vec![st(SK::Ret(Some(e)))])
            }
            2 => {
                let p = self.pid();
                let q = self.pid();
                let e = self.expr(d);
                fun(n, false, vec![p, pat(PatK::Assign(Box::new(q), b(e)))], vec![])
            }
            3 => {
                let (p, r) = (self.pid(), self.name());
                fun(n, false, vec![p, pat(PatK::Rest(r))], vec![st(SK::Empty)])
            }
            4 => {
                let p = self.pattern(d);
                fun(n, false, vec![p], vec![])
            }
            _ => {
                let e = self.expr(d);
                let s = self.leaf();
                fun(n, false, vec![], vec![st(SK::Expr(e)), st(SK::Ret(Some(s)))])
            }
        }
    }
    pub fn class(&mut self, d: usize, expr: bool) -> Cls {
        let named = if expr { choice(2) == 1 } else { true };
        let name = if named { Some(self.name()) } else { None };
        let mut c = Cls { name, ext: None, members: vec![], bt: Sp::default() };
        match choice(6) {
            0 => {}
            1 => c.ext = Some(b(self.expr(d))),
            2 => {
                let m = self.member(d);
                c.members.push(m);
            }
            3 => {
                // the constructor after another member
                let (k, f) = (self.pkey(), self.method(0));
                c.members.push(Member { stat: true, kind: b'm', key: k, k: MemberK::Method(f), t: Sp::default() });
                let f = self.method(d);
                let k = key(KeyK::Lit(b"constructor".to_vec(), Tk::Word));
                c.members.push(Member { stat: false, kind: b'c', key: k, k: MemberK::Method(f), t: Sp::default() });
            }
            4 => {
                let (k, e) = (self.pkey(), self.expr(d));
                c.members.push(Member { stat: false, kind: b'm', key: k, k: MemberK::Value(e), t: Sp::default() });
                let (k, e) = (self.pkey(), self.leaf());
                c.members.push(Member { stat: true, kind: b'm', key: k, k: MemberK::Value(e), t: Sp::default() });
            }
            _ => {
                c.ext = Some(self.bleaf());
                let (k, f) = (self.key(d, false), self.method(0));
                c.members.push(Member { stat: false, kind: b'm', key: k, k: MemberK::Method(f), t: Sp::default() });
            }
        }
        c
    }
    fn member(&mut self, d: usize) -> Member {
        let stat = choice(2) == 1;
        match choice(4) {
            0 => {
                let (k, f) = (self.pkey(), fun(None, false, vec![], vec![]));
                Member { stat, kind: b'g', key: k, k: MemberK::Method(f), t: Sp::default() }
            }
            1 => {
                let (k, p) = (self.pkey(), self.pid());
                let f = fun(None, false, vec![p], vec![]);
                Member { stat, kind: b's', key: k, k: MemberK::Method(f), t: Sp::default() }
            }
            2 => {
                let (k, f) = (self.key(0, false), self.method(d));
                Member { stat, kind: b'm', key: k, k: MemberK::Method(f), t: Sp::default() }
            }
            _ => {
                let (k, e) = (self.key(0, false), self.expr(d));
                Member { stat, kind: b'm', key: k, k: MemberK::Value(e), t: Sp::default() }
            }
        }
    }
    /// A binding pattern other than a plain name.
    pub fn pattern(&mut self, d: usize) -> Pat {
        pat(match choice(7) {
            0 => PatK::Arr(vec![]),
            1 => {
                let (x, y) = (self.pid(), self.pid());
                let e = self.expr(d);
                PatK::Arr(vec![x, pat(PatK::Void), pat(PatK::Assign(Box::new(y), b(e)))])
            }
            2 => {
                let (x, y) = (self.pid(), self.id());
                let i = pat(PatK::Obj(vec![prop(PropK::Short(y))]));
                PatK::Arr(vec![pat(PatK::Arr(vec![x])), i])
            }
            3 => PatK::Obj(vec![]),
            4 => {
                let (x, k) = (self.id(), self.pkey());
                let v = self.leaf();
                PatK::Obj(vec![prop(PropK::Short(x)), prop(PropK::Kv(k, v))])
            }
            5 => {
                let x = self.id();
                let v = self.leaf();
                PatK::Obj(vec![prop(PropK::Short(x)), prop(PropK::Spread(v))])
            }
            _ => {
                let (k, x) = (self.pkey(), self.id());
                let v = n(K::Obj(vec![prop(PropK::Short(x))]));
                PatK::Obj(vec![prop(PropK::Kv(k, v))])
            }
        })
    }
    pub fn decl(&mut self, id: Pat, init: Option<N>) -> Decl {
        Decl { id, init, t: Sp::default() }
    }
    pub fn decls(&mut self, d: usize) -> (u8, Vec<Decl>) {
        let c = choice(6);
        let ds = match c {
            0 => {
                let p = self.pid();
                vec![self.decl(p, None)]
            }
            1 | 2 | 3 => {
                let p = self.pid();
                let e = self.expr(d);
                vec![self.decl(p, Some(e))]
            }
            4 => {
                let (p, q) = (self.pid(), self.pid());
                let h = self.hot(d, 2);
                let (e, f) = (self.sub(d, h == 0), self.sub(d, h == 1));
                let x = self.decl(p, Some(e));
                let y = self.decl(q, Some(f));
                vec![x, y]
            }
            _ => {
                let p = self.pattern(d);
                let e = self.leaf();
                let x = self.decl(p, Some(e));
                let q = self.pid();
                let y = self.decl(q, None);
                vec![x, y]
            }
        };
        (if c == 2 { b'l' } else if c == 3 { b'c' } else { b'v' }, ds)
    }

    /// A statement of a list, whose sub-statements and expressions have depth at most d.
    pub fn stmt(&mut self, d: usize) -> St {
        self.stmt_at(d, true)
    }
    fn inner(&mut self, d: usize, hot: bool) -> Box<St> {
        if hot && d > 0 {
            Box::new(self.stmt_at(d - 1, false))
        } else {
            let e = self.leaf();
            Box::new(st(SK::Expr(e)))
        }
    }
    fn body(&mut self, d: usize, hot: bool) -> Vec<St> {
        if hot && d > 0 {
            match choice(3) {
                0 => vec![],
                1 => vec![self.stmt_at(d - 1, true)],
                _ => {
                    let s = self.stmt_at(d - 1, true);
                    let e = self.leaf();
                    vec![s, st(SK::Expr(e))]
                }
            }
        } else {
            let e = self.leaf();
            vec![st(SK::Expr(e))]
        }
    }
    pub const NSTMT: usize = 21;
    fn stmt_at(&mut self, d: usize, list: bool) -> St {
        let k = choice(Self::NSTMT);
        self.statement(k, d, list)
    }
    pub fn statement(&mut self, k: usize, d: usize, list: bool) -> St {
        st(match k {
            0 => SK::Empty,
            1 => SK::Debugger,
            2 => SK::Expr(self.expr(d)),
            3 => {
                let (k, ds) = self.decls(d);
                assume(list || k == b'v');
                SK::Decl(k, ds)
            }
            4 => SK::Ret(if choice(2) == 0 { None } else { Some(self.expr(d)) }),
            5 => SK::Break(if choice(2) == 0 { None } else { Some(self.name()) }),
            6 => SK::Cont(if choice(2) == 0 { None } else { Some(self.name()) }),
            7 => SK::Throw(self.expr(d)),
            8 => {
                let h = self.hot(d, 2);
                let t = self.sub(d, h == 0);
                let c = self.inner(d, h == 1);
                SK::If(t, c, None)
            }
            9 => {
                let h = self.hot(d, 2);
                let t = self.leaf();
                let c = self.inner(d, h == 0);
                assume(!dangles(&c));
                let a = self.inner(d, h == 1);
                SK::If(t, c, Some(a))
            }
            10 => {
                let h = self.hot(d, 2);
                let t = self.sub(d, h == 0);
                let c = self.inner(d, h == 1);
                SK::While(t, c)
            }
            11 => {
                let h = self.hot(d, 2);
                let c = self.inner(d, h == 0);
                let t = self.sub(d, h == 1);
                SK::Do(c, t)
            }
            12 => {
                let h = self.hot(d, 4);
                let i = match choice(3) {
                    0 => None,
                    1 => {
                        let e = self.sub(d, h == 0);
                        Some(ForInit::Expr(e))
                    }
                    _ => {
                        let (k, ds) = self.decls(if h == 0 { d } else { 0 });
                        Some(ForInit::Decl(k, ds, Sp::default()))
                    }
                };
                let t = if choice(2) == 0 { None } else { Some(self.sub(d, h == 1)) };
                let u = if choice(2) == 0 { None } else { Some(self.sub(d, h == 2)) };
                let s = self.inner(d, h == 3);
                SK::For(i, t, u, s)
            }
            13 | 14 => {
                let h = self.hot(d, 3);
                let i = match choice(3) {
                    0 => {
                        let t = if h == 0 { self.target(d) } else { self.leaf() };
                        ForInit::Expr(t)
                    }
                    1 => {
                        let p = self.pid();
                        let x = self.decl(p, None);
                        ForInit::Decl([b'v', b'l', b'c'][choice(3)], vec![x], Sp::default())
                    }
                    _ => {
                        let p = self.pattern(0);
                        let x = self.decl(p, None);
                        ForInit::Decl(b'c', vec![x], Sp::default())
                    }
                };
                let e = self.sub(d, h == 1);
                let s = self.inner(d, h == 2);
                if k == 13 {
                    SK::ForIn(i, e, s)
                } else {
                    SK::ForOf(i, e, s)
                }
            }
            15 => {
                let c = choice(3);
                let h = self.hot(d, 2);
                let x = self.body(d, h == 0);
                let p = if c < 2 {
                    let p = if choice(2) == 0 { self.pid() } else { self.pattern(0) };
                    let y = self.body(d, h == 1);
                    Some((p, block(y), Sp::default()))
                } else {
                    None
                };
                let f = if c > 0 { Some(block(self.body(d, h == 1 && c == 2))) } else { None };
                SK::Try(block(x), p, f)
            }
            16 => SK::Block(self.body(d, true)),
            17 => {
                let l = self.id();
                SK::Labeled(l, self.inner(d, true))
            }
            18 => {
                assume(list);
                if d > 0 && choice(2) == 1 {
                    let n = self.name();
                    let p = self.pid();
                    let b = self.body(d, true);
                    SK::Fun(fun(Some(n), false, vec![p], b))
                } else {
                    SK::Fun(self.fun(d, false))
                }
            }
            19 => {
                assume(list);
                SK::Class(self.class(d, false))
            }
            _ => {
                let h = self.hot(d, 3);
                let e = self.sub(d, h == 0);
                let cs = match choice(4) {
                    0 => vec![],
                    1 => {
                        let t = self.sub(d, h == 1);
                        let b = self.body(d, h == 2);
                        vec![Case { test: Some(t), body: b, t: Sp::default() }]
                    }
                    2 => {
                        let b = self.body(d, h == 2);
                        let t = self.sub(d, h == 1);
                        vec![Case { test: None, body: b, t: Sp::default() }, Case { test: Some(t), body: vec![], t: Sp::default() }]
                    }
                    _ => {
                        let t = self.sub(d, h == 1);
                        let b = self.body(d, h == 2);
                        vec![Case { test: Some(t), body: vec![], t: Sp::default() }, Case { test: None, body: b, t: Sp::default() }]
                    }
                };
                SK::Switch(e, cs, Sp::default())
            }
        })
    }
    pub fn import(&mut self) -> St {
        let s = self.plain();
        let sp = |k| Spec { k, t: Sp::default() };
        let specs = match choice(7) {
            0 => vec![],
            1 => vec![sp(SpecK::Default(self.name()))],
            2 => vec![sp(SpecK::Namespace(self.name()))],
            3 => vec![sp(SpecK::Named(self.name(), None))],
            4 => {
                let (x, y, z) = (self.name(), self.name(), self.name());
                vec![sp(SpecK::Named(x, Some(y))), sp(SpecK::Named(z, None))]
            }
            5 => {
                let (x, y, z) = (self.name(), self.name(), self.name());
                vec![sp(SpecK::Default(x)), sp(SpecK::Named(y, Some(z)))]
            }
            _ => {
                let (x, y) = (self.name(), self.name());
                vec![sp(SpecK::Default(x)), sp(SpecK::Namespace(y))]
            }
        };
        st(SK::Import(specs, vec![s]))
    }
}

/// Whether a statement ends with an if that has no else.
pub fn dangles(s: &St) -> bool {
    match &s.k {
        SK::If(_, _, None) => true,
        SK::If(_, _, Some(a)) => dangles(a),
        SK::While(_, b) | SK::For(_, _, _, b) | SK::ForIn(_, _, b) | SK::ForOf(_, _, b) | SK::Labeled(_, b) => dangles(b),
        _ => false,
    }
}

/// Whether a statement ends with a do loop.
pub fn ends_do(s: &St) -> bool {
    match &s.k {
        SK::Do(..) => true,
        SK::If(_, b, None) => ends_do(b),
        SK::If(_, _, Some(a)) => ends_do(a),
        SK::While(_, b) | SK::For(_, _, _, b) | SK::ForIn(_, _, b) | SK::ForOf(_, _, b) | SK::Labeled(_, b) => ends_do(b),
        _ => false,
    }
}
