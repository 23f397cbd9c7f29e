//! Programs with long lists and chains, and programs of nested scopes.
use crate::gen::*;
use crate::sym::*;
use crate::tree::*;

fn member(stat: bool, kind: u8, key: Key, k: MemberK) -> Member {
    Member { stat, kind, key, k, t: Sp::default() }
}
fn empty() -> Fun {
    fun(None, false, vec![], vec![])
}
fn expr(e: N) -> St {
    st(SK::Expr(e))
}
fn class(name: Option<Name>, members: Vec<Member>) -> Cls {
    Cls { name, ext: None, members, bt: Sp::default() }
}

pub const NWIDE: usize = 18;

impl G {
    fn many<T>(&mut self, max: usize, f: fn(&mut G) -> T) -> Vec<T> {
        let n = max - choice(2);
        (0..n).map(|_| f(self)).collect()
    }
    fn decl_of(&mut self, id: Pat) -> Decl {
        let init = if choice(2) == 0 { None } else { Some(self.leaf()) };
        Decl { id, init, t: Sp::default() }
    }
    /// An element of a list: a name, or something longer.
    fn element(&mut self) -> N {
        match choice(3) {
            0 => self.leaf(),
            1 => n(K::Spread(b(self.leaf()))),
            _ => n(K::Call(b(self.leaf()), vec![])),
        }
    }
    /// A program of one long list, or one long chain.
    pub fn wide(&mut self, k: usize, max: usize) -> Vec<St> {
        match k {
            0 => {
                let v = self.many(max, |g| g.element());
                vec![expr(n(K::Call(b(self.leaf()), v)))]
            }
            1 => {
                let v = self.many(max, |g| if choice(3) == 0 { None } else { Some(g.element()) });
                // a hole at the end is left out of the tree
                assume(v.len() == 0 || v[v.len() - 1].is_some());
                vec![expr(n(K::Arr(v)))]
            }
            2 => {
                let v = self.many(max, |g| g.leaf());
                assume(v.len() > 1);
                vec![expr(n(K::Seq(v)))]
            }
            3 => {
                // parameters, the last of which may be the rest
                let mut ps = self.many(max, |g| match choice(3) {
                    0 => g.pid(),
                    1 => {
                        let p = g.pid();
                        pat(PatK::Assign(Box::new(p), b(g.leaf())))
                    }
                    _ => {
                        let p = g.pid();
                        pat(PatK::Arr(vec![p]))
                    }
                });
                if choice(2) == 1 {
                    ps.push(pat(PatK::Rest(self.name())));
                }
                let f = fun(Some(self.name()), choice(2) == 1, ps, vec![]);
                vec![st(SK::Fun(f))]
            }
            4 => {
                let ps = self.many(max, |g| {
                    prop(match choice(4) {
                        0 => PropK::Short(g.id()),
                        1 => {
                            let k = g.pkey();
                            PropK::Kv(k, g.leaf())
                        }
                        2 => PropK::Method(g.pkey(), empty()),
                        _ => PropK::Spread(g.leaf()),
                    })
                });
                let x = self.leaf();
                vec![expr(n(K::Bin(NBIN, b(x), b(n(K::Obj(ps))))))]
            }
            5 => {
                let ms = self.many(max, |g| {
                    let k = g.pkey();
                    match choice(5) {
                        0 => member(false, b'm', k, MemberK::Method(empty())),
                        1 => member(true, b'm', k, MemberK::Method(empty())),
                        2 => member(false, b'g', k, MemberK::Method(empty())),
                        3 => member(true, b'm', k, MemberK::Value(g.leaf())),
                        _ => {
                            let p = g.pid();
                            member(false, b's', k, MemberK::Method(fun(None, false, vec![p], vec![])))
                        }
                    }
                });
                vec![st(SK::Class(class(Some(self.name()), ms)))]
            }
            // statements of the program, a block, a function, an arrow function
            6 | 7 | 8 | 9 => {
                let v = self.many(max, |g| {
                    let e = g.leaf();
                    match choice(5) {
                        0 => expr(e),
                        1 => {
                            let p = g.pid();
                            let d = g.decl_of(p);
                            st(SK::Decl(b'l', vec![d]))
                        }
                        2 => st(SK::Ret(Some(e))),
                        3 => st(SK::Block(vec![expr(e)])),
                        _ => st(SK::Empty),
                    }
                });
                match k {
                    6 => v,
                    7 => vec![st(SK::Block(v))],
                    8 => vec![st(SK::Fun(fun(Some(self.name()), false, vec![], v)))],
                    _ => vec![expr(n(K::Arrow(vec![], false, Body::Block(v, Sp::default()))))],
                }
            }
            10 => {
                let mut d = false;
                let n = max - choice(2);
                let mut cs = vec![];
                for _ in 0..n {
                    let test = if !d && choice(2) == 0 {
                        d = true;
                        None
                    } else {
                        Some(self.leaf())
                    };
                    let body = (0..choice(3)).map(|i| if i == 0 { expr(self.leaf()) } else { st(SK::Break(None)) }).collect();
                    cs.push(Case { test, body, t: Sp::default() });
                }
                vec![st(SK::Switch(self.leaf(), cs, Sp::default()))]
            }
            11 => {
                let ds = self.many(max, |g| {
                    let p = g.pid();
                    g.decl_of(p)
                });
                vec![st(SK::Decl([b'v', b'l', b'c'][choice(3)], ds))]
            }
            12 => {
                let exprs = self.many(max, |g| g.leaf());
                let quasis = (0..exprs.len() + 1).map(|_| if choice(2) == 0 { vec![] } else { vec![self.plain()] }).collect();
                let t = Tpl { quasis, exprs, t: Sp::default() };
                vec![expr(n(if choice(2) == 0 { K::Tpl(t) } else { K::Tag(b(self.leaf()), t) }))]
            }
            13 => {
                let mut specs = self.many(max, |g| {
                    let x = g.name();
                    let y = if choice(2) == 0 { None } else { Some(g.name()) };
                    Spec { k: SpecK::Named(x, y), t: Sp::default() }
                });
                if choice(2) == 1 {
                    specs.insert(0, Spec { k: SpecK::Default(self.name()), t: Sp::default() });
                }
                let s = self.plain();
                vec![st(SK::Import(specs, vec![s]))]
            }
            // else if
            14 => {
                let mut s = expr(self.leaf());
                for i in 0..max {
                    let t = self.leaf();
                    let c = if choice(2) == 0 { expr(self.leaf()) } else { st(SK::Block(vec![])) };
                    let els = if i == 0 && choice(2) == 0 { None } else { Some(Box::new(s)) };
                    s = st(SK::If(t, Box::new(c), els));
                }
                vec![s]
            }
            // members, calls and templates of each other
            15 => {
                let mut e = self.leaf();
                for _ in 0..max {
                    e = n(match choice(4) {
                        0 => K::Mem(b(e), self.name()),
                        1 => K::CMem(b(e), b(self.leaf())),
                        2 => K::Call(b(e), vec![]),
                        _ => K::Tag(b(e), Tpl { quasis: vec![vec![]], exprs: vec![], t: Sp::default() }),
                    });
                }
                if choice(2) == 1 {
                    e = n(K::Post(7, b(n(K::Mem(b(e), self.name())))));
                }
                vec![expr(e)]
            }
            // prefixes and arrows of each other
            16 => {
                let mut e = self.leaf();
                for _ in 0..max {
                    e = match choice(5) {
                        0 => n(K::Pre(choice(7), b(e))),
                        1 => {
                            // an arrow function is no operand
                            let p = self.pid();
                            n(K::Arrow(vec![p], true, Body::Expr(b(e))))
                        }
                        2 => n(K::Arrow(vec![], false, Body::Expr(b(e)))),
                        3 => {
                            let x = self.leaf();
                            n(K::Bin(NBIN + choice(2), b(x), b(e)))
                        }
                        _ => {
                            let (x, y) = (self.leaf(), self.leaf());
                            n(K::Cond(b(x), b(y), b(e)))
                        }
                    };
                }
                vec![expr(e)]
            }
            // statements that end with another
            _ => {
                let mut s = if choice(2) == 0 { expr(self.leaf()) } else { st(SK::Empty) };
                for _ in 0..max {
                    let e = self.leaf();
                    s = st(match choice(6) {
                        0 => SK::Labeled(self.id(), Box::new(s)),
                        1 => SK::While(e, Box::new(s)),
                        2 => SK::If(e, Box::new(s), None),
                        3 => {
                            let x = expr(self.leaf());
                            SK::If(e, Box::new(x), Some(Box::new(s)))
                        }
                        4 => SK::For(None, None, Some(e), Box::new(s)),
                        _ => {
                            let x = self.leaf();
                            SK::ForOf(ForInit::Expr(x), e, Box::new(s))
                        }
                    });
                }
                vec![s]
            }
        }
    }

    /// Nested scopes with names, declarations and this, n of them in all.
    pub fn nested(&mut self, left: &mut usize) -> Vec<St> {
        let mut v = vec![];
        while *left > 0 {
            let k = choice(14);
            if k == 0 {
                break;
            }
            *left -= 1;
            v.push(match k {
                1 => expr(self.leaf()),
                2 => {
                    let id = self.pid();
                    let init = Some(n(K::This));
                    st(SK::Decl(b'l', vec![Decl { id, init, t: Sp::default() }]))
                }
                3 => expr(n(K::This)),
                4 => st(SK::Block(self.nested(left))),
                5 => {
                    let (f, p) = (self.name(), self.pid());
                    let s = self.nested(left);
                    st(SK::Fun(fun(Some(f), false, vec![p], s)))
                }
                6 => {
                    let (x, f, p) = (self.leaf(), self.name(), self.pid());
                    let s = self.nested(left);
                    let f = n(K::Fun(fun(Some(f), false, vec![p], s)));
                    expr(n(K::Bin(NBIN, b(x), b(f))))
                }
                7 => {
                    let (c, k, s) = (self.name(), self.pkey(), self.nested(left));
                    let m = member(false, b'm', k, MemberK::Method(fun(None, false, vec![], s)));
                    st(SK::Class(class(Some(c), vec![m])))
                }
                8 => {
                    let (x, k, s) = (self.leaf(), self.pkey(), self.nested(left));
                    let o = n(K::Obj(vec![prop(PropK::Method(k, fun(None, false, vec![], s)))]));
                    expr(n(K::Bin(NBIN, b(x), b(o))))
                }
                9 => {
                    let p = self.pid();
                    let s = self.nested(left);
                    expr(n(K::Arrow(vec![p], true, Body::Block(s, Sp::default()))))
                }
                10 => {
                    let (d, t, s) = (self.leaf(), self.leaf(), self.nested(left));
                    let c = Case { test: Some(t), body: s, t: Sp::default() };
                    st(SK::Switch(d, vec![c], Sp::default()))
                }
                11 => {
                    let s = self.nested(left);
                    let p = self.pid();
                    let t = self.nested(left);
                    st(SK::Try(block(s), Some((p, block(t), Sp::default())), None))
                }
                12 => {
                    let (s, t) = (self.nested(left), self.nested(left));
                    st(SK::Try(block(s), None, Some(block(t))))
                }
                _ => {
                    let p = self.pid();
                    let d = self.decl_of(p);
                    let s = self.nested(left);
                    let i = ForInit::Decl(b'l', vec![d], Sp::default());
                    st(SK::For(Some(i), None, None, Box::new(st(SK::Block(s)))))
                }
            });
        }
        v
    }
}
