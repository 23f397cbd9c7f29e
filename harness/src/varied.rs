//! Programs about one construct, all parts of which vary independently of each other.
use crate::gen::*;
use crate::sym::*;
use crate::tree::*;

fn expr(e: N) -> St {
    st(SK::Expr(e))
}
fn member(stat: bool, kind: u8, key: Key, k: MemberK) -> Member {
    Member { stat, kind, key, k, t: Sp::default() }
}
fn class(name: Option<Name>, ext: Option<B>, members: Vec<Member>) -> Cls {
    Cls { name, ext, members, bt: Sp::default() }
}
fn lit(tag: u8, s: &[u8]) -> N {
    n(K::Lit(tag, s.to_vec()))
}
fn word(s: &str) -> Key {
    key(KeyK::Lit(s.as_bytes().to_vec(), Tk::Word))
}
fn tpl(quasis: Vec<Bytes>, exprs: Vec<N>) -> Tpl {
    Tpl { quasis, exprs, t: Sp::default() }
}

pub const NVAR: usize = 14;

/// Names that are no keywords, but look like it.
const NAMES: [&str; 26] = [
    "$", "_", "$A", "_0", "A$", "aB", "of", "as", "from", "get", "set", "async", "ins", "i", "newA", "do_", "iff", "if0", "In", "tru", "thi", "le",
    "undefine", "constructor", "target", "\u{e9}",
];
/// Keywords, which may only be names of properties.
const WORDS: [&str; 40] = [
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "false", "finally",
    "for", "function", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "package", "protected", "public",
    "return", "super", "switch", "this", "throw", "true", "try", "typeof", "undefined", "var", "void",
];

impl G {
    fn val(&mut self) -> B {
        b(self.leaf())
    }
    /// A list of at most max items.
    fn upto<T>(&mut self, max: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let k = choice(max + 1);
        (0..k).map(|_| f(self)).collect()
    }
    fn any_key(&mut self, string: bool) -> Key {
        match choice(5) {
            0 => self.pkey(),
            1 => key(KeyK::Lit(self.num(), Tk::Num)),
            2 => key(KeyK::Bin(b"0b1".to_vec())),
            3 => key(KeyK::Comp(self.val())),
            _ => {
                assume(string);
                key(KeyK::Lit(vec![b'"', self.plain(), b'"'], Tk::Str))
            }
        }
    }
    fn param(&mut self) -> Pat {
        let p = match choice(3) {
            0 => self.pid(),
            1 => {
                let p = self.pid();
                pat(PatK::Arr(vec![p]))
            }
            _ => pat(PatK::Obj(vec![prop(PropK::Short(self.id()))])),
        };
        self.defaulted(p)
    }
    fn defaulted(&mut self, p: Pat) -> Pat {
        if choice(2) == 0 {
            p
        } else {
            pat(PatK::Assign(Box::new(p), self.val()))
        }
    }
    fn fun_body(&mut self) -> Vec<St> {
        match choice(3) {
            0 => vec![],
            1 => vec![st(SK::Ret(Some(self.leaf())))],
            _ => vec![expr(self.leaf()), st(SK::Empty)],
        }
    }
    fn simple_method(&mut self) -> Fun {
        let ps = self.upto(1, |g| g.pid());
        fun(None, false, ps, vec![])
    }
    /// A pattern as it is written, and as an expression where it is a value in an object pattern.
    fn nested_pattern(&mut self, d: usize) -> Pat {
        if d == 0 {
            return self.pid();
        }
        match choice(3) {
            0 => self.pid(),
            1 => {
                let mut v = vec![];
                if choice(2) == 1 {
                    v.push(pat(PatK::Void));
                }
                let p = self.nested_pattern(d - 1);
                v.push(self.defaulted(p));
                match choice(3) {
                    0 => {}
                    1 => v.push(self.pid()),
                    _ => {
                        v.push(pat(PatK::Void));
                        let p = self.pid();
                        v.push(self.defaulted(p));
                    }
                }
                pat(PatK::Arr(v))
            }
            _ => pat(PatK::Obj(self.pattern_props(d))),
        }
    }
    fn pattern_props(&mut self, d: usize) -> Vec<Prop> {
        let mut v = vec![];
        if choice(2) == 1 {
            v.push(prop(PropK::Short(self.id())));
        }
        let k = match choice(3) {
            0 => self.pkey(),
            1 => key(KeyK::Lit(vec![b'"', self.plain(), b'"'], Tk::Str)),
            _ => key(KeyK::Comp(self.val())),
        };
        let t = self.pattern_value(d - 1);
        let t = if choice(2) == 0 { t } else { n(K::Bin(NBIN, b(t), self.val())) };
        v.push(prop(PropK::Kv(k, t)));
        match choice(3) {
            0 => {}
            1 => v.push(prop(PropK::Short(self.id()))),
            _ => v.push(prop(PropK::Spread(self.leaf()))),
        }
        v
    }
    fn pattern_value(&mut self, d: usize) -> N {
        if d == 0 {
            return self.leaf();
        }
        match choice(3) {
            0 => self.leaf(),
            1 => {
                let x = self.pattern_value(d - 1);
                let mut v = vec![Some(x)];
                if choice(2) == 1 {
                    v.insert(0, None);
                    v.push(Some(n(K::Spread(self.val()))));
                }
                n(K::Arr(v))
            }
            _ => n(K::Obj(self.pattern_props(d))),
        }
    }
    /// A literal of any form.
    fn any_literal(&mut self) -> N {
        let (c, d) = (self.num()[0], self.num()[0]);
        let p = self.plain();
        match choice(38) {
            0 => lit(b'n', &[c]),
            1 => lit(b'n', &[c, b'.']),
            2 => lit(b'n', &[c, b'.', d]),
            3 => lit(b'n', &[b'.', d]),
            4 => lit(b'n', &[c, b'e', d]),
            5 => lit(b'n', &[c, b'E', b'+', d]),
            6 => lit(b'n', &[c, b'.', b'e', b'-', d]),
            7 => lit(b'n', &[b'.', c, b'e', d]),
            8 => lit(b'n', b"0"),
            9 => lit(b'n', &[b'0', b'x', c]),
            10 => lit(b'n', b"0XaF"),
            11 => lit(b'n', b"0o17"),
            12 => lit(b'n', b"0O7"),
            13 => lit(b'b', b"0b10"),
            14 => lit(b'b', b"0B1"),
            15 => lit(b'n', b"0.5"),
            16 => lit(b'n', b"0."),
            17 => lit(b'n', &[c, d]),
            18 => lit(b'n', b"0e1"),
            19 => lit(b's', b"\"\""),
            20 => lit(b's', b"''"),
            21 => lit(b's', &[b'\'', p, b'\'']),
            22 => lit(b's', b"'\"'"),
            23 => lit(b's', b"\"'\""),
            24 => lit(b's', &[b'"', b'\\', p, b'"']),
            25 => lit(b's', b"'\\''"),
            26 => lit(b's', b"\"\\\"\""),
            27 => lit(b's', b"\"\\\\\""),
            28 => lit(b's', b"'\\\n'"),
            29 => lit(b's', "\"\u{20ac}\"".as_bytes()),
            30 | 31 | 32 | 33 | 34 if self.noslash => {
                assume(false);
                self.leaf()
            }
            30 => lit(b'r', &[b'/', b'[', b'/', p, b']', b'/']),
            31 => lit(b'r', b"/\\//gimuy"),
            32 => lit(b'r', b"/[\\]/]/i"),
            33 => lit(b'r', b"/[A]\\\\/"),
            34 => lit(b'r', b"/(/"),
            35 => lit(b'T', b"true"),
            36 => lit(b'N', b"null"),
            _ => lit(b'U', b"undefined"),
        }
    }
    /// An expression of any part of the language, in short.
    fn short(&mut self) -> N {
        let x = self.leaf();
        match choice(12) {
            0 => x,
            1 => n(K::Obj(vec![])),
            2 => n(K::Obj(vec![prop(PropK::Short(self.id()))])),
            3 => n(K::Fun(fun(None, false, vec![], vec![]))),
            4 => n(K::Class(class(None, None, vec![]))),
            5 => n(K::Tpl(tpl(vec![vec![], vec![]], vec![x]))),
            6 => lit(b's', b"\"}\""),
            7 => n(K::Seq(vec![x, self.leaf()])),
            8 => n(K::Arrow(vec![], false, Body::Block(vec![], Sp::default()))),
            9 => n(K::Bin(NBIN, b(x), self.val())),
            10 => n(K::Bin(14, b(x), self.val())),
            _ => n(K::Pre(0, b(x))),
        }
    }
    fn var_decl(&mut self, k: u8, id: Pat, init: Option<N>) -> St {
        st(SK::Decl(k, vec![Decl { id, init, t: Sp::default() }]))
    }

    /// A program about construct k, with lists of at most (or nestings of) max.
    pub fn varied(&mut self, k: usize, max: usize) -> Vec<St> {
        match k {
            // arrow functions
            0 => {
                let ps = self.upto(max, |g| {
                    let p = g.pid();
                    g.defaulted(p)
                });
                let bare = ps.len() == 1 && matches!(ps[0].k, PatK::Id(_)) && choice(2) == 1;
                let body = match choice(5) {
                    0 => Body::Expr(self.val()),
                    1 => Body::Expr(b(n(K::Obj(vec![prop(PropK::Short(self.id()))])))),
                    2 => Body::Block(self.fun_body(), Sp::default()),
                    3 => Body::Expr(b(n(K::Seq(vec![self.leaf(), self.leaf()])))),
                    _ => {
                        let p = self.pid();
                        Body::Expr(b(n(K::Arrow(vec![p], true, Body::Expr(self.val())))))
                    }
                };
                let a = n(K::Arrow(ps, bare, body));
                vec![expr(match choice(7) {
                    0 => a,
                    1 => n(K::Call(self.val(), vec![a, self.leaf()])),
                    2 => n(K::Call(b(a), vec![self.leaf()])),
                    3 => n(K::Bin(NBIN, self.val(), b(a))),
                    4 => n(K::Cond(self.val(), b(a), self.val())),
                    5 => n(K::Cond(b(a), self.val(), self.val())),
                    _ => n(K::Bin(23, b(a), self.val())),
                })]
            }
            // functions
            1 => {
                let mut ps = self.upto(max, |g| g.param());
                if choice(2) == 1 {
                    ps.push(pat(PatK::Rest(self.name())));
                }
                let body = self.fun_body();
                let f = |name, gen| fun(name, gen, ps, body);
                match choice(8) {
                    0 => vec![st(SK::Fun(f(Some(self.name()), false)))],
                    1 => vec![st(SK::Fun(f(Some(self.name()), true)))],
                    2 => vec![expr(n(K::Fun(f(None, false))))],
                    3 => vec![expr(n(K::Bin(NBIN, self.val(), b(n(K::Fun(f(Some(self.name()), true)))))))],
                    4 => vec![expr(n(K::Call(b(n(K::Fun(f(Some(self.name()), false)))), vec![])))],
                    5 => vec![expr(n(K::Obj(vec![prop(PropK::Method(self.pkey(), f(None, false)))])))],
                    6 => {
                        let k = self.pkey();
                        let m = member(choice(2) == 1, b'm', k, MemberK::Method(f(None, false)));
                        vec![st(SK::Class(class(Some(self.name()), None, vec![m])))]
                    }
                    _ => {
                        let m = member(false, b'c', word("constructor"), MemberK::Method(f(None, false)));
                        vec![st(SK::Class(class(Some(self.name()), None, vec![m])))]
                    }
                }
            }
            // classes
            2 => {
                let ms = self.upto(max, |g| {
                    let stat = choice(2) == 1;
                    match choice(6) {
                        0 => {
                            let k = g.any_key(false);
                            member(stat, b'm', k, MemberK::Method(g.simple_method()))
                        }
                        1 => {
                            let k = g.any_key(false);
                            member(stat, b'm', k, MemberK::Value(g.leaf()))
                        }
                        2 => {
                            let k = g.pkey();
                            member(stat, b'g', k, MemberK::Method(g.simple_method()))
                        }
                        3 => {
                            let k = g.pkey();
                            member(stat, b's', k, MemberK::Method(g.simple_method()))
                        }
                        4 => {
                            let k = [word("get"), word("set"), word("of"), word("if")].into_iter().nth(choice(4)).unwrap();
                            if choice(2) == 0 {
                                member(stat, b'm', k, MemberK::Method(fun(None, false, vec![], vec![])))
                            } else {
                                member(stat, b'm', k, MemberK::Value(g.leaf()))
                            }
                        }
                        _ => {
                            assume(!stat);
                            member(false, b'c', word("constructor"), MemberK::Method(fun(None, false, vec![], vec![])))
                        }
                    }
                });
                let (c, x) = if ms.len() > 1 { (0, 0) } else { (choice(3), choice(4)) };
                let ext = match x {
                    0 => None,
                    1 => Some(self.val()),
                    2 => Some(b(n(K::Call(self.val(), vec![])))),
                    _ => Some(b(n(K::Bin(0, self.val(), self.val())))),
                };
                match c {
                    0 => vec![st(SK::Class(class(Some(self.name()), ext, ms)))],
                    1 => vec![expr(n(K::Class(class(None, ext, ms))))],
                    _ => vec![expr(n(K::Bin(NBIN, self.val(), b(n(K::Class(class(Some(self.name()), ext, ms)))))))],
                }
            }
            // objects
            3 => {
                let ps = self.upto(max, |g| {
                    prop(match choice(7) {
                        0 => PropK::Short(g.id()),
                        1 => PropK::Spread(g.leaf()),
                        2 => PropK::Method(g.any_key(true), g.simple_method()),
                        3 => PropK::Kv(g.any_key(true), g.leaf()),
                        4 => PropK::Kv(g.pkey(), g.short()),
                        5 => PropK::Kv(word(["get", "set", "static", "if"][choice(4)]), g.leaf()),
                        _ => PropK::Method(word(["get", "set", "static", "if"][choice(4)]), fun(None, false, vec![], vec![])),
                    })
                });
                let c = if ps.len() > 1 { 0 } else { choice(6) };
                let o = n(K::Obj(ps));
                vec![expr(match c {
                    0 => n(K::Bin(NBIN, self.val(), b(o))),
                    1 => o,
                    2 => n(K::Mem(b(o), self.name())),
                    3 => n(K::Call(self.val(), vec![o])),
                    4 => n(K::Arrow(vec![], false, Body::Expr(b(n(K::CMem(b(o), self.val())))))),
                    _ => n(K::Seq(vec![o, self.leaf()])),
                })]
            }
            // patterns
            4 => {
                let c = choice(6);
                let mut p = self.nested_pattern(max);
                assume(!matches!(p.k, PatK::Id(_)));
                match c {
                    0 => vec![{
                        let e = self.leaf();
                        self.var_decl([b'v', b'l', b'c'][choice(3)], p, Some(e))
                    }],
                    1 => {
                        let i = ForInit::Decl(b'l', vec![Decl { id: p, init: None, t: Sp::default() }], Sp::default());
                        vec![st(SK::ForOf(i, self.leaf(), Box::new(st(SK::Empty))))]
                    }
                    2 => {
                        let i = ForInit::Decl(b'v', vec![Decl { id: p, init: None, t: Sp::default() }], Sp::default());
                        vec![st(SK::ForIn(i, self.leaf(), Box::new(st(SK::Empty))))]
                    }
                    3 => vec![st(SK::Try(block(vec![]), Some((p, block(vec![]), Sp::default())), None))],
                    _ => {
                        if c == 5 {
                            p = pat(PatK::Assign(Box::new(p), self.val()));
                        }
                        let f = fun(Some(self.name()), false, vec![p, self.pid()], vec![]);
                        vec![st(SK::Fun(f))]
                    }
                }
            }
            // literals
            5 => {
                let c = choice(24);
                let l = self.any_literal();
                let number = matches!(l.k, K::Lit(b'n' | b'b', _));
                let v = |e: N| vec![expr(e)];
                match c {
                    0 => v(l),
                    1 => v(n(K::Mem(b(l), self.name()))),
                    2 => v(n(K::CMem(b(l), self.val()))),
                    3 => v(n(K::Call(b(l), vec![]))),
                    4 => v(n(K::Pre(choice(7), b(l)))),
                    5 | 6 => {
                        let o = [0, 1, 2, 3, 5, 9, 13, 14, 16, 23, NBIN, NBIN + 1][choice(12)];
                        assume(!(self.noslash && o == 3));
                        if c == 5 {
                            assume(o < NBIN && o != 5);
                            v(n(K::Bin(o, b(l), self.val())))
                        } else {
                            v(n(K::Bin(o, self.val(), b(l))))
                        }
                    }
                    7 => v(n(K::Cond(b(l), self.val(), self.val()))),
                    8 => v(n(K::Cond(self.val(), b(l), self.val()))),
                    9 => v(n(K::Cond(self.val(), self.val(), b(l)))),
                    10 => vec![st(SK::Ret(Some(l)))],
                    11 => vec![st(SK::Throw(l))],
                    12 => v(n(K::Arr(vec![Some(l)]))),
                    13 => v(n(K::Tpl(tpl(vec![vec![], vec![]], vec![l])))),
                    14 => v(n(K::Call(self.val(), vec![l]))),
                    15 => {
                        let cs = vec![Case { test: Some(l), body: vec![], t: Sp::default() }];
                        vec![st(SK::Switch(self.leaf(), cs, Sp::default()))]
                    }
                    16 => v(n(K::Arrow(vec![], false, Body::Expr(b(l))))),
                    17 => {
                        let s = match &l.k {
                            K::Lit(b'n', s) => KeyK::Lit(s.clone(), Tk::Num),
                            K::Lit(b'b', s) => KeyK::Bin(s.clone()),
                            K::Lit(b's', s) => KeyK::Lit(s.clone(), Tk::Str),
                            _ => {
                                assume(false);
                                KeyK::Bin(vec![])
                            }
                        };
                        let o = match choice(if number { 3 } else { 2 }) {
                            0 => n(K::Obj(vec![prop(PropK::Kv(key(s), self.leaf()))])),
                            1 => n(K::Obj(vec![prop(PropK::Method(key(s), fun(None, false, vec![], vec![])))])),
                            _ => n(K::Class(class(None, None, vec![member(true, b'm', key(s), MemberK::Value(self.leaf()))]))),
                        };
                        v(n(K::Bin(NBIN, self.val(), b(o))))
                    }
                    18 => {
                        let p = self.pid();
                        vec![self.var_decl(b'v', p, Some(l))]
                    }
                    19 => {
                        let c = expr(self.leaf());
                        vec![st(SK::If(l, Box::new(st(SK::Empty)), Some(Box::new(c))))]
                    }
                    20 => v(n(K::Pre(1, b(n(K::Pre(choice(4), b(l))))))),
                    21 => {
                        assume(number);
                        v(n(K::Mem(b(n(K::Pre(1, b(l)))), self.name())))
                    }
                    22 => v(n(K::New(b(n(K::Mem(b(l), self.name()))), Some(vec![]), Sp::default()))),
                    _ => {
                        let x = st(SK::Expr(l));
                        vec![st(SK::If(self.leaf(), Box::new(x), Some(Box::new(expr(self.leaf())))))]
                    }
                }
            }
            // names
            6 => {
                let c = choice(22);
                let s = NAMES[choice(NAMES.len())].as_bytes().to_vec();
                let nm = name(s.clone());
                let id = n(K::Id(s.clone()));
                let p = pat(PatK::Id(s.clone()));
                let k = key(KeyK::Lit(s.clone(), Tk::Word));
                let f = |name, params| fun(name, false, params, vec![]);
                match c {
                    0 => vec![expr(id)],
                    1 => vec![expr(n(K::Mem(self.val(), nm)))],
                    2 => vec![expr(n(K::Bin(NBIN, self.val(), b(n(K::Obj(vec![prop(PropK::Short(s))]))))))],
                    3 => vec![st(SK::Labeled(s, Box::new(st(SK::Empty))))],
                    4 => vec![st(SK::Fun(f(Some(nm), vec![])))],
                    5 => vec![st(SK::Fun(f(Some(self.name()), vec![p])))],
                    6 => vec![st(SK::Fun(f(Some(self.name()), vec![pat(PatK::Rest(nm))])))],
                    7 => vec![expr(n(K::Arrow(vec![p], true, Body::Expr(b(id)))))],
                    8 => vec![expr(n(K::Arrow(vec![p], false, Body::Expr(self.val()))))],
                    9 => vec![st(SK::Class(class(Some(nm), None, vec![])))],
                    10 => vec![st(SK::Class(class(Some(self.name()), Some(b(id)), vec![])))],
                    11 => vec![self.var_decl(b'v', p, Some(id))],
                    12 => vec![st(SK::Break(Some(nm)))],
                    13 => vec![st(SK::Try(block(vec![]), Some((p, block(vec![]), Sp::default())), None))],
                    14 => {
                        let s = self.plain();
                        let (x, y) = (Spec { k: SpecK::Named(nm, None), t: Sp::default() }, Spec { k: SpecK::Named(self.name(), Some(name(k_text(&k)))), t: Sp::default() });
                        vec![st(SK::Import(vec![x, y], vec![s]))]
                    }
                    15 => {
                        let s = self.plain();
                        let x = Spec { k: SpecK::Default(nm), t: Sp::default() };
                        vec![st(SK::Import(vec![x], vec![s]))]
                    }
                    16 => vec![expr(n(K::Call(b(id), vec![self.leaf()])))],
                    17 => {
                        let o = OPS.len();
                        let o = [0, 1, 13, 14, NBIN, o - 1][choice(6)];
                        vec![expr(n(K::Bin(o, b(id), self.val())))]
                    }
                    18 => vec![expr(n(K::Bin([0, 13, 14][choice(3)], self.val(), b(id))))],
                    19 => vec![expr(n(K::Pre(choice(9), b(id))))],
                    20 => vec![st(SK::ForOf(ForInit::Expr(id), self.leaf(), Box::new(st(SK::Empty))))],
                    _ => vec![st(SK::Ret(Some(id)))],
                }
            }
            // names of properties
            7 => {
                let c = choice(10);
                let i = choice(WORDS.len() + NAMES.len());
                let s = if i < WORDS.len() { WORDS[i] } else { NAMES[i - WORDS.len()] };
                let m = |k, stat, kind, f| vec![st(SK::Class(class(Some(k), None, vec![member(stat, kind, word(s), f)])))];
                let o = |x, p| vec![expr(n(K::Bin(NBIN, x, b(n(K::Obj(vec![prop(p)]))))))];
                let f = || fun(None, false, vec![], vec![]);
                match c {
                    0 => vec![expr(n(K::Mem(self.val(), name(s.as_bytes().to_vec()))))],
                    1 => vec![expr(n(K::Call(b(n(K::Mem(self.val(), name(s.as_bytes().to_vec())))), vec![self.leaf()])))],
                    2 => o(self.val(), PropK::Kv(word(s), self.leaf())),
                    3 => o(self.val(), PropK::Method(word(s), f())),
                    4 => {
                        assume(s != "constructor");
                        m(self.name(), false, b'm', MemberK::Method(f()))
                    }
                    5 => m(self.name(), true, b'm', MemberK::Method(f())),
                    6 => {
                        assume(s != "constructor");
                        m(self.name(), false, b'g', MemberK::Method(f()))
                    }
                    7 => m(self.name(), false, b'm', MemberK::Value(self.leaf())),
                    8 => {
                        let p = pat(PatK::Obj(vec![prop(PropK::Kv(word(s), self.leaf()))]));
                        let e = self.leaf();
                        vec![self.var_decl(b'c', p, Some(e))]
                    }
                    _ => vec![expr(n(K::Bin(0, b(n(K::Mem(self.val(), name(s.as_bytes().to_vec())))), self.val())))],
                }
            }
            // heads of loops
            8 => {
                let c = choice(3);
                let body = Box::new(match choice(3) {
                    0 => st(SK::Empty),
                    1 => st(SK::Block(vec![])),
                    _ => expr(self.leaf()),
                });
                if c == 0 {
                    let i = match choice(4) {
                        0 => None,
                        1 => {
                            let e = self.short();
                            Some(ForInit::Expr(e))
                        }
                        2 => {
                            let k = [b'v', b'l', b'c'][choice(3)];
                            let p = self.param();
                            let p = match p.k {
                                PatK::Assign(l, _) => *l,
                                _ => p,
                            };
                            let e = self.short();
                            Some(ForInit::Decl(k, vec![Decl { id: p, init: Some(e), t: Sp::default() }], Sp::default()))
                        }
                        _ => {
                            let (x, y) = (self.pid(), self.pid());
                            let (e, f) = (self.leaf(), self.short());
                            let d = |id, init| Decl { id, init, t: Sp::default() };
                            let v = match choice(3) {
                                0 => vec![d(x, None), d(y, Some(f))],
                                1 => vec![d(x, Some(f)), d(y, None)],
                                _ => vec![d(x, Some(e)), d(y, Some(f))],
                            };
                            Some(ForInit::Decl(b'v', v, Sp::default()))
                        }
                    };
                    let t = if choice(2) == 0 { None } else { Some(self.leaf()) };
                    let u = if choice(2) == 0 { None } else { Some(self.leaf()) };
                    vec![st(SK::For(i, t, u, body))]
                } else {
                    let i = match choice(6) {
                        0 => ForInit::Expr(self.leaf()),
                        1 => ForInit::Expr(n(K::Mem(self.val(), self.name()))),
                        2 => ForInit::Expr(n(K::CMem(self.val(), b(self.short())))),
                        3 => ForInit::Expr(n(K::CMem(b(n(K::Call(self.val(), vec![]))), self.val()))),
                        _ => {
                            let k = [b'v', b'l', b'c'][choice(3)];
                            let p = self.param();
                            let p = match p.k {
                                PatK::Assign(l, _) => *l,
                                _ => p,
                            };
                            ForInit::Decl(k, vec![Decl { id: p, init: None, t: Sp::default() }], Sp::default())
                        }
                    };
                    let e = self.short();
                    vec![st(if c == 1 { SK::ForIn(i, e, body) } else { SK::ForOf(i, e, body) })]
                }
            }
            // templates
            9 => {
                let c = choice(7);
                let v = self.upto(max, |g| g.short());
                let hot = choice(v.len() + 1);
                let p = self.plain();
                let q = match choice(9) {
                    0 => vec![],
                    1 => vec![p],
                    2 => vec![b'\\', b'`'],
                    3 => vec![b'$'],
                    4 => vec![b'\n'],
                    5 => b"\\${".to_vec(),
                    6 => vec![b'$', b'$', p],
                    7 => vec![b'\\', b'\\'],
                    _ => vec![b'{', b'}'],
                };
                let qs = (0..v.len() + 1).map(|i| if i == hot { q.clone() } else { vec![] }).collect();
                let t = tpl(qs, v);
                vec![expr(match c {
                    0 => n(K::Tpl(t)),
                    1 => n(K::Tag(self.val(), t)),
                    2 => n(K::Tag(b(n(K::Mem(self.val(), self.name()))), t)),
                    3 => n(K::Mem(b(n(K::Tag(b(n(K::Call(self.val(), vec![]))), t))), self.name())),
                    4 => n(K::Call(b(n(K::Tpl(t))), vec![])),
                    5 => n(K::Bin(0, self.val(), b(n(K::Tpl(t))))),
                    _ => n(K::New(b(n(K::Tag(self.val(), t))), Some(vec![]), Sp::default())),
                })]
            }
            11 => self.long(max),
            12 => self.deep(max),
            13 => self.parts(max),
            // one statement after another, within different lists
            _ => {
                let s = {
                    let k = choice(G::NSTMT);
                    self.statement(k, 0, true)
                };
                let t = self.plain_statement();
                assume(!self.printed || !ends_do(&s) || !matches!(t.k, SK::Empty));
                let v = vec![s, t];
                match choice(max + 1) {
                    0 => v,
                    1 => vec![st(SK::Block(v))],
                    2 => vec![st(SK::Fun(fun(Some(self.name()), false, vec![], v)))],
                    _ => {
                        let x = Case { test: Some(self.leaf()), body: v, t: Sp::default() };
                        let y = Case { test: None, body: vec![], t: Sp::default() };
                        vec![st(SK::Switch(self.leaf(), vec![x, y], Sp::default()))]
                    }
                }
            }
        }
    }
    /// Statements of any parts.
    fn few(&mut self, max: usize) -> Vec<St> {
        match choice(max + 1) {
            0 => vec![],
            1 => vec![expr(self.leaf())],
            _ => vec![expr(self.leaf()), st(SK::Empty)],
        }
    }
    fn branch(&mut self) -> St {
        match choice(5) {
            0 => st(SK::Empty),
            1 => st(SK::Block(vec![])),
            2 => st(SK::Block(vec![expr(self.leaf())])),
            3 => expr(self.leaf()),
            _ => st(SK::Ret(None)),
        }
    }
    fn parts(&mut self, max: usize) -> Vec<St> {
        let s = match choice(8) {
            0 => {
                let b = block(self.few(max));
                let h = choice(4);
                let h = if h == 0 {
                    None
                } else {
                    let p = match h {
                        1 => self.pid(),
                        2 => pat(PatK::Obj(vec![])),
                        _ => {
                            let p = self.pid();
                            pat(PatK::Arr(vec![p]))
                        }
                    };
                    Some((p, block(self.few(max)), Sp::default()))
                };
                let f = if choice(2) == 0 { None } else { Some(block(self.few(max))) };
                assume(h.is_some() || f.is_some());
                SK::Try(b, h, f)
            }
            1 => {
                let (c, x) = (self.leaf(), Box::new(self.branch()));
                let a = if choice(2) == 0 { None } else { Some(Box::new(self.branch())) };
                SK::If(c, x, a)
            }
            2 => {
                let len = choice(max + 1);
                let mut cs = vec![];
                let mut d = false;
                for _ in 0..len {
                    let test = if !d && choice(2) == 0 {
                        d = true;
                        None
                    } else {
                        Some(self.short())
                    };
                    let body = self.few(2);
                    cs.push(Case { test, body, t: Sp::default() });
                }
                SK::Switch(self.leaf(), cs, Sp::default())
            }
            3 => {
                let k = [b'v', b'l', b'c'][choice(3)];
                let len = 1 + choice(max);
                let mut ds = vec![];
                for _ in 0..len {
                    let id = match choice(4) {
                        0 => pat(PatK::Obj(vec![])),
                        1 => pat(PatK::Arr(vec![])),
                        _ => self.pid(),
                    };
                    let init = match choice(3) {
                        0 => None,
                        1 => Some(self.leaf()),
                        _ => Some(n(K::Bin(NBIN, self.val(), self.val()))),
                    };
                    ds.push(Decl { id, init, t: Sp::default() });
                }
                SK::Decl(k, ds)
            }
            4 => {
                let l = self.id();
                let x = match choice(9) {
                    0 => st(SK::Break(Some(name(l.clone())))),
                    1 => st(SK::Cont(Some(name(l.clone())))),
                    2 => st(SK::Break(None)),
                    3 => st(SK::Cont(None)),
                    4 => st(SK::Debugger),
                    5 => st(SK::Labeled(self.id(), Box::new(st(SK::Empty)))),
                    6 => st(SK::Throw(self.short())),
                    7 => st(SK::Ret(Some(self.short()))),
                    _ => self.branch(),
                };
                SK::Labeled(l, Box::new(x))
            }
            5 => {
                // do A; while (B) and the like, for each kind of body
                let x = Box::new(self.branch());
                let c = self.short();
                match choice(3) {
                    0 => SK::While(c, x),
                    1 => SK::Do(x, c),
                    _ => SK::If(c, x, None),
                }
            }
            6 => {
                // import as an expression
                let i = Box::new(n(K::Id(b"import".to_vec())));
                let call = match choice(4) {
                    0 => K::Mem(i, self.name()),
                    a => K::Call(i, (1..a).map(|_| self.leaf()).collect()),
                };
                let c = Box::new(n(call));
                SK::Expr(match choice(5) {
                    0 => *c,
                    1 => n(K::Mem(c, self.name())),
                    2 => n(K::Call(Box::new(n(K::Mem(c, self.name()))), vec![self.short()])),
                    3 => n(K::Bin(choice(2), c, self.val())),
                    _ => n(K::Seq(vec![*c, self.leaf()])),
                })
            }
            _ => {
                let mut v = vec![];
                match choice(4) {
                    0 => v.push(SpecK::Default(self.name())),
                    1 => v.push(SpecK::Namespace(self.name())),
                    _ => {}
                }
                for _ in 0..choice(max + 1) {
                    if v.len() > 0 && matches!(v[0], SpecK::Namespace(_)) {
                        break;
                    }
                    v.push(SpecK::Named(self.name(), if choice(2) == 0 { None } else { Some(self.name()) }));
                }
                assume(v.len() > 0);
                SK::Import(v.into_iter().map(|k| Spec { k, t: Sp::default() }).collect(), b"A".to_vec())
            }
        };
        vec![st(s), expr(self.leaf())]
    }
    /// One list of at most max items, all of one kind.
    fn long(&mut self, max: usize) -> Vec<St> {
        let c = choice(16);
        let len = choice(max + 1);
        let shape = choice(4);
        let mut items = vec![];
        for _ in 0..len {
            if c == 11 {
                break;
            }
            let x = self.leaf();
            items.push(match shape {
                0 => x,
                1 => n(K::Call(self.val(), vec![x])),
                2 => n(K::Arr(vec![Some(x)])),
                _ => n(K::Fun(fun(None, false, vec![], vec![]))),
            });
        }
        let mut params = vec![];
        if matches!(c, 3 | 4 | 12) {
            for x in items.drain(..) {
                let p = self.pid();
                params.push(match shape {
                    0 => p,
                    _ => pat(PatK::Assign(Box::new(p), b(x))),
                });
            }
        }
        let v = |g: &mut G, e: N| {
            let x = g.leaf();
            vec![expr(n(K::Bin(NBIN, b(x), b(e))))]
        };
        let kv = |g: &mut G, items: Vec<N>| -> Vec<Prop> {
            let mut ps = vec![];
            for x in items {
                let k = key(KeyK::Lit(g.id(), Tk::Word));
                ps.push(prop(match shape {
                    1 => PropK::Kv(k, x),
                    2 => PropK::Method(k, fun(None, false, vec![], vec![])),
                    3 => PropK::Spread(x),
                    _ => PropK::Short(g.id()),
                }));
            }
            ps
        };
        match c {
            0 => { let f = self.val(); v(self, n(K::Call(f, items))) },
            1 => v(self, n(K::Arr(items.into_iter().map(Some).collect()))),
            2 => {
                assume(items.len() > 1);
                v(self, n(K::Seq(items)))
            }
            3 => v(self, n(K::Arrow(params, false, Body::Block(vec![], Sp::default())))),
            4 => v(self, n(K::Fun(fun(None, false, params, vec![])))),
            5 => {
                let ps = kv(self, items);
                v(self, n(K::Obj(ps)))
            }
            6 => {
                let mut ms = vec![];
                for x in items {
                    let k = key(KeyK::Lit(self.id(), Tk::Word));
                    ms.push(match shape {
                        0 => member(false, b'm', k, MemberK::Method(fun(None, false, vec![], vec![]))),
                        1 => member(true, b'm', k, MemberK::Value(x)),
                        2 => member(false, b'm', k, MemberK::Value(x)),
                        _ => member(true, b'g', k, MemberK::Method(fun(None, false, vec![], vec![]))),
                    });
                }
                vec![st(SK::Class(class(Some(self.name()), None, ms)))]
            }
            7 => {
                let mut ss = vec![];
                for x in items {
                    let s = match shape {
                        0 => expr(x),
                        1 => {
                            let p = self.pid();
                            self.var_decl(b'l', p, Some(x))
                        }
                        2 => st(SK::Fun(fun(Some(self.name()), false, vec![], vec![]))),
                        _ => st(SK::If(self.leaf(), Box::new(st(SK::Empty)), None)),
                    };
                    ss.push(s);
                }
                vec![st(SK::Block(ss))]
            }
            8 => {
                let cs = items.into_iter().map(|x| Case { test: Some(x), body: if shape == 1 { vec![st(SK::Break(None))] } else { vec![] }, t: Sp::default() }).collect();
                vec![st(SK::Switch(self.leaf(), cs, Sp::default()))]
            }
            9 => {
                assume(items.len() > 0);
                let mut ds = vec![];
                for x in items {
                    let id = self.pid();
                    ds.push(Decl { id, init: if shape == 0 { None } else { Some(x) }, t: Sp::default() });
                }
                vec![st(SK::Decl(b'v', ds))]
            }
            10 => {
                let p = self.plain();
                let qs = (0..items.len() + 1).map(|_| if shape == 1 { vec![p] } else { vec![] }).collect();
                v(self, n(K::Tpl(tpl(qs, items))))
            }
            11 => {
                assume(shape < 2 && len > 0);
                let mut ss = vec![];
                for _ in 0..len {
                    let k = SpecK::Named(self.name(), if shape == 0 { None } else { Some(self.name()) });
                    ss.push(Spec { k, t: Sp::default() });
                }
                vec![st(SK::Import(ss, b"'A'".to_vec()))]
            }
            12 => vec![self.var_decl(b'l', pat(PatK::Arr(params)), None)],
            13 => {
                let ps = kv(self, items);
                assume(shape == 0);
                let x = self.leaf();
                vec![self.var_decl(b'c', pat(PatK::Obj(ps)), Some(x))]
            }
            14 => { let f = self.val(); v(self, n(K::New(f, Some(items), Sp::default()))) },
            // else if
            _ => {
                let mut s = st(SK::Block(vec![]));
                for x in items {
                    s = st(SK::If(x, Box::new(st(SK::Block(vec![]))), if shape == 0 && matches!(s.k, SK::Block(_)) { None } else { Some(Box::new(s)) }));
                }
                vec![s]
            }
        }
    }
    /// Constructs of two kinds within each other, max in all.
    fn deep(&mut self, max: usize) -> Vec<St> {
        if choice(2) == 0 {
            let (j, k) = (choice(24), choice(24));
            let mut e = self.leaf();
            for i in 0..max {
                e = self.around(if i % 2 == 0 { j } else { k }, e);
            }
            let x = self.leaf();
            vec![expr(n(K::Bin(NBIN, b(x), b(e))))]
        } else {
            let (j, k) = (choice(18), choice(18));
            let mut s = expr(self.leaf());
            for i in 0..max {
                s = self.over(if i % 2 == 0 { j } else { k }, s);
            }
            vec![s]
        }
    }
    fn around(&mut self, k: usize, e: N) -> N {
        let x = self.leaf();
        let id = key(KeyK::Lit(vec![b'A'], Tk::Word));
        let m = |e: N| fun(None, false, vec![], vec![st(SK::Ret(Some(e)))]);
        n(match k {
            0 => K::Arr(vec![Some(e)]),
            1 => K::Obj(vec![prop(PropK::Kv(id, e))]),
            2 => K::Call(b(x), vec![e]),
            3 => K::Call(b(e), vec![]),
            4 => K::Mem(b(e), name(vec![b'A'])),
            5 => K::CMem(b(x), b(e)),
            6 => K::Tpl(tpl(vec![vec![], vec![]], vec![e])),
            7 => K::Cond(b(x), b(e), b(self.leaf())),
            8 => K::Cond(b(x), b(self.leaf()), b(e)),
            9 => K::Cond(b(e), b(x), b(self.leaf())),
            10 => K::Arrow(vec![], false, Body::Expr(b(e))),
            11 => K::Fun(m(e)),
            12 => K::Class(class(None, None, vec![member(false, b'm', id, MemberK::Method(m(e)))])),
            13 => K::Bin(0, b(e), b(x)),
            14 => K::Bin(0, b(x), b(e)),
            15 => K::Bin(NBIN, b(x), b(e)),
            16 => K::Pre(2, b(e)),
            17 => K::New(b(e), Some(vec![]), Sp::default()),
            18 => K::Seq(vec![x, e]),
            19 => K::Obj(vec![prop(PropK::Method(id, m(e)))]),
            20 => K::Class(class(None, Some(b(e)), vec![])),
            21 => K::Arr(vec![Some(n(K::Spread(b(e))))]),
            22 => K::Class(class(None, None, vec![member(true, b'm', id, MemberK::Value(e))])),
            _ => K::Arrow(vec![], false, Body::Block(vec![st(SK::Ret(Some(e)))], Sp::default())),
        })
    }
    fn over(&mut self, k: usize, s: St) -> St {
        let x = self.leaf();
        let sp = Sp::default;
        let id = name(vec![b'A']);
        let v = |e: N| SK::Expr(n(K::Bin(NBIN, b(n(K::Id(vec![b'A']))), b(e))));
        // an if without an else would take the one of the statement around it
        let t = |s: St| Box::new(if dangles(&s) { st(SK::Block(vec![s])) } else { s });
        st(match k {
            0 => SK::Block(vec![s]),
            1 => SK::If(x, Box::new(st(SK::Block(vec![s]))), None),
            2 => SK::If(x, Box::new(st(SK::Empty)), Some(Box::new(s))),
            3 => SK::While(x, Box::new(s)),
            4 => SK::Do(Box::new(s), x),
            5 => SK::For(None, None, None, Box::new(s)),
            6 => SK::ForIn(ForInit::Expr(n(K::Id(vec![b'A']))), x, Box::new(s)),
            7 => SK::ForOf(ForInit::Expr(n(K::Id(vec![b'A']))), x, Box::new(s)),
            8 => SK::Try(block(vec![s]), None, Some(block(vec![]))),
            9 => SK::Try(block(vec![]), Some((pat(PatK::Id(vec![b'A'])), block(vec![s]), sp())), None),
            10 => SK::Labeled(vec![b'A'], Box::new(s)),
            11 => SK::Fun(fun(Some(id), false, vec![], vec![s])),
            12 => SK::Switch(x, vec![Case { test: None, body: vec![s], t: sp() }], sp()),
            13 => v(n(K::Fun(fun(None, false, vec![], vec![s])))),
            14 => v(n(K::Arrow(vec![], false, Body::Block(vec![s], sp())))),
            15 => SK::Class(class(Some(id), None, vec![member(false, b'm', word("A"), MemberK::Method(fun(None, false, vec![], vec![s])))])),
            16 => SK::If(x, t(s), Some(Box::new(st(SK::Empty)))),
            _ => v(n(K::Obj(vec![prop(PropK::Method(word("A"), fun(None, false, vec![], vec![s])))]))),
        })
    }
    /// One statement of each kind.
    fn plain_statement(&mut self) -> St {
        let e = self.leaf();
        let x = Box::new(st(SK::Empty));
        let sp = Sp::default;
        st(match choice(24) {
            0 => SK::Empty,
            1 => SK::Debugger,
            2 => SK::Expr(e),
            3 => return { let p = self.pid(); self.var_decl([b'v', b'l', b'c'][choice(3)], p, Some(e)) },
            4 => SK::Ret(None),
            5 => SK::Break(None),
            6 => SK::Cont(None),
            7 => SK::Throw(e),
            8 => SK::If(e, x, None),
            9 => SK::While(e, x),
            10 => SK::Do(x, e),
            11 => SK::For(None, None, None, x),
            12 => SK::Try(block(vec![]), None, Some(block(vec![]))),
            13 => SK::Block(vec![]),
            14 => SK::Labeled(self.id(), x),
            15 => SK::Fun(fun(Some(self.name()), choice(2) == 1, vec![], vec![])),
            16 => SK::Class(class(Some(self.name()), None, vec![])),
            17 => SK::Switch(e, vec![], sp()),
            18 => SK::Expr(n(K::Arr(vec![Some(e)]))),
            19 => SK::Expr(n(K::Tpl(tpl(vec![vec![]], vec![])))),
            20 => SK::Expr(n(K::Pre([0, 1, 2, 4, 7][choice(5)], b(e)))),
            21 => SK::Expr(n(K::Obj(vec![]))),
            22 => SK::Expr(n(K::Fun(fun(None, false, vec![], vec![])))),
            _ => {
                assume(!self.noslash);
                SK::Expr(lit(b'r', b"/A/"))
            }
        })
    }
}

fn k_text(k: &Key) -> Bytes {
    match &k.k {
        KeyK::Lit(s, _) => s.clone(),
        _ => vec![],
    }
}
