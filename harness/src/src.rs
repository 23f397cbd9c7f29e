//! Writes a reference program as source text, with no more parentheses than ECMAScript requires.
use crate::tree::*;

pub struct Tok {
    pub kind: Tk,
    pub s: u32,
    pub e: u32,
    /// no line terminator may come before this token
    pub nonl: bool,
}

pub struct W {
    pub out: Vec<u8>,
    pub toks: Vec<Tok>,
    /// replaces the separator before this token
    pub slot: usize,
    pub fill: Vec<u8>,
    pub spaced: bool,
    restricted: bool,
    noin: bool,
    noins: Vec<bool>,
    /// statements whose semicolon gets replaced with this text instead
    pub semi: Vec<u8>,
    /// but only within this many brackets
    pub semi_at: usize,
}

impl W {
    pub fn new() -> W {
        W { out: vec![], toks: vec![], slot: usize::MAX, fill: vec![], spaced: false, restricted: false, noin: false, noins: vec![], semi: b";".to_vec(), semi_at: usize::MAX }
    }
    fn need_space(&self, kind: Tk, t: &[u8]) -> bool {
        let l = match self.toks.last() {
            Some(l) => l,
            None => return false,
        };
        let last = self.out[l.e as usize - 1];
        match (l.kind, kind) {
            (Tk::Word, Tk::Word) | (Tk::Word, Tk::Num) | (Tk::Num, Tk::Word) | (Tk::Num, Tk::Num) | (Tk::Re, Tk::Word) => true,
            (Tk::Num, Tk::Punct) => t[0] == b'.',
            (Tk::Punct, Tk::Num) => last == b'.',
            (Tk::Punct, Tk::Re) => last == b'/' || last == b'<',
            (Tk::Punct, Tk::Punct) => {
                (last == b'+' && t[0] == b'+') || (last == b'-' && t[0] == b'-') || (last == b'<' && t[0] == b'!')
                    || (last == b'-' && t[0] == b'>')
            }
            _ => false,
        }
    }
    pub fn tok(&mut self, kind: Tk, t: &[u8]) {
        if self.toks.len() == self.slot {
            let f = std::mem::take(&mut self.fill);
            self.out.extend_from_slice(&f);
            self.fill = f;
        } else if self.need_space(kind, t) || (self.spaced && !self.toks.is_empty()) {
            self.out.push(b' ');
        }
        let s = self.out.len() as u32;
        self.out.extend_from_slice(t);
        let nonl = self.restricted;
        self.restricted = false;
        self.toks.push(Tok { kind, s, e: self.out.len() as u32, nonl });
    }
    pub fn p(&mut self, t: &str) {
        // inside brackets, `in` is an operator like any other
        match t {
            "(" | "[" | "{" => {
                self.noins.push(self.noin);
                self.noin = false;
            }
            ")" | "]" | "}" => self.noin = self.noins.pop().unwrap_or(false),
            _ => {}
        }
        self.tok(Tk::Punct, t.as_bytes());
    }
    pub fn w(&mut self, t: &str) {
        self.tok(Tk::Word, t.as_bytes());
    }
    /// the next token must stay on this line
    pub fn no_newline(&mut self) {
        self.restricted = true;
    }
    fn open(&self, t: &Sp) {
        t.i.set(self.toks.len() as u32);
    }
    fn close(&self, t: &Sp) {
        t.j.set(self.toks.len() as u32);
    }
    fn first_text(&self, i: usize) -> &[u8] {
        match self.toks.get(i) {
            Some(t) => &self.out[t.s as usize..t.e as usize],
            None => b"",
        }
    }
    fn rewind(&mut self, toks: usize, len: usize) {
        self.toks.truncate(toks);
        self.out.truncate(len);
    }

    fn name(&mut self, n: &Name) {
        self.open(&n.t);
        self.tok(Tk::Word, &n.n);
        self.close(&n.t);
    }

    /// Write an expression where the grammar wants at least the given level.
    pub fn expr(&mut self, n: &N, min: u8) {
        if prec(n) < min || (self.noin && matches!(n.k, K::Bin(14, ..))) {
            self.wrapped(n);
        } else {
            self.bare(n);
        }
    }
    fn wrapped(&mut self, n: &N) {
        self.p("(");
        self.bare(n);
        self.p(")");
    }
    /// Write an expression that may not begin with certain tokens.
    fn guarded(&mut self, n: &N, min: u8, statement: bool) {
        let (t, l) = (self.toks.len(), self.out.len());
        self.expr(n, min);
        let f = self.first_text(t);
        let bad = f == b"{" || (statement && (f == b"function" || f == b"class"));
        if bad {
            self.rewind(t, l);
            self.wrapped(n);
        }
    }
    fn list(&mut self, v: &[N]) {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.expr(x, 1);
        }
    }
    fn args(&mut self, v: &[N]) {
        self.p("(");
        self.list(v);
        self.p(")");
    }
    fn bare(&mut self, n: &N) {
        self.open(&n.t);
        match &n.k {
            K::Id(v) => self.tok(Tk::Word, v),
            K::This => self.w("this"),
            K::Lit(tag, v) => match tag {
                b'n' | b'b' => self.tok(Tk::Num, v),
                b's' => self.tok(Tk::Str, v),
                b'r' => self.tok(Tk::Re, v),
                _ => self.tok(Tk::Word, v),
            },
            K::Seq(v) => self.list(v),
            K::Arr(v) => {
                self.p("[");
                for (i, x) in v.iter().enumerate() {
                    if let Some(x) = x {
                        self.expr(x, 1);
                    }
                    if i + 1 < v.len() {
                        self.p(",");
                    }
                }
                self.p("]");
            }
            K::Mem(o, m) => {
                self.expr(o, 17);
                self.p(".");
                // the name of a property is not separated from the dot by comments
                self.name(m);
            }
            K::CMem(o, p) => {
                self.expr(o, 17);
                self.p("[");
                self.expr(p, 0);
                self.p("]");
            }
            K::Target => {
                self.w("new");
                self.p(".");
                self.w("target");
            }
            K::Call(c, a) => {
                self.expr(c, 17);
                self.args(a);
            }
            K::Bin(o, l, r) => {
                let (t, p) = OPS[*o];
                match p {
                    1 => self.expr(l, 16),
                    13 => self.expr(l, 15),
                    _ => self.expr(l, p),
                }
                if t.as_bytes()[0] == b'i' {
                    self.w(t)
                } else {
                    self.p(t)
                }
                match p {
                    1 | 13 => self.expr(r, p),
                    _ => self.expr(r, p + 1),
                }
            }
            K::Pre(o, e) => {
                let t = PRES[*o];
                if t.len() > 2 {
                    self.w(t)
                } else {
                    self.p(t)
                }
                self.expr(e, if *o >= 7 { 16 } else { 14 });
            }
            K::New(c, a, t) => {
                self.w("new");
                self.open(t);
                if prec(c) < 18 || calls(c) {
                    self.wrapped(c)
                } else {
                    self.bare(c)
                }
                if let Some(a) = a {
                    self.args(a);
                }
                self.close(t);
            }
            K::Post(o, e) => {
                self.expr(e, 16);
                self.no_newline();
                self.p(PRES[*o]);
            }
            K::Cond(t, c, a) => {
                self.expr(t, 3);
                self.p("?");
                self.expr(c, 1);
                self.p(":");
                self.expr(a, 1);
            }
            K::Tpl(t) => self.tpl(t),
            K::Tag(e, t) => {
                self.expr(e, 17);
                self.tpl(t);
            }
            K::Spread(e) => {
                self.p("...");
                self.expr(e, 1);
            }
            K::Arrow(ps, bare, body) => {
                if *bare {
                    self.pat(&ps[0]);
                } else {
                    self.params(ps);
                }
                self.no_newline();
                self.p("=>");
                match body {
                    Body::Expr(e) => self.guarded(e, 1, false),
                    Body::Block(b, t) => self.block(b, t),
                }
            }
            K::Obj(ps) => self.props(ps),
            K::Fun(f) => {
                self.w("function");
                self.fun(f);
            }
            K::Class(c) => self.class(c),
        }
        self.close(&n.t);
    }
    fn tpl(&mut self, t: &Tpl) {
        self.open(&t.t);
        for (i, q) in t.quasis.iter().enumerate() {
            let mut s = vec![if i == 0 { b'`' } else { b'}' }];
            s.extend_from_slice(q);
            if i + 1 == t.quasis.len() {
                s.push(b'`');
            } else {
                s.extend_from_slice(b"${");
            }
            self.tok(Tk::Str, &s);
            if let Some(e) = t.exprs.get(i) {
                let noin = std::mem::replace(&mut self.noin, false);
                self.expr(e, 0);
                self.noin = noin;
            }
        }
        self.close(&t.t);
    }
    fn props(&mut self, ps: &[Prop]) {
        self.p("{");
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.open(&p.t);
            match &p.k {
                PropK::Short(v) => self.tok(Tk::Word, v),
                PropK::Kv(k, v) => {
                    self.key(k);
                    self.p(":");
                    self.expr(v, 1);
                }
                PropK::Method(k, f) => {
                    self.key(k);
                    self.fun(f);
                }
                PropK::Spread(e) => {
                    self.p("...");
                    self.expr(e, 1);
                }
            }
            self.close(&p.t);
        }
        self.p("}");
    }
    fn key(&mut self, k: &Key) {
        self.open(&k.t);
        match &k.k {
            KeyK::Lit(v, t) => self.tok(*t, v),
            KeyK::Bin(v) => self.tok(Tk::Num, v),
            KeyK::Comp(e) => {
                self.p("[");
                self.expr(e, 0);
                self.p("]");
            }
        }
        self.close(&k.t);
    }
    fn params(&mut self, ps: &[Pat]) {
        self.p("(");
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.pat(p);
        }
        self.p(")");
    }
    fn fun(&mut self, f: &Fun) {
        if f.gen {
            self.p("*");
        }
        if let Some(n) = &f.name {
            self.name(n);
        }
        self.open(&f.t);
        self.params(&f.params);
        self.block(&f.body, &f.bt);
        self.close(&f.t);
    }
    fn class(&mut self, c: &Cls) {
        self.w("class");
        if let Some(n) = &c.name {
            self.name(n);
        }
        if let Some(e) = &c.ext {
            self.w("extends");
            self.expr(e, 16);
        }
        self.open(&c.bt);
        self.p("{");
        for m in &c.members {
            self.open(&m.t);
            if m.stat {
                self.w("static");
            }
            match m.kind {
                b'g' => self.w("get"),
                b's' => self.w("set"),
                _ => {}
            }
            self.key(&m.key);
            match &m.k {
                MemberK::Method(f) => self.fun(f),
                MemberK::Value(e) => {
                    self.p("=");
                    self.expr(e, 1);
                }
            }
            self.close(&m.t);
            if let MemberK::Value(_) = m.k {
                self.p(";");
            }
        }
        self.p("}");
        self.close(&c.bt);
    }
    pub fn pat(&mut self, p: &Pat) {
        self.open(&p.t);
        match &p.k {
            PatK::Void => {}
            PatK::Id(v) => self.tok(Tk::Word, v),
            PatK::Obj(ps) => self.props(ps),
            PatK::Arr(v) => {
                self.p("[");
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.pat(x);
                }
                self.p("]");
            }
            PatK::Rest(n) => {
                self.p("...");
                self.name(n);
            }
            PatK::Assign(l, r) => {
                self.pat(l);
                self.p("=");
                self.expr(r, 1);
            }
        }
        self.close(&p.t);
    }
    pub fn block(&mut self, b: &[St], t: &Sp) {
        self.open(t);
        self.p("{");
        self.stmts(b);
        self.p("}");
        self.close(t);
    }
    pub fn stmts(&mut self, b: &[St]) {
        for s in b {
            self.stmt(s);
        }
    }
    fn decls(&mut self, k: u8, ds: &[Decl]) {
        self.w(match k {
            b'v' => "var",
            b'l' => "let",
            _ => "const",
        });
        for (i, d) in ds.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.open(&d.t);
            self.pat(&d.id);
            if let Some(e) = &d.init {
                self.p("=");
                self.expr(e, 1);
            }
            self.close(&d.t);
        }
    }
    fn init(&mut self, i: &ForInit) {
        self.noin = true;
        match i {
            ForInit::Decl(k, ds, t) => {
                self.open(t);
                self.decls(*k, ds);
                self.close(t);
            }
            ForInit::Expr(e) => self.expr(e, 0),
        }
        self.noin = false;
    }
    fn semi(&mut self) {
        let s = std::mem::take(&mut self.semi);
        if s == b";" || self.semi_at != self.noins.len() {
            self.p(";");
        } else {
            self.out.extend_from_slice(&s);
        }
        self.semi = s;
    }
    /// Write a statement that ends with another.
    fn tail(&mut self, s: &St, t: &Sp) {
        self.stmt(s);
        t.j.set(s.t.j.get());
    }
    pub fn stmt(&mut self, s: &St) {
        self.open(&s.t);
        match &s.k {
            SK::Empty => self.p(";"),
            SK::Debugger => {
                self.w("debugger");
                self.close(&s.t);
                return self.semi();
            }
            SK::Expr(e) => {
                self.guarded(e, 0, true);
                self.close(&s.t);
                return self.semi();
            }
            SK::Decl(k, ds) => {
                self.decls(*k, ds);
                self.semi();
            }
            SK::Ret(e) => {
                self.w("return");
                if let Some(e) = e {
                    self.no_newline();
                    self.expr(e, 0);
                }
                self.close(&s.t);
                return self.semi();
            }
            SK::Break(l) | SK::Cont(l) => {
                self.w(if let SK::Break(_) = s.k { "break" } else { "continue" });
                if let Some(l) = l {
                    self.no_newline();
                    self.name(l);
                }
                self.close(&s.t);
                return self.semi();
            }
            SK::Throw(e) => {
                self.w("throw");
                self.no_newline();
                self.expr(e, 0);
                self.close(&s.t);
                return self.semi();
            }
            SK::If(t, c, a) => {
                self.w("if");
                self.p("(");
                self.expr(t, 0);
                self.p(")");
                match a {
                    Some(a) => {
                        self.stmt(c);
                        self.w("else");
                        return self.tail(a, &s.t);
                    }
                    None => return self.tail(c, &s.t),
                }
            }
            SK::While(t, b) => {
                self.w("while");
                self.p("(");
                self.expr(t, 0);
                self.p(")");
                return self.tail(b, &s.t);
            }
            SK::Do(b, t) => {
                self.w("do");
                self.stmt(b);
                self.w("while");
                self.p("(");
                self.expr(t, 0);
                self.p(")");
                self.close(&s.t);
                return self.semi();
            }
            SK::For(i, t, u, b) => {
                self.w("for");
                self.p("(");
                if let Some(i) = i {
                    self.init(i);
                }
                self.p(";");
                if let Some(t) = t {
                    self.expr(t, 0);
                }
                self.p(";");
                if let Some(u) = u {
                    self.expr(u, 0);
                }
                self.p(")");
                return self.tail(b, &s.t);
            }
            SK::ForIn(i, e, b) | SK::ForOf(i, e, b) => {
                self.w("for");
                self.p("(");
                self.init(i);
                if let SK::ForIn(..) = s.k {
                    self.w("in");
                    self.expr(e, 0);
                } else {
                    self.w("of");
                    self.expr(e, 1);
                }
                self.p(")");
                return self.tail(b, &s.t);
            }
            SK::Try(b, c, f) => {
                self.w("try");
                self.block(&b.b, &b.t);
                if let Some((p, b, t)) = c {
                    self.open(t);
                    self.w("catch");
                    self.p("(");
                    self.pat(p);
                    self.p(")");
                    self.block(&b.b, &b.t);
                    self.close(t);
                }
                if let Some(b) = f {
                    self.w("finally");
                    self.block(&b.b, &b.t);
                }
            }
            SK::Block(b) => {
                self.p("{");
                self.stmts(b);
                self.p("}");
            }
            SK::Labeled(l, b) => {
                self.tok(Tk::Word, l);
                self.p(":");
                return self.tail(b, &s.t);
            }
            SK::Fun(f) => {
                self.w("function");
                self.fun(f);
            }
            SK::Class(c) => self.class(c),
            SK::Switch(e, cs, t) => {
                self.w("switch");
                self.p("(");
                self.expr(e, 0);
                self.p(")");
                self.open(t);
                self.p("{");
                for c in cs {
                    self.open(&c.t);
                    match &c.test {
                        Some(e) => {
                            self.w("case");
                            self.expr(e, 0);
                        }
                        None => self.w("default"),
                    }
                    self.p(":");
                    self.stmts(&c.body);
                    self.close(&c.t);
                }
                self.p("}");
                self.close(t);
            }
            SK::Import(specs, source) => {
                self.w("import");
                let mut named = false;
                for (i, sp) in specs.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    match &sp.k {
                        SpecK::Default(n) => {
                            self.open(&sp.t);
                            self.name(n);
                            self.close(&sp.t);
                        }
                        SpecK::Namespace(n) => {
                            self.open(&sp.t);
                            self.p("*");
                            self.w("as");
                            self.name(n);
                            self.close(&sp.t);
                        }
                        SpecK::Named(n, l) => {
                            if !named {
                                self.p("{");
                                named = true;
                            }
                            self.open(&sp.t);
                            self.name(n);
                            if let Some(l) = l {
                                self.w("as");
                                self.name(l);
                            }
                            self.close(&sp.t);
                        }
                    }
                }
                if named {
                    self.p("}");
                }
                if !specs.is_empty() {
                    self.w("from");
                }
                let mut q = vec![b'"'];
                q.extend_from_slice(source);
                q.push(b'"');
                self.tok(Tk::Str, &q);
                self.close(&s.t);
                return self.semi();
            }
        }
        self.close(&s.t);
    }
}

/// Whether a call is part of the member chain an expression begins with.
pub fn calls(n: &N) -> bool {
    match &n.k {
        K::Call(..) => true,
        K::Mem(o, _) | K::CMem(o, _) | K::Tag(o, _) => prec(o) >= 17 && calls(o),
        _ => false,
    }
}

/// Level of the ECMAScript grammar production an expression belongs to.
pub fn prec(n: &N) -> u8 {
    match &n.k {
        K::Seq(_) => 0,
        K::Spread(_) | K::Arrow(..) => 1,
        K::Bin(o, ..) => OPS[*o].1,
        K::Cond(..) => 2,
        K::Pre(o, _) if *o < 7 => 14,
        K::Pre(..) | K::Post(..) => 15,
        K::New(_, None, _) => 16,
        K::Call(..) => 17,
        K::Mem(..) | K::CMem(..) | K::Tag(..) | K::New(..) | K::Target => {
            if calls(n) {
                17
            } else {
                18
            }
        }
        _ => 19,
    }
}
