//! ESTree: the JSON a program should serialise to, written from its tree.
use crate::fidelity::{accept, program, text, write};
use crate::gen::*;
use crate::parsed::op_text;
use crate::sym::*;
use crate::total::{element, CTX};
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use ratel::Module;

struct J {
    o: Vec<u8>,
}

fn json(m: &Module) -> Vec<u8> {
    let mut j = J { o: Vec::with_capacity(1024) };
    let b = m.body();
    j.open("Program");
    j.key("body");
    j.stmts(&b);
    let (mut s, mut e) = (0, 0);
    for (i, n) in b.iter().enumerate() {
        if i == 0 {
            s = n.start;
        }
        e = n.end;
    }
    j.close(s, e);
    j.o
}

trait Named {
    const FUNCTION: &'static str;
    const CLASS: &'static str;
    fn put(&self, j: &mut J);
}
impl Named for EmptyName {
    const FUNCTION: &'static str = "FunctionExpression";
    const CLASS: &'static str = "ClassExpression";
    fn put(&self, j: &mut J) {
        j.w("null")
    }
}
impl<'a> Named for MandatoryName<'a> {
    const FUNCTION: &'static str = "FunctionDeclaration";
    const CLASS: &'static str = "ClassDeclaration";
    fn put(&self, j: &mut J) {
        j.id(&self.0)
    }
}
impl<'a> Named for OptionalName<'a> {
    const FUNCTION: &'static str = "FunctionExpression";
    const CLASS: &'static str = "ClassExpression";
    fn put(&self, j: &mut J) {
        j.oid(&self.0)
    }
}

impl J {
    fn w(&mut self, s: &str) {
        self.o.extend_from_slice(s.as_bytes());
    }
    fn open(&mut self, t: &str) {
        self.w("{\"type\":\"");
        self.w(t);
        self.o.push(b'"');
    }
    fn key(&mut self, k: &str) {
        self.w(",\"");
        self.w(k);
        self.w("\":");
    }
    fn num(&mut self, n: u32) {
        let s = n.to_string();
        self.w(&s);
    }
    fn close(&mut self, s: u32, e: u32) {
        self.key("start");
        self.num(s);
        self.key("end");
        self.num(e);
        self.o.push(b'}');
    }
    fn flag(&mut self, k: &str, v: bool) {
        self.key(k);
        self.w(if v { "true" } else { "false" });
    }
    fn text(&mut self, k: &str, v: &str) {
        self.key(k);
        self.string(v);
    }
    fn string(&mut self, v: &str) {
        self.o.push(b'"');
        for b in v.bytes() {
            match b {
                b'"' | b'\\' => self.o.extend_from_slice(&[b'\\', b]),
                b'\n' => self.w("\\n"),
                b'\r' => self.w("\\r"),
                b'\t' => self.w("\\t"),
                8 => self.w("\\b"),
                12 => self.w("\\f"),
                0..=31 => {
                    self.w("\\u00");
                    self.o.push(b'0' + b / 16);
                    self.o.push(if b % 16 < 10 { b'0' + b % 16 } else { b'a' + b % 16 - 10 });
                }
                _ => self.o.push(b),
            }
        }
        self.o.push(b'"');
    }
    fn list<'a, T: 'a + Copy, F: FnMut(&mut J, &Node<'a, T>)>(&mut self, l: &NodeList<'a, T>, mut f: F) {
        self.o.push(b'[');
        for (i, x) in l.iter().enumerate() {
            if i > 0 {
                self.o.push(b',');
            }
            f(self, x);
        }
        self.o.push(b']');
    }
    fn name(&mut self, v: &str, s: u32, e: u32) {
        self.open("Identifier");
        self.text("name", v);
        self.close(s, e);
    }
    fn id<'a>(&mut self, n: &IdentifierNode<'a>) {
        self.name(n.item, n.start, n.end);
    }
    fn oid<'a>(&mut self, n: &Option<IdentifierNode<'a>>) {
        match n {
            Some(n) => self.id(n),
            None => self.w("null"),
        }
    }
    fn literal(&mut self, l: &Literal) {
        self.open("Literal");
        let raw = match *l {
            Literal::Undefined => "undefined",
            Literal::Null => {
                self.key("value");
                self.w("null");
                "null"
            }
            Literal::True => {
                self.flag("value", true);
                "true"
            }
            Literal::False => {
                self.flag("value", false);
                "false"
            }
            Literal::String(v) => {
                self.text("value", &v[1..v.len() - 1]);
                v
            }
            Literal::RegEx(v) => {
                let mut e = v.len();
                while v.as_bytes()[e - 1] != b'/' {
                    e -= 1;
                }
                self.key("regex");
                self.w("{\"pattern\":");
                self.string(&v[1..e - 1]);
                self.text("flags", &v[e..]);
                self.o.push(b'}');
                v
            }
            Literal::Number(v) | Literal::Binary(v) => {
                self.key("value");
                self.value(v);
                v
            }
        };
        self.text("raw", raw);
    }
    fn value(&mut self, v: &str) {
        let b = v.as_bytes();
        let (radix, digits) = match (b[0], if b.len() > 1 { b[1] | 0x20 } else { 0 }) {
            (b'0', b'x') => (16, &b[2..]),
            (b'0', b'o') => (8, &b[2..]),
            (b'0', b'b') => (2, &b[2..]),
            (b'0', _) if b.len() > 1 && b.iter().all(|c| c.wrapping_sub(b'0') < 8) => (8, b),
            _ => (10, b),
        };
        let mut n: u64 = 0;
        for &c in digits {
            let d = if c <= b'9' { c.wrapping_sub(b'0') } else { (c | 0x20) - b'a' + 10 } as u64;
            if radix == 10 && d > 9 || n > (1 << 58) {
                // a fraction, exponent or large number
                let f: f64 = match radix {
                    10 => v.parse().unwrap(),
                    _ => return assume(false),
                };
                let s = serde_json::to_string(&f).unwrap();
                return self.w(&s);
            }
            n = n * radix + d;
        }
        let s = n.to_string();
        self.w(&s);
    }
    fn es<'a>(&mut self, l: &ExpressionList<'a>) {
        self.list(l, |j, x| j.e(x));
    }
    fn oe<'a>(&mut self, n: &Option<ExpressionNode<'a>>) {
        match n {
            Some(n) => self.e(n),
            None => self.w("null"),
        }
    }
    fn e<'a>(&mut self, n: &ExpressionNode<'a>) {
        self.ex(&n.item);
        self.close(n.start, n.end);
    }
    fn ex<'a>(&mut self, x: &Expression<'a>) {
        match *x {
            Expression::Void => check(false, 20),
            Expression::This(_) => self.open("ThisExpression"),
            Expression::Identifier(v) => {
                self.open("Identifier");
                self.text("name", v);
            }
            Expression::Literal(ref l) => self.literal(l),
            Expression::Sequence(ref x) => {
                self.open("SequenceExpression");
                self.key("expressions");
                self.es(&x.body);
            }
            Expression::Array(ref x) => {
                self.open("ArrayExpression");
                self.key("elements");
                self.o.push(b'[');
                // (holes at the end are left out)
                let mut n = 0;
                for (i, x) in x.body.iter().enumerate() {
                    if let Expression::Void = x.item {
                    } else {
                        n = i + 1;
                    }
                }
                for (i, x) in x.body.iter().take(n).enumerate() {
                    if i > 0 {
                        self.o.push(b',');
                    }
                    match x.item {
                        Expression::Void => self.w("null"),
                        _ => self.e(x),
                    }
                }
                self.o.push(b']');
            }
            Expression::Member(ref x) => {
                self.open("MemberExpression");
                self.key("object");
                self.e(&x.object);
                self.key("property");
                self.id(&x.property);
                self.flag("computed", false);
            }
            Expression::ComputedMember(ref x) => {
                self.open("MemberExpression");
                self.key("object");
                self.e(&x.object);
                self.key("property");
                self.e(&x.property);
                self.flag("computed", true);
            }
            Expression::MetaProperty(ref x) => {
                self.open("MetaProperty");
                self.key("meta");
                self.id(&x.meta);
                self.key("property");
                self.id(&x.property);
            }
            Expression::Call(ref x) => {
                self.open("CallExpression");
                self.key("callee");
                self.e(&x.callee);
                self.key("arguments");
                self.es(&x.arguments);
            }
            Expression::Binary(ref x) => {
                let o = op_text(x.operator);
                self.open(match o {
                    "&&" | "||" => "LogicalExpression",
                    "==" | "===" | "!=" | "!==" | "<=" | ">=" => "BinaryExpression",
                    _ if o.ends_with('=') => "AssignmentExpression",
                    _ => "BinaryExpression",
                });
                self.text("operator", o);
                self.key("left");
                self.e(&x.left);
                self.key("right");
                self.e(&x.right);
            }
            Expression::Prefix(ref x) if op_text(x.operator) == "new" => {
                self.open("NewExpression");
                self.key("callee");
                match x.operand.item {
                    Expression::Call(ref c) => {
                        self.e(&c.callee);
                        self.key("arguments");
                        self.es(&c.arguments);
                    }
                    _ => {
                        self.e(&x.operand);
                        self.key("arguments");
                        self.w("[]");
                    }
                }
            }
            Expression::Prefix(ref x) => self.unary(x.operator, &x.operand, true),
            Expression::Postfix(ref x) => self.unary(x.operator, &x.operand, false),
            Expression::Conditional(ref x) => {
                self.open("ConditionalExpression");
                self.key("test");
                self.e(&x.test);
                self.key("consequent");
                self.e(&x.consequent);
                self.key("alternate");
                self.e(&x.alternate);
            }
            Expression::Template(ref x) => self.template(x),
            Expression::TaggedTemplate(ref x) => {
                self.open("TaggedTemplateExpression");
                self.key("tag");
                self.e(&x.tag);
                self.key("quasi");
                self.template(&x.quasi.item);
                self.close(x.quasi.start, x.quasi.end);
            }
            Expression::Spread(ref x) => {
                self.open("SpreadElement");
                self.key("argument");
                self.e(&x.argument);
            }
            Expression::Arrow(ref x) => {
                self.open("ArrowFunctionExpression");
                self.key("params");
                self.pats(&x.params);
                self.key("body");
                match x.body {
                    ArrowBody::Expression(ref x) => self.e(x),
                    ArrowBody::Block(ref b) => self.block(b),
                }
            }
            Expression::Object(ref x) => {
                self.open("ObjectExpression");
                self.key("properties");
                self.props(&x.body);
            }
            Expression::Function(ref f) => self.fun(f),
            Expression::Class(ref c) => self.class(c),
        }
    }
    fn unary<'a>(&mut self, o: OperatorKind, x: &ExpressionNode<'a>, prefix: bool) {
        let o = op_text(o);
        self.open(if o == "++" || o == "--" { "UpdateExpression" } else { "UnaryExpression" });
        self.text("operator", o);
        self.key("argument");
        self.e(x);
        self.flag("prefix", prefix);
    }
    fn template<'a>(&mut self, t: &TemplateLiteral<'a>) {
        self.open("TemplateLiteral");
        self.key("quasis");
        let n = t.quasis.iter().count();
        let mut i = 0;
        self.list(&t.quasis, |j, q| {
            i += 1;
            j.open("TemplateElement");
            j.flag("tail", i == n);
            j.key("value");
            j.w("{\"raw\":");
            j.string(q.item);
            j.text("cooked", q.item);
            j.o.push(b'}');
            // without the delimiter at either side
            j.close(q.start + 1, q.end - 1);
        });
        self.key("expressions");
        self.es(&t.expressions);
    }
    fn pkey<'a>(&mut self, k: &Node<'a, PropertyKey<'a>>) {
        match k.item {
            PropertyKey::Literal(v) | PropertyKey::Binary(v) => self.name(v, k.start, k.end),
            PropertyKey::Computed(ref x) => self.e(x),
        }
    }
    fn computed<'a>(&mut self, k: &Node<'a, PropertyKey<'a>>) {
        let c = match k.item {
            PropertyKey::Computed(_) => true,
            _ => false,
        };
        self.flag("computed", c);
    }
    fn props<'a>(&mut self, l: &NodeList<'a, Property<'a>>) {
        self.list(l, |j, p| {
            match p.item {
                Property::Shorthand(v) => return j.name(v, p.start, p.end),
                Property::Literal { ref key, ref value } => {
                    j.open("Property");
                    j.key("key");
                    j.pkey(key);
                    j.flag("method", false);
                    j.flag("shorthand", false);
                    j.computed(key);
                    j.key("value");
                    j.e(value);
                    j.text("kind", "init");
                }
                Property::Method { ref key, ref value } => {
                    j.open("Property");
                    j.key("key");
                    j.pkey(key);
                    j.flag("method", true);
                    j.flag("shorthand", false);
                    j.computed(key);
                    j.key("value");
                    j.fun(&value.item);
                    j.close(value.start, value.end);
                    j.text("kind", "init");
                }
                Property::Spread { ref argument } => {
                    j.open("SpreadProperty");
                    j.key("argument");
                    j.e(argument);
                }
            }
            j.close(p.start, p.end);
        });
    }
    fn pats<'a>(&mut self, l: &PatternList<'a>) {
        self.list(l, |j, p| j.pat(p));
    }
    fn pat<'a>(&mut self, p: &Node<'a, Pattern<'a>>) {
        match p.item {
            Pattern::Void => return self.w("null"),
            Pattern::Identifier(v) => return self.name(v, p.start, p.end),
            Pattern::ObjectPattern { ref properties } => {
                self.open("ObjectPattern");
                self.key("keys");
                self.props(properties);
            }
            Pattern::ArrayPattern { ref elements } => {
                self.open("ArrayPattern");
                self.key("elements");
                self.pats(elements);
            }
            Pattern::RestElement { ref argument } => {
                self.open("RestElement");
                self.key("argument");
                self.id(argument);
            }
            Pattern::AssignmentPattern { ref left, ref right } => {
                self.open("AssignmentPattern");
                self.key("left");
                self.pat(left);
                self.key("right");
                self.e(right);
            }
        }
        self.close(p.start, p.end);
    }
    fn fun<'a, N: Name<'a> + Named>(&mut self, f: &Function<'a, N>) {
        self.open(N::FUNCTION);
        self.flag("generator", f.generator);
        self.key("id");
        f.name.put(self);
        self.key("params");
        self.pats(&f.params);
        self.key("body");
        self.block(&f.body);
    }
    fn class<'a, N: Name<'a> + Named>(&mut self, c: &Class<'a, N>) {
        self.open(N::CLASS);
        self.key("id");
        c.name.put(self);
        self.key("superClass");
        self.oe(&c.extends);
        self.key("body");
        self.open("ClassBody");
        self.key("body");
        self.list(&c.body.body, |j, m| {
            match m.item {
                ClassMember::Error => check(false, 21),
                ClassMember::Method { is_static, ref key, ref kind, ref value } => {
                    j.open("MethodDefinition");
                    j.text(
                        "kind",
                        match *kind {
                            MethodKind::Constructor => "constructor",
                            MethodKind::Method => "method",
                            MethodKind::Get => "get",
                            MethodKind::Set => "set",
                        },
                    );
                    j.flag("static", is_static);
                    j.computed(key);
                    j.key("key");
                    j.pkey(key);
                    j.key("value");
                    j.fun(&value.item);
                    j.close(value.start, value.end);
                }
                ClassMember::Literal { is_static, ref key, ref value } => {
                    j.open("PropertyDefinition");
                    j.flag("static", is_static);
                    j.computed(key);
                    j.key("key");
                    j.pkey(key);
                    j.key("value");
                    j.e(value);
                }
            }
            j.close(m.start, m.end);
        });
        self.close(c.body.start, c.body.end);
    }
    fn block<'a>(&mut self, b: &BlockNode<'a, Statement<'a>>) {
        self.open("BlockStatement");
        self.key("body");
        self.stmts(&b.body);
        self.close(b.start, b.end);
    }
    fn stmts<'a>(&mut self, l: &StatementList<'a>) {
        self.list(l, |j, s| j.st(s));
    }
    fn decl<'a>(&mut self, d: &DeclarationStatement<'a>) {
        self.open("VariableDeclaration");
        self.text(
            "kind",
            match d.kind {
                DeclarationKind::Var => "var",
                DeclarationKind::Let => "let",
                DeclarationKind::Const => "const",
            },
        );
        self.key("declarations");
        self.list(&d.declarators, |j, x| {
            j.open("VariableDeclarator");
            j.key("id");
            j.pat(&x.id);
            j.key("init");
            j.oe(&x.init);
            j.close(x.start, x.end);
        });
    }
    fn init<'a>(&mut self, i: &Node<'a, ForInit<'a>>) {
        match i.item {
            ForInit::Declaration(ref d) => self.decl(d),
            ForInit::Expression(ref x) => self.ex(&x.item),
        }
        self.close(i.start, i.end);
    }
    fn one<'a>(&mut self, k: &str, x: &Option<ExpressionNode<'a>>) {
        self.key(k);
        self.oe(x);
    }
    fn body<'a>(&mut self, s: &StatementNode<'a>) {
        self.key("body");
        self.st(s);
    }
    fn st<'a>(&mut self, s: &StatementNode<'a>) {
        match s.item {
            Statement::Empty => self.open("EmptyStatement"),
            Statement::Debugger => self.open("DebuggerStatement"),
            Statement::Expression(ref x) => {
                self.open("ExpressionStatement");
                self.key("expression");
                self.e(x);
            }
            Statement::Declaration(ref d) => self.decl(d),
            Statement::Return(ref x) => {
                self.open("ReturnStatement");
                self.one("argument", &x.value);
            }
            Statement::Break(ref x) => {
                self.open("BreakStatement");
                self.key("label");
                self.oid(&x.label);
            }
            Statement::Continue(ref x) => {
                self.open("ContinueStatement");
                self.key("label");
                self.oid(&x.label);
            }
            Statement::Throw(ref x) => {
                self.open("ThrowStatement");
                self.key("argument");
                self.e(&x.value);
            }
            Statement::If(ref x) => {
                self.open("IfStatement");
                self.key("test");
                self.e(&x.test);
                self.key("consequent");
                self.st(&x.consequent);
                self.key("alternate");
                match x.alternate {
                    Some(ref a) => self.st(a),
                    None => self.w("null"),
                }
            }
            Statement::While(ref x) => {
                self.open("WhileStatement");
                self.key("test");
                self.e(&x.test);
                self.body(&x.body);
            }
            Statement::Do(ref x) => {
                self.open("DoWhileStatement");
                self.body(&x.body);
                self.key("test");
                self.e(&x.test);
            }
            Statement::For(ref x) => {
                self.open("ForStatement");
                self.key("init");
                match x.init {
                    Some(ref i) => self.init(i),
                    None => self.w("null"),
                }
                self.one("test", &x.test);
                self.one("update", &x.update);
                self.body(&x.body);
            }
            Statement::ForIn(ref x) => {
                self.open("ForInStatement");
                self.key("left");
                self.init(&x.left);
                self.key("right");
                self.e(&x.right);
                self.body(&x.body);
            }
            Statement::ForOf(ref x) => {
                self.open("ForOfStatement");
                self.key("left");
                self.init(&x.left);
                self.key("right");
                self.e(&x.right);
                self.body(&x.body);
            }
            Statement::Try(ref x) => {
                self.open("TryStatement");
                self.key("block");
                self.block(&x.block);
                self.key("handler");
                match x.handler {
                    Some(ref h) => {
                        self.open("CatchClause");
                        self.key("param");
                        self.pat(&h.param);
                        self.key("body");
                        self.block(&h.body);
                        self.close(h.start, h.end);
                    }
                    None => self.w("null"),
                }
                self.key("finalizer");
                match x.finalizer {
                    Some(ref b) => self.block(b),
                    None => self.w("null"),
                }
            }
            Statement::Block(ref b) => {
                self.open("BlockStatement");
                self.key("body");
                self.stmts(&b.body);
            }
            Statement::Labeled(ref x) => {
                self.open("LabeledStatement");
                self.text("label", x.label);
                self.body(&x.body);
            }
            Statement::Function(ref f) => self.fun(f),
            Statement::Class(ref c) => self.class(c),
            Statement::Switch(ref x) => {
                self.open("SwitchStatement");
                self.key("discriminant");
                self.e(&x.discriminant);
                self.key("cases");
                self.list(&x.cases.body, |j, c| {
                    j.open("SwitchCase");
                    j.one("test", &c.test);
                    j.key("consequent");
                    j.stmts(&c.consequent);
                    j.close(c.start, c.end);
                });
            }
            Statement::Import(ref x) => {
                self.open("ImportDeclaration");
                self.key("specifiers");
                self.list(&x.specifiers, |j, s| {
                    match s.item {
                        ForImportSpecifier::ImportDefaultSpecifier(ref d) => {
                            j.open("ImportDefaultSpecifier");
                            j.key("local");
                            j.id(&d.local);
                        }
                        ForImportSpecifier::ImportNamespaceSpecifier(ref d) => {
                            j.open("ImportNamespaceSpecifier");
                            j.key("local");
                            j.id(&d.local);
                        }
                        ForImportSpecifier::ImportSpecifier(ref d) => {
                            j.open("ImportSpecifier");
                            j.key("imported");
                            j.id(&d.imported);
                            j.key("local");
                            j.id(&d.local);
                        }
                    }
                    j.close(s.start, s.end);
                });
                self.text("source", x.source);
            }
        }
        self.close(s.start, s.end);
    }
}

fn compare(m: &Module) {
    let got = serde_json::to_string(m).unwrap();
    observe(got.as_bytes());
    let want = json(m);
    show!("{}\n{}", got, unsafe { std::str::from_utf8_unchecked(&want) });
    check(got.as_bytes() == &want[..], 2);
    reach(1);
}

/// Generated programs.
pub fn estree(a: u64, _: u64) {
    let p = program(a, &mut G::new(false));
    let w = write(&p);
    if let Some(m) = accept(text(&w)) {
        compare(&m);
    }
}

/// An arbitrary window of n characters in one of the contexts (plus 100: with characters beyond
/// ASCII).
pub fn window(n: u64, b: u64) {
    let (p, q) = CTX[b as usize % 100];
    let mut s = p.as_bytes().to_vec();
    for _ in 0..n {
        element(&mut s, b >= 100);
    }
    s.extend_from_slice(q.as_bytes());
    if let Ok(m) = ratel::parse(unsafe { std::str::from_utf8_unchecked(&s) }) {
        compare(&m);
    } else {
        reach(2);
    }
}

/// Integers of up to n digits, by the value of their digits.
pub fn integers(n: u64, _: u64) {
    let (p, max) = [("", 9), ("1", 9), ("0", 7), ("0", 9), ("0b", 1), ("0B", 1), ("0o", 7), ("0O", 7), ("0x", 9), ("0X", 15)][choice(10)];
    let mut s = p.as_bytes().to_vec();
    for _ in 0..1 + choice(n as usize) {
        let b = byte();
        if max == 15 {
            assume((b.wrapping_sub(b'0') < 10) | ((b | 0x20).wrapping_sub(b'a') < 6));
        } else {
            assume(b.wrapping_sub(b'0') <= max);
        }
        s.push(b);
    }
    if let Some(m) = accept(unsafe { std::str::from_utf8_unchecked(&s) }) {
        compare(&m);
    }
}
pub fn damaged(a: u64, b: u64) {
    if let Ok(m) = ratel::parse(&crate::reject::damage(a, b)) {
        compare(&m);
    }
}
