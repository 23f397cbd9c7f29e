//! The tree the parser built, as a stream of bytes.
use crate::dump::{put, Dump};
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;

pub fn parsed<'a>(b: StatementList<'a>) -> Dump {
    let mut d = Dump { out: Vec::with_capacity(256), sp: Vec::with_capacity(64), lower: false, arrows: 0 };
    d.list(b);
    d
}
/// The same with every arrow function written as a function expression.
pub fn lowered<'a>(b: StatementList<'a>) -> Dump {
    let mut d = Dump { out: Vec::with_capacity(256), sp: Vec::with_capacity(64), lower: true, arrows: 0 };
    d.list(b);
    d
}

/// Text of an operator, written down independently of the library.
pub fn op_text(o: OperatorKind) -> &'static str {
    use ratel::ast::OperatorKind::*;
    match o {
        FatArrow => "=>",
        New => "new",
        Increment => "++",
        Decrement => "--",
        LogicalNot => "!",
        BitwiseNot => "~",
        Typeof => "typeof",
        Void => "void",
        Delete => "delete",
        Multiplication => "*",
        Division => "/",
        Remainder => "%",
        Exponent => "**",
        Addition => "+",
        Subtraction => "-",
        BitShiftLeft => "<<",
        BitShiftRight => ">>",
        UBitShiftRight => ">>>",
        Lesser => "<",
        LesserEquals => "<=",
        Greater => ">",
        GreaterEquals => ">=",
        Instanceof => "instanceof",
        In => "in",
        StrictEquality => "===",
        StrictInequality => "!==",
        Equality => "==",
        Inequality => "!=",
        BitwiseAnd => "&",
        BitwiseXor => "^",
        BitwiseOr => "|",
        LogicalAnd => "&&",
        LogicalOr => "||",
        Conditional => "?",
        Assign => "=",
        AddAssign => "+=",
        SubtractAssign => "-=",
        ExponentAssign => "**=",
        MultiplyAssign => "*=",
        DivideAssign => "/=",
        RemainderAssign => "%=",
        BSLAssign => "<<=",
        BSRAssign => ">>=",
        UBSRAssign => ">>>=",
        BitAndAssign => "&=",
        BitXorAssign => "^=",
        BitOrAssign => "|=",
        Spread => "...",
    }
}

trait Named {
    fn put(&self, d: &mut Dump);
}
impl Named for EmptyName {
    fn put(&self, d: &mut Dump) {
        d.out.push(b'-')
    }
}
impl<'a> Named for MandatoryName<'a> {
    fn put(&self, d: &mut Dump) {
        d.name(&self.0)
    }
}
impl<'a> Named for OptionalName<'a> {
    fn put(&self, d: &mut Dump) {
        match &self.0 {
            Some(n) => d.name(n),
            None => d.out.push(b'-'),
        }
    }
}

fn len<'a, T: Copy>(l: &toolshed::list::List<'a, T>) -> u8 {
    l.iter().count() as u8
}

const RETURN: u8 = b'4';

impl Dump {
    fn open<'a, T>(&mut self, tag: u8, n: &Node<'a, T>) {
        self.out.push(tag);
        self.sp.push((n.start, n.end));
    }
    fn name<'a>(&mut self, n: &IdentifierNode<'a>) {
        self.open(b'n', n);
        put(&mut self.out, n.item.as_bytes());
    }
    fn s(&mut self, s: &str) {
        put(&mut self.out, s.as_bytes());
    }
    fn b(&mut self, b: u8) {
        self.out.push(b)
    }
    fn es<'a>(&mut self, l: &ExpressionList<'a>) {
        self.b(len(l));
        for x in l.iter() {
            self.e(x);
        }
    }
    fn e<'a>(&mut self, n: &ExpressionNode<'a>) {
        let tag = match n.item {
            Expression::Void => b'V',
            Expression::This(_) => b'T',
            Expression::Identifier(_) => b'I',
            Expression::Literal(_) => b'L',
            Expression::Sequence(_) => b'S',
            Expression::Array(_) => b'A',
            Expression::Member(_) => b'M',
            Expression::ComputedMember(_) => b'C',
            Expression::MetaProperty(_) => b'G',
            Expression::Call(_) => b'K',
            Expression::Binary(_) => b'B',
            Expression::Prefix(_) => b'P',
            Expression::Postfix(_) => b'Q',
            Expression::Conditional(_) => b'?',
            Expression::Template(_) => b'`',
            Expression::TaggedTemplate(_) => b't',
            Expression::Spread(_) => b'.',
            Expression::Arrow(_) if self.lower => b'F',
            Expression::Arrow(_) => b'>',
            Expression::Object(_) => b'{',
            Expression::Function(_) => b'F',
            Expression::Class(_) => b'X',
        };
        self.open(tag, n);
        match n.item {
            Expression::Void | Expression::This(_) => {}
            Expression::Identifier(v) => self.s(v),
            Expression::Literal(ref l) => {
                let (k, v) = match *l {
                    Literal::Undefined => (b'U', "undefined"),
                    Literal::Null => (b'N', "null"),
                    Literal::True => (b'T', "true"),
                    Literal::False => (b'F', "false"),
                    Literal::Number(v) => (b'n', v),
                    Literal::Binary(v) => (b'b', v),
                    Literal::String(v) => (b's', v),
                    Literal::RegEx(v) => (b'r', v),
                };
                self.b(k);
                self.s(v);
            }
            Expression::Sequence(ref x) => self.es(&x.body),
            Expression::Array(ref x) => self.es(&x.body),
            Expression::Member(ref x) => {
                self.e(&x.object);
                self.name(&x.property);
            }
            Expression::ComputedMember(ref x) => {
                self.e(&x.object);
                self.e(&x.property);
            }
            Expression::MetaProperty(ref x) => {
                if x.meta.item != "new" || x.property.item != "target" {
                    self.b(b'!');
                }
            }
            Expression::Call(ref x) => {
                self.e(&x.callee);
                self.es(&x.arguments);
            }
            Expression::Binary(ref x) => {
                self.s(op_text(x.operator));
                self.e(&x.left);
                self.e(&x.right);
            }
            Expression::Prefix(ref x) => {
                self.s(op_text(x.operator));
                self.e(&x.operand);
            }
            Expression::Postfix(ref x) => {
                self.s(op_text(x.operator));
                self.e(&x.operand);
            }
            Expression::Conditional(ref x) => {
                self.e(&x.test);
                self.e(&x.consequent);
                self.e(&x.alternate);
            }
            Expression::Template(ref x) => self.tpl(x),
            Expression::TaggedTemplate(ref x) => {
                self.e(&x.tag);
                self.open(b'`', &x.quasi);
                self.tpl(&x.quasi.item);
            }
            Expression::Spread(ref x) => self.e(&x.argument),
            Expression::Arrow(ref x) if self.lower => {
                self.arrows += 1;
                self.b(b'-');
                self.b(0);
                self.pats(&x.params);
                match x.body {
                    ArrowBody::Expression(ref x) => {
                        self.open(b'b', x);
                        self.b(1);
                        self.open(RETURN, x);
                        self.e(x);
                    }
                    ArrowBody::Block(ref b) => self.block(b),
                }
            }
            Expression::Arrow(ref x) => {
                self.pats(&x.params);
                match x.body {
                    ArrowBody::Expression(ref x) => {
                        self.b(b'e');
                        self.e(x);
                    }
                    ArrowBody::Block(ref b) => self.block(b),
                }
            }
            Expression::Object(ref x) => self.props(&x.body),
            Expression::Function(ref f) => self.fun(f),
            Expression::Class(ref c) => self.class(c),
        }
    }
    fn tpl<'a>(&mut self, t: &TemplateLiteral<'a>) {
        self.b(len(&t.quasis));
        for q in t.quasis.iter() {
            self.open(b'q', q);
            self.s(q.item);
        }
        self.es(&t.expressions);
    }
    fn key<'a>(&mut self, k: &Node<'a, PropertyKey<'a>>) {
        self.open(b'k', k);
        match k.item {
            PropertyKey::Literal(v) => {
                self.b(b'l');
                self.s(v);
            }
            PropertyKey::Binary(v) => {
                self.b(b'b');
                self.s(v);
            }
            PropertyKey::Computed(ref x) => {
                self.b(b'c');
                self.e(x);
            }
        }
    }
    fn props<'a>(&mut self, l: &NodeList<'a, Property<'a>>) {
        self.b(len(l));
        for p in l.iter() {
            self.open(b'p', p);
            match p.item {
                Property::Shorthand(v) => {
                    self.b(b's');
                    self.s(v);
                }
                Property::Literal { ref key, ref value } => {
                    self.b(b'v');
                    self.key(key);
                    self.e(value);
                }
                Property::Method { ref key, ref value } => {
                    self.b(b'm');
                    self.key(key);
                    self.open(b'f', value);
                    self.fun(&value.item);
                }
                Property::Spread { ref argument } => {
                    self.b(b'.');
                    self.e(argument);
                }
            }
        }
    }
    fn pats<'a>(&mut self, l: &PatternList<'a>) {
        self.b(len(l));
        for p in l.iter() {
            self.pat(p);
        }
    }
    fn pat<'a>(&mut self, p: &Node<'a, Pattern<'a>>) {
        let tag = match p.item {
            Pattern::Void => b'V',
            Pattern::Identifier(_) => b'i',
            Pattern::ObjectPattern { .. } => b'o',
            Pattern::ArrayPattern { .. } => b'a',
            Pattern::RestElement { .. } => b'r',
            Pattern::AssignmentPattern { .. } => b'=',
        };
        self.open(tag, p);
        match p.item {
            Pattern::Void => {}
            Pattern::Identifier(v) => self.s(v),
            Pattern::ObjectPattern { ref properties } => self.props(properties),
            Pattern::ArrayPattern { ref elements } => self.pats(elements),
            Pattern::RestElement { ref argument } => self.name(argument),
            Pattern::AssignmentPattern { ref left, ref right } => {
                self.pat(left);
                self.e(right);
            }
        }
    }
    fn fun<'a, N: ratel::ast::Name<'a> + Named>(&mut self, f: &Function<'a, N>) {
        f.name.put(self);
        self.b(f.generator as u8);
        self.pats(&f.params);
        self.block(&f.body);
    }
    fn class<'a, N: ratel::ast::Name<'a> + Named>(&mut self, c: &ratel::ast::Class<'a, N>) {
        c.name.put(self);
        match c.extends {
            Some(ref x) => {
                self.b(b'x');
                self.e(x);
            }
            None => self.b(b'-'),
        }
        self.open(b'b', &c.body);
        self.b(len(&c.body.body));
        for m in c.body.body.iter() {
            self.open(b'm', m);
            match m.item {
                ClassMember::Error => self.b(b'!'),
                ClassMember::Method { is_static, ref key, ref kind, ref value } => {
                    self.b(is_static as u8);
                    self.key(key);
                    self.b(match *kind {
                        MethodKind::Constructor => b'c',
                        MethodKind::Method => b'm',
                        MethodKind::Get => b'g',
                        MethodKind::Set => b's',
                    });
                    self.open(b'f', value);
                    self.fun(&value.item);
                }
                ClassMember::Literal { is_static, ref key, ref value } => {
                    self.b(is_static as u8);
                    self.key(key);
                    self.b(b'v');
                    self.e(value);
                }
            }
        }
    }
    fn block<'a>(&mut self, b: &BlockNode<'a, Statement<'a>>) {
        self.open(b'b', b);
        self.list(b.body);
    }
    pub fn list<'a>(&mut self, l: StatementList<'a>) {
        self.b(len(&l));
        for s in l.iter() {
            self.st(s);
        }
    }
    fn oe<'a>(&mut self, x: &Option<ExpressionNode<'a>>) {
        match *x {
            Some(ref x) => self.e(x),
            None => self.b(b'-'),
        }
    }
    fn oname<'a>(&mut self, x: &Option<IdentifierNode<'a>>) {
        match *x {
            Some(ref x) => self.name(x),
            None => self.b(b'-'),
        }
    }
    fn decls<'a>(&mut self, d: &DeclarationStatement<'a>) {
        self.b(match d.kind {
            DeclarationKind::Var => b'v',
            DeclarationKind::Let => b'l',
            DeclarationKind::Const => b'c',
        });
        self.b(len(&d.declarators));
        for x in d.declarators.iter() {
            self.open(b'd', x);
            self.pat(&x.id);
            self.oe(&x.init);
        }
    }
    fn init<'a>(&mut self, i: &Node<'a, ratel::ast::statement::ForInit<'a>>) {
        match i.item {
            ratel::ast::statement::ForInit::Declaration(ref d) => {
                self.open(b'D', i);
                self.decls(d);
            }
            ratel::ast::statement::ForInit::Expression(ref x) => {
                self.open(b'E', i);
                self.e(x);
            }
        }
    }
    fn ob<'a>(&mut self, b: &Option<BlockNode<'a, Statement<'a>>>) {
        match *b {
            Some(ref b) => self.block(b),
            None => self.b(b'-'),
        }
    }
    fn st<'a>(&mut self, s: &StatementNode<'a>) {
        let tag = match s.item {
            Statement::Empty => b'0',
            Statement::Debugger => b'1',
            Statement::Expression(_) => b'2',
            Statement::Declaration(_) => b'3',
            Statement::Return(_) => RETURN,
            Statement::Break(_) => b'5',
            Statement::Continue(_) => b'6',
            Statement::Throw(_) => b'7',
            Statement::If(_) => b'8',
            Statement::While(_) => b'9',
            Statement::Do(_) => b':',
            Statement::For(_) => b';',
            Statement::ForIn(_) => b'<',
            Statement::ForOf(_) => b'=',
            Statement::Try(_) => b'>',
            Statement::Block(_) => b'?',
            Statement::Labeled(_) => b'@',
            Statement::Function(_) => b'A',
            Statement::Class(_) => b'B',
            Statement::Switch(_) => b'C',
            Statement::Import(_) => b'D',
        };
        self.open(tag, s);
        match s.item {
            Statement::Empty | Statement::Debugger => {}
            Statement::Expression(ref x) => self.e(x),
            Statement::Declaration(ref d) => self.decls(d),
            Statement::Return(ref r) => self.oe(&r.value),
            Statement::Break(ref r) => self.oname(&r.label),
            Statement::Continue(ref r) => self.oname(&r.label),
            Statement::Throw(ref r) => self.e(&r.value),
            Statement::If(ref x) => {
                self.e(&x.test);
                self.st(&x.consequent);
                match x.alternate {
                    Some(ref a) => self.st(a),
                    None => self.b(b'-'),
                }
            }
            Statement::While(ref x) => {
                self.e(&x.test);
                self.st(&x.body);
            }
            Statement::Do(ref x) => {
                self.st(&x.body);
                self.e(&x.test);
            }
            Statement::For(ref x) => {
                match x.init {
                    Some(ref i) => self.init(i),
                    None => self.b(b'-'),
                }
                self.oe(&x.test);
                self.oe(&x.update);
                self.st(&x.body);
            }
            Statement::ForIn(ref x) => {
                self.init(&x.left);
                self.e(&x.right);
                self.st(&x.body);
            }
            Statement::ForOf(ref x) => {
                self.init(&x.left);
                self.e(&x.right);
                self.st(&x.body);
            }
            Statement::Try(ref x) => {
                self.block(&x.block);
                match x.handler {
                    Some(ref h) => {
                        self.open(b'h', h);
                        self.pat(&h.param);
                        self.block(&h.body);
                    }
                    None => self.b(b'-'),
                }
                self.ob(&x.finalizer);
            }
            Statement::Block(ref b) => self.list(b.body),
            Statement::Labeled(ref x) => {
                self.s(x.label);
                self.st(&x.body);
            }
            Statement::Function(ref f) => self.fun(f),
            Statement::Class(ref c) => self.class(c),
            Statement::Switch(ref x) => {
                self.e(&x.discriminant);
                self.open(b'b', &x.cases);
                self.b(len(&x.cases.body));
                for c in x.cases.body.iter() {
                    self.open(b'c', c);
                    self.oe(&c.test);
                    self.list(c.consequent);
                }
            }
            Statement::Import(ref x) => {
                self.b(len(&x.specifiers));
                for sp in x.specifiers.iter() {
                    self.open(b's', sp);
                    match sp.item {
                        ForImportSpecifier::ImportDefaultSpecifier(ref d) => {
                            self.b(b'd');
                            self.name(&d.local);
                        }
                        ForImportSpecifier::ImportNamespaceSpecifier(ref d) => {
                            self.b(b'*');
                            self.name(&d.local);
                        }
                        ForImportSpecifier::ImportSpecifier(ref d) => {
                            self.b(b'n');
                            self.name(&d.imported);
                            self.name(&d.local);
                        }
                    }
                }
                self.s(x.source);
            }
        }
    }
}
