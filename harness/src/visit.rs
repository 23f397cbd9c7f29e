//! What a visitor is told, against a walk of the tree written down here.
use crate::fidelity::*;
use crate::gen::*;
use crate::sym::*;
use crate::total::window;
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use ratel::Module;
use ratel_visitor::{ParentNode, ScopeKind, Visitable, Visitor};

const PUSH: u64 = 1;
const POP: u64 = 2;
const LIST: u64 = 3;
const ENTER: u64 = 4;
const LEAVE: u64 = 5;
const USE: u64 = 6;
const DECLARE: u64 = 7;
const THIS: u64 = 8;
const LITERAL: u64 = 9;
const IDENTIFIER: u64 = 10;
const META: u64 = 11;
const EXPRESSION: u64 = 12;
/// 100: expressions, 200: statements

pub struct Events {
    out: Vec<u64>,
}

/// Which node this is, whoever holds it.
fn at<'a, T>(n: &Node<'a, T>) -> u64 {
    &n.start as *const u32 as usize as u64
}
fn opt<'a, T>(n: &Option<Node<'a, T>>) -> u64 {
    match *n {
        Some(ref n) => at(n),
        None => 0,
    }
}
fn list<'a, T: Copy>(l: &NodeList<'a, T>) -> u64 {
    let mut h = 0;
    for n in l.iter() {
        h = h * 3 % (1 << 60) + at(n);
    }
    h
}
fn kind(k: ScopeKind) -> u64 {
    match k {
        ScopeKind::Function => 1,
        ScopeKind::Block => 2,
    }
}
fn parent(p: ParentNode) -> u64 {
    match p {
        ParentNode::Statement(n) => at(n),
        ParentNode::Expression(n) => at(n),
    }
}
fn literal(l: &Literal) -> (u64, u64) {
    match *l {
        Literal::Undefined => (1, 0),
        Literal::Null => (2, 0),
        Literal::True => (3, 0),
        Literal::False => (4, 0),
        Literal::Number(v) => (5, v.as_ptr() as usize as u64 + v.len() as u64),
        Literal::Binary(v) => (6, v.as_ptr() as usize as u64 + v.len() as u64),
        Literal::String(v) => (7, v.as_ptr() as usize as u64 + v.len() as u64),
        Literal::RegEx(v) => (8, v.as_ptr() as usize as u64 + v.len() as u64),
    }
}
impl Events {
    fn put(&mut self, k: u64, v: u64) {
        self.out.push(k);
        self.out.push(v);
    }
    fn name(&mut self, k: u64, s: &str) {
        self.put(k, s.len() as u64);
        for b in s.bytes() {
            self.out.push(b as u64);
        }
    }
    fn on(&mut self, k: u64, node: u64, item: u64) {
        self.put(k, node);
        self.out.push(item);
    }
}

impl<'ast> Visitor<'ast> for Events {
    fn push_parent(&mut self, node: ParentNode<'ast>) {
        self.put(PUSH, parent(node));
    }
    fn pop_parent(&mut self) {
        self.put(POP, 0);
    }
    fn on_statement_list(&mut self, body: StatementList<'ast>) {
        self.put(LIST, list(&body));
    }
    fn on_enter_scope(&mut self, k: ScopeKind) {
        self.put(ENTER, kind(k));
    }
    fn on_leave_scope(&mut self) {
        self.put(LEAVE, 0);
    }
    fn on_reference_use(&mut self, ident: &Identifier<'ast>) {
        self.name(USE, ident);
    }
    fn on_reference_declaration(&mut self, ident: &Identifier<'ast>) {
        self.name(DECLARE, ident);
    }
    fn on_this_expression(&mut self, node: &'ast ExpressionNode<'ast>) {
        self.put(THIS, at(node));
    }
    fn on_identifier_expression(&mut self, item: &Identifier<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.put(IDENTIFIER, at(node));
        self.name(0, item);
    }
    fn on_literal_expression(&mut self, item: &Literal<'ast>, node: &'ast ExpressionNode<'ast>) {
        let (k, v) = literal(item);
        self.put(LITERAL, at(node));
        self.put(k, v);
    }
    fn on_meta_property(&mut self, item: &MetaPropertyExpression<'ast>, node: &ExpressionNode<'ast>) {
        self.on(META, at(node), at(&item.meta) ^ at(&item.property));
    }
    fn on_expression_statement(&mut self, item: &'ast ExpressionNode<'ast>, node: &'ast StatementNode<'ast>) {
        self.on(EXPRESSION, at(node), at(item));
    }
    fn on_sequence_expression(&mut self, x: &SequenceExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(100, at(node), list(&x.body));
    }
    fn on_array_expression(&mut self, x: &ArrayExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(101, at(node), list(&x.body));
    }
    fn on_member_expression(&mut self, x: &MemberExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(102, at(node), at(&x.object));
    }
    fn on_computed_member_expression(&mut self, x: &ComputedMemberExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(103, at(node), at(&x.object) ^ at(&x.property));
    }
    fn on_call_expression(&mut self, x: &CallExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(104, at(node), at(&x.callee));
    }
    fn on_binary_expression(&mut self, x: &BinaryExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(105, at(node), at(&x.left) ^ at(&x.right));
    }
    fn on_prefix_expression(&mut self, x: &PrefixExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(106, at(node), at(&x.operand));
    }
    fn on_postfix_expression(&mut self, x: &PostfixExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(107, at(node), at(&x.operand));
    }
    fn on_conditional_expression(&mut self, x: &ConditionalExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(108, at(node), at(&x.test));
    }
    fn on_template_literal(&mut self, x: &TemplateLiteral<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(109, at(node), list(&x.quasis));
    }
    fn on_tagged_template_expression(&mut self, x: &TaggedTemplateExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(110, at(node), at(&x.tag) ^ at(&x.quasi));
    }
    fn on_spread_expression(&mut self, x: &SpreadExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(111, at(node), at(&x.argument));
    }
    fn on_arrow_expression(&mut self, x: &ArrowExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(112, at(node), list(&x.params));
    }
    fn on_object_expression(&mut self, x: &ObjectExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(113, at(node), list(&x.body));
    }
    fn on_function_expression(&mut self, x: &FunctionExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(114, at(node), at(&x.body));
    }
    fn on_class_expression(&mut self, x: &ClassExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.on(115, at(node), at(&x.body));
    }
    fn on_declaration_statement(&mut self, x: &DeclarationStatement, node: &'ast StatementNode<'ast>) {
        self.on(200, at(node), list(&x.declarators));
    }
    fn on_return_statement(&mut self, x: &ReturnStatement, node: &'ast StatementNode<'ast>) {
        self.on(201, at(node), opt(&x.value));
    }
    fn on_break_statement(&mut self, x: &BreakStatement, node: &'ast StatementNode<'ast>) {
        self.on(202, at(node), opt(&x.label));
    }
    fn on_continue_statement(&mut self, x: &ContinueStatement, node: &'ast StatementNode<'ast>) {
        self.on(203, at(node), opt(&x.label));
    }
    fn on_throw_statement(&mut self, x: &ThrowStatement, node: &'ast StatementNode<'ast>) {
        self.on(204, at(node), at(&x.value));
    }
    fn on_if_statement(&mut self, x: &IfStatement, node: &'ast StatementNode<'ast>) {
        self.on(205, at(node), at(&x.test));
    }
    fn on_while_statement(&mut self, x: &WhileStatement, node: &'ast StatementNode<'ast>) {
        self.on(206, at(node), at(&x.test));
    }
    fn on_do_statement(&mut self, x: &DoStatement, node: &'ast StatementNode<'ast>) {
        self.on(207, at(node), at(&x.test));
    }
    fn on_for_statement(&mut self, x: &ForStatement, node: &'ast StatementNode<'ast>) {
        self.on(208, at(node), at(&x.body));
    }
    fn on_for_in_statement(&mut self, x: &ForInStatement, node: &'ast StatementNode<'ast>) {
        self.on(209, at(node), at(&x.left));
    }
    fn on_for_of_statement(&mut self, x: &ForOfStatement, node: &'ast StatementNode<'ast>) {
        self.on(210, at(node), at(&x.left));
    }
    fn on_try_statement(&mut self, x: &TryStatement, node: &'ast StatementNode<'ast>) {
        self.on(211, at(node), at(&x.block));
    }
    fn on_block_statement(&mut self, x: &BlockStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.on(212, at(node), list(&x.body));
    }
    fn on_labeled_statement(&mut self, x: &LabeledStatement, node: &'ast StatementNode<'ast>) {
        self.on(213, at(node), at(&x.body));
    }
    fn on_switch_statement(&mut self, x: &SwitchStatement, node: &'ast StatementNode<'ast>) {
        self.on(214, at(node), at(&x.discriminant));
    }
    fn on_function_statement(&mut self, x: &FunctionStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.on(215, at(node), at(&x.body));
    }
    fn on_class_statement(&mut self, x: &ClassStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.on(216, at(node), at(&x.body));
    }
    fn on_import_declaration_statement(&mut self, x: &ImportDeclaration<'ast>, node: &'ast StatementNode<'ast>) {
        self.on(217, at(node), list(&x.specifiers));
    }
}

/// What concerns scopes.
pub enum Event<'a> {
    Enter(bool),
    Leave,
    Use(&'a str),
    Declare(&'a str),
    This,
}
/// The scopes and names of a program, in order.
pub fn names<'a>(m: &Module<'a>) -> Vec<Event<'a>> {
    let mut w = Walk { ev: Events { out: Vec::with_capacity(256) }, sc: Vec::with_capacity(64) };
    w.list(m.body());
    w.sc
}

/// What has to be told.
struct Walk<'a> {
    ev: Events,
    sc: Vec<Event<'a>>,
}
impl<'a> Walk<'a> {
    fn used(&mut self, s: &'a str) {
        self.ev.name(USE, s);
        self.sc.push(Event::Use(s));
    }
    fn declared(&mut self, s: &'a str) {
        self.ev.name(DECLARE, s);
        self.sc.push(Event::Declare(s));
    }
    fn enter(&mut self, k: u64) {
        self.ev.put(ENTER, k);
        self.sc.push(Event::Enter(k == 1));
    }
    fn leave(&mut self) {
        self.ev.put(LEAVE, 0);
        self.sc.push(Event::Leave);
    }
    fn this(&mut self, n: u64) {
        self.ev.put(THIS, n);
        self.sc.push(Event::This);
    }
    fn e(&mut self, n: &ExpressionNode<'a>) {
        match n.item {
            Expression::Void => return,
            Expression::This(_) => return self.this(at(n)),
            Expression::Literal(ref l) => {
                let (k, v) = literal(l);
                self.ev.put(LITERAL, at(n));
                return self.ev.put(k, v);
            }
            Expression::Identifier(s) => {
                self.ev.put(IDENTIFIER, at(n));
                self.ev.name(0, s);
            }
            Expression::MetaProperty(ref x) => self.ev.on(META, at(n), at(&x.meta) ^ at(&x.property)),
            Expression::Sequence(ref x) => self.ev.on(100, at(n), list(&x.body)),
            Expression::Array(ref x) => self.ev.on(101, at(n), list(&x.body)),
            Expression::Member(ref x) => self.ev.on(102, at(n), at(&x.object)),
            Expression::ComputedMember(ref x) => self.ev.on(103, at(n), at(&x.object) ^ at(&x.property)),
            Expression::Call(ref x) => self.ev.on(104, at(n), at(&x.callee)),
            Expression::Binary(ref x) => self.ev.on(105, at(n), at(&x.left) ^ at(&x.right)),
            Expression::Prefix(ref x) => self.ev.on(106, at(n), at(&x.operand)),
            Expression::Postfix(ref x) => self.ev.on(107, at(n), at(&x.operand)),
            Expression::Conditional(ref x) => self.ev.on(108, at(n), at(&x.test)),
            Expression::Template(ref x) => self.ev.on(109, at(n), list(&x.quasis)),
            Expression::TaggedTemplate(ref x) => self.ev.on(110, at(n), at(&x.tag) ^ at(&x.quasi)),
            Expression::Spread(ref x) => self.ev.on(111, at(n), at(&x.argument)),
            Expression::Arrow(ref x) => self.ev.on(112, at(n), list(&x.params)),
            Expression::Object(ref x) => self.ev.on(113, at(n), list(&x.body)),
            Expression::Function(ref x) => self.ev.on(114, at(n), at(&x.body)),
            Expression::Class(ref x) => self.ev.on(115, at(n), at(&x.body)),
        }
        self.ev.put(PUSH, at(n));
        match n.item {
            Expression::Void | Expression::This(_) | Expression::Literal(_) | Expression::MetaProperty(_) => {}
            Expression::Identifier(s) => self.used(s),
            Expression::Sequence(ref x) => self.es(&x.body),
            Expression::Array(ref x) => self.es(&x.body),
            Expression::Member(ref x) => self.e(&x.object),
            Expression::ComputedMember(ref x) => {
                self.e(&x.object);
                self.e(&x.property);
            }
            Expression::Call(ref x) => {
                self.e(&x.callee);
                self.es(&x.arguments);
            }
            Expression::Binary(ref x) => {
                self.e(&x.left);
                self.e(&x.right);
            }
            Expression::Prefix(ref x) => self.e(&x.operand),
            Expression::Postfix(ref x) => self.e(&x.operand),
            Expression::Conditional(ref x) => {
                self.e(&x.test);
                self.e(&x.consequent);
                self.e(&x.alternate);
            }
            Expression::Template(ref x) => self.es(&x.expressions),
            Expression::TaggedTemplate(ref x) => {
                self.e(&x.tag);
                self.es(&x.quasi.item.expressions);
            }
            Expression::Spread(ref x) => self.e(&x.argument),
            Expression::Arrow(ref x) => {
                self.pats(&x.params);
                match x.body {
                    ArrowBody::Expression(ref b) => self.e(b),
                    ArrowBody::Block(ref b) => self.list(b.body),
                }
            }
            Expression::Object(ref x) => self.props(&x.body),
            Expression::Function(ref f) => self.fun(&f.params, f.body.body),
            Expression::Class(ref c) => {
                if let Some(ref x) = c.extends {
                    self.e(x);
                }
                self.members(&c.body.body);
            }
        }
        self.ev.put(POP, 0);
    }
    fn es(&mut self, l: &ExpressionList<'a>) {
        for x in l.iter() {
            self.e(x);
        }
    }
    fn oe(&mut self, x: &Option<ExpressionNode<'a>>) {
        if let Some(ref x) = *x {
            self.e(x);
        }
    }
    fn list(&mut self, l: StatementList<'a>) {
        self.ev.put(LIST, list(&l));
        for x in l.iter() {
            self.st(x);
        }
    }
    fn block(&mut self, l: StatementList<'a>) {
        self.enter(2);
        self.list(l);
        self.leave();
    }
    fn fun(&mut self, params: &PatternList<'a>, body: StatementList<'a>) {
        self.enter(1);
        self.pats(params);
        self.list(body);
        self.leave();
    }
    fn key(&mut self, k: &Node<'a, PropertyKey<'a>>) {
        if let PropertyKey::Computed(ref x) = k.item {
            self.e(x);
        }
    }
    fn members(&mut self, l: &NodeList<'a, ClassMember<'a>>) {
        for m in l.iter() {
            match m.item {
                ClassMember::Error => check(false, 9),
                ClassMember::Method { ref key, ref value, .. } => {
                    self.key(key);
                    self.fun(&value.item.params, value.item.body.body);
                }
                ClassMember::Literal { ref key, ref value, .. } => {
                    self.key(key);
                    self.e(value);
                }
            }
        }
    }
    fn props(&mut self, l: &NodeList<'a, Property<'a>>) {
        for p in l.iter() {
            match p.item {
                Property::Shorthand(s) => self.used(s),
                Property::Literal { ref key, ref value } => {
                    self.key(key);
                    self.e(value);
                }
                Property::Method { ref key, ref value } => {
                    self.key(key);
                    self.fun(&value.item.params, value.item.body.body);
                }
                Property::Spread { ref argument } => self.e(argument),
            }
        }
    }
    fn pats(&mut self, l: &PatternList<'a>) {
        for p in l.iter() {
            self.pat(p);
        }
    }
    fn pat(&mut self, p: &Node<'a, Pattern<'a>>) {
        match p.item {
            Pattern::Void => {}
            Pattern::Identifier(s) => self.declared(s),
            Pattern::ObjectPattern { ref properties } => self.targets(properties),
            Pattern::ArrayPattern { ref elements } => self.pats(elements),
            Pattern::RestElement { ref argument } => self.declared(argument.item),
            Pattern::AssignmentPattern { ref left, ref right } => {
                self.pat(left);
                self.e(right);
            }
        }
    }
    /// Properties of an object pattern: whatever stands for a value is declared.
    fn targets(&mut self, l: &NodeList<'a, Property<'a>>) {
        for p in l.iter() {
            match p.item {
                Property::Shorthand(s) => self.declared(s),
                Property::Literal { ref key, ref value } => {
                    self.key(key);
                    self.target(value);
                }
                Property::Method { .. } => assume(false),
                Property::Spread { ref argument } => self.target(argument),
            }
        }
    }
    fn target(&mut self, n: &ExpressionNode<'a>) {
        match n.item {
            Expression::Identifier(s) => self.declared(s),
            Expression::Object(ref x) => self.targets(&x.body),
            Expression::Array(ref x) => for e in x.body.iter() {
                self.target(e);
            },
            Expression::Spread(ref x) => self.target(&x.argument),
            Expression::Binary(ref x) if x.operator == OperatorKind::Assign => {
                self.target(&x.left);
                self.e(&x.right);
            }
            Expression::Void => {}
            // not a pattern of the language
            _ => assume(false),
        }
    }
    fn decls(&mut self, d: &DeclarationStatement<'a>) {
        for x in d.declarators.iter() {
            self.pat(&x.id);
            self.oe(&x.init);
        }
    }
    fn init(&mut self, i: &ratel::ast::statement::ForInit<'a>) {
        match *i {
            ratel::ast::statement::ForInit::Declaration(ref d) => self.decls(d),
            ratel::ast::statement::ForInit::Expression(ref x) => self.e(x),
        }
    }
    fn st(&mut self, n: &StatementNode<'a>) {
        match n.item {
            Statement::Empty | Statement::Debugger => return,
            Statement::Expression(ref x) => self.ev.on(EXPRESSION, at(n), at(x)),
            Statement::Declaration(ref x) => self.ev.on(200, at(n), list(&x.declarators)),
            Statement::Return(ref x) => self.ev.on(201, at(n), opt(&x.value)),
            Statement::Break(ref x) => self.ev.on(202, at(n), opt(&x.label)),
            Statement::Continue(ref x) => self.ev.on(203, at(n), opt(&x.label)),
            Statement::Throw(ref x) => self.ev.on(204, at(n), at(&x.value)),
            Statement::If(ref x) => self.ev.on(205, at(n), at(&x.test)),
            Statement::While(ref x) => self.ev.on(206, at(n), at(&x.test)),
            Statement::Do(ref x) => self.ev.on(207, at(n), at(&x.test)),
            Statement::For(ref x) => self.ev.on(208, at(n), at(&x.body)),
            Statement::ForIn(ref x) => self.ev.on(209, at(n), at(&x.left)),
            Statement::ForOf(ref x) => self.ev.on(210, at(n), at(&x.left)),
            Statement::Try(ref x) => self.ev.on(211, at(n), at(&x.block)),
            Statement::Block(ref x) => self.ev.on(212, at(n), list(&x.body)),
            Statement::Labeled(ref x) => self.ev.on(213, at(n), at(&x.body)),
            Statement::Switch(ref x) => self.ev.on(214, at(n), at(&x.discriminant)),
            Statement::Function(ref x) => self.ev.on(215, at(n), at(&x.body)),
            Statement::Class(ref x) => self.ev.on(216, at(n), at(&x.body)),
            Statement::Import(ref x) => self.ev.on(217, at(n), list(&x.specifiers)),
        }
        self.ev.put(PUSH, at(n));
        match n.item {
            Statement::Empty | Statement::Debugger => {}
            Statement::Expression(ref x) => self.e(x),
            Statement::Declaration(ref d) => self.decls(d),
            Statement::Return(ref r) => self.oe(&r.value),
            Statement::Break(_) | Statement::Continue(_) => {}
            Statement::Throw(ref r) => self.e(&r.value),
            Statement::If(ref x) => {
                self.e(&x.test);
                self.st(&x.consequent);
                if let Some(ref a) = x.alternate {
                    self.st(a);
                }
            }
            Statement::While(ref x) => {
                self.e(&x.test);
                self.st(&x.body);
            }
            Statement::Do(ref x) => {
                self.st(&x.body);
                self.e(&x.test);
            }
            Statement::For(ref x) => {
                if let Some(ref i) = x.init {
                    self.init(&i.item);
                }
                self.oe(&x.test);
                self.oe(&x.update);
                self.st(&x.body);
            }
            Statement::ForIn(ref x) => {
                self.init(&x.left.item);
                self.e(&x.right);
                self.st(&x.body);
            }
            Statement::ForOf(ref x) => {
                self.init(&x.left.item);
                self.e(&x.right);
                self.st(&x.body);
            }
            Statement::Try(ref x) => {
                self.block(x.block.body);
                if let Some(ref h) = x.handler {
                    self.pat(&h.param);
                    self.block(h.body.body);
                }
                if let Some(ref f) = x.finalizer {
                    self.block(f.body);
                }
            }
            Statement::Block(ref b) => self.block(b.body),
            Statement::Labeled(ref x) => self.st(&x.body),
            Statement::Function(ref f) => {
                self.declared((f.name.0).item);
                self.fun(&f.params, f.body.body);
            }
            Statement::Class(ref c) => {
                self.declared((c.name.0).item);
                if let Some(ref x) = c.extends {
                    self.e(x);
                }
                self.members(&c.body.body);
            }
            Statement::Switch(ref x) => {
                self.e(&x.discriminant);
                self.enter(2);
                for c in x.cases.body.iter() {
                    self.oe(&c.test);
                    self.list(c.consequent);
                }
                self.leave();
            }
            Statement::Import(ref x) => {
                for s in x.specifiers.iter() {
                    let l = match s.item {
                        ForImportSpecifier::ImportDefaultSpecifier(ref d) => d.local,
                        ForImportSpecifier::ImportNamespaceSpecifier(ref d) => d.local,
                        ForImportSpecifier::ImportSpecifier(ref d) => d.local,
                    };
                    self.declared(l.item);
                }
            }
        }
        self.ev.put(POP, 0);
    }
}

fn told<'ast>(m: &'ast Module<'ast>) {
    let mut got = Events { out: Vec::with_capacity(256) };
    m.visit_with(&mut got);
    let mut want = Walk { ev: Events { out: Vec::with_capacity(256) }, sc: Vec::with_capacity(64) };
    want.list(m.body());
    let want = want.ev;
    show!("{:x?}\n{:x?}", want.out, got.out);
    check(want.out.len() == got.out.len(), 2);
    if want.out.len() == got.out.len() {
        let mut d = 0;
        for i in 0..want.out.len() {
            d |= want.out[i] ^ got.out[i];
        }
        check(d == 0, 3);
    }
    reach(1);
}

pub fn visit(a: u64, _: u64) {
    let p = program(a, &mut G::new(false));
    let w = write(&p);
    if let Some(m) = accept(text(&w)) {
        told(&m);
    }
}
pub fn visit_window(n: u64, c: u64) {
    let src = window(n, c % 100, c >= 100);
    show!("{}", src);
    observe(src.as_bytes());
    if let Ok(m) = ratel::parse(&src) {
        told(&m);
    }
}
