//! The reference representation of a program, independent of the parser under check.
use std::cell::Cell;

pub type Bytes = Vec<u8>;
pub type B = Box<N>;

/// Token indices: first token, one past the last token (parentheses around a node excluded).
#[derive(Default)]
pub struct Sp {
    pub i: Cell<u32>,
    pub j: Cell<u32>,
}

pub struct N {
    pub k: K,
    pub t: Sp,
}
pub struct Name {
    pub n: Bytes,
    pub t: Sp,
}
pub struct Tpl {
    pub quasis: Vec<Bytes>,
    pub exprs: Vec<N>,
    pub t: Sp,
}
pub enum Body {
    Expr(B),
    Block(Vec<St>, Sp),
}
pub enum K {
    Id(Bytes),
    This,
    /// tag: U N T F (keywords), n (number), b (binary number), s (string), r (regular expression)
    Lit(u8, Bytes),
    Seq(Vec<N>),
    /// elements, whether a hole ends it
    Arr(Vec<Option<N>>),
    Mem(B, Name),
    CMem(B, B),
    Target,
    Call(B, Vec<N>),
    Bin(usize, B, B),
    Pre(usize, B),
    New(B, Option<Vec<N>>, Sp),
    Post(usize, B),
    Cond(B, B, B),
    Tpl(Tpl),
    Tag(B, Tpl),
    Spread(B),
    /// parameters, whether written as a single bare identifier
    Arrow(Vec<Pat>, bool, Body),
    Obj(Vec<Prop>),
    Fun(Fun),
    Class(Cls),
}
pub struct Fun {
    pub name: Option<Name>,
    pub gen: bool,
    pub params: Vec<Pat>,
    pub body: Vec<St>,
    /// from the parameters to the end of the body
    pub t: Sp,
    pub bt: Sp,
}
pub enum KeyK {
    /// identifier, string, or number
    Lit(Bytes, Tk),
    Bin(Bytes),
    Comp(B),
}
#[derive(Clone, Copy, PartialEq)]
pub enum Tk {
    Word,
    Punct,
    Num,
    Str,
    Re,
}
pub struct Key {
    pub k: KeyK,
    pub t: Sp,
}
pub enum PropK {
    Short(Bytes),
    Kv(Key, N),
    Method(Key, Fun),
    Spread(N),
}
pub struct Prop {
    pub k: PropK,
    pub t: Sp,
}
pub enum PatK {
    Void,
    Id(Bytes),
    Obj(Vec<Prop>),
    Arr(Vec<Pat>),
    Rest(Name),
    Assign(Box<Pat>, B),
}
pub struct Pat {
    pub k: PatK,
    pub t: Sp,
}
pub enum MemberK {
    Method(Fun),
    Value(N),
}
pub struct Member {
    pub stat: bool,
    /// m g s c
    pub kind: u8,
    pub key: Key,
    pub k: MemberK,
    pub t: Sp,
}
pub struct Cls {
    pub name: Option<Name>,
    pub ext: Option<B>,
    pub members: Vec<Member>,
    pub bt: Sp,
}
pub struct Decl {
    pub id: Pat,
    pub init: Option<N>,
    pub t: Sp,
}
pub enum ForInit {
    Decl(u8, Vec<Decl>, Sp),
    Expr(N),
}
pub struct Block {
    pub b: Vec<St>,
    pub t: Sp,
}
pub struct Case {
    pub test: Option<N>,
    pub body: Vec<St>,
    pub t: Sp,
}
pub enum SpecK {
    Named(Name, Option<Name>),
    Default(Name),
    Namespace(Name),
}
pub struct Spec {
    pub k: SpecK,
    pub t: Sp,
}
pub enum SK {
    Empty,
    Debugger,
    Expr(N),
    /// v l c
    Decl(u8, Vec<Decl>),
    Ret(Option<N>),
    Break(Option<Name>),
    Cont(Option<Name>),
    Throw(N),
    If(N, Box<St>, Option<Box<St>>),
    While(N, Box<St>),
    Do(Box<St>, N),
    For(Option<ForInit>, Option<N>, Option<N>, Box<St>),
    ForIn(ForInit, N, Box<St>),
    ForOf(ForInit, N, Box<St>),
    Try(Block, Option<(Pat, Block, Sp)>, Option<Block>),
    Block(Vec<St>),
    Labeled(Bytes, Box<St>),
    Fun(Fun),
    Class(Cls),
    Switch(N, Vec<Case>, Sp),
    Import(Vec<Spec>, Bytes),
}
pub struct St {
    pub k: SK,
    pub t: Sp,
}

/// Operators: text, precedence level of the ECMAScript grammar.
pub const OPS: [(&str, u8); 37] = [
    ("+", 11), ("-", 11), ("*", 12), ("/", 12), ("%", 12), ("**", 13),
    ("<<", 10), (">>", 10), (">>>", 10),
    ("<", 9), ("<=", 9), (">", 9), (">=", 9), ("instanceof", 9), ("in", 9),
    ("===", 8), ("!==", 8), ("==", 8), ("!=", 8),
    ("&", 7), ("^", 6), ("|", 5), ("&&", 4), ("||", 3),
    ("=", 1), ("+=", 1), ("-=", 1), ("**=", 1), ("*=", 1), ("/=", 1), ("%=", 1),
    ("<<=", 1), (">>=", 1), (">>>=", 1), ("&=", 1), ("^=", 1), ("|=", 1),
];
pub const NBIN: usize = 24;
/// One operator for every precedence level.
pub const REPS: [usize; 12] = [0, 2, 5, 6, 9, 14, 15, 19, 20, 21, 22, 23];
/// Prefix operators.
pub const PRES: [&str; 9] = ["+", "-", "!", "~", "typeof", "void", "delete", "++", "--"];

pub fn n(k: K) -> N {
    N { k, t: Sp::default() }
}
pub fn b(n: N) -> B {
    Box::new(n)
}
pub fn name(n: Bytes) -> Name {
    Name { n, t: Sp::default() }
}
pub fn pat(k: PatK) -> Pat {
    Pat { k, t: Sp::default() }
}
pub fn st(k: SK) -> St {
    St { k, t: Sp::default() }
}
pub fn prop(k: PropK) -> Prop {
    Prop { k, t: Sp::default() }
}
pub fn key(k: KeyK) -> Key {
    Key { k, t: Sp::default() }
}
pub fn block(b: Vec<St>) -> Block {
    Block { b, t: Sp::default() }
}
pub fn fun(name: Option<Name>, gen: bool, params: Vec<Pat>, body: Vec<St>) -> Fun {
    Fun { name, gen, params, body, t: Sp::default(), bt: Sp::default() }
}
