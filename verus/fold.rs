// Contract of the formula macro's fold (aegir_compile/src/lib.rs), for every formula of every size. The syntax tree
// is syn's, with the fields the fold looks at; the other kinds of expressions are opaque.
verus! {
#[derive(Copy, Clone)]
pub struct Span { pub x: u8 }
pub struct Attribute { pub x: u8 }
pub mod token {
    use vstd::prelude::*;
    verus! {
    pub struct Dot { pub spans: [super::Span; 1] }
    pub struct Paren { pub span: super::Span }
    pub struct Comma { pub x: u8 }
    pub struct Op { pub x: u8 }
    }
}
pub struct Punctuated<T, P> { pub v: Vec<T>, pub p: Vec<P> }
impl<T, P> Punctuated<T, P> {
    pub fn new() -> (r: Self) ensures r.v@.len() == 0 { Punctuated { v: Vec::new(), p: Vec::new() } }
    pub fn push_value(&mut self, t: T) ensures final(self).v@ == old(self).v@.push(t) { self.v.push(t) }
    pub fn push(&mut self, t: T) ensures final(self).v@ == old(self).v@.push(t) { self.v.push(t) }
}
pub struct Ident { pub s: Ghost<Seq<char>>, pub span: Span }
impl Ident {
    pub fn new(s: &str, span: Span) -> (r: Ident) ensures r.s@ == s@ { Ident { s: Ghost(s@), span } }
}
pub struct Generics { pub x: u8 }

pub struct LitInt { pub text: Ghost<Seq<char>> }
// syn compares literals by their text
impl PartialEq for LitInt {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LitInt {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.text@ == o.text@ }
}
pub struct LitFloat { pub text: Ghost<Seq<char>> }
// syn compares literals by their text
impl PartialEq for LitFloat {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LitFloat {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.text@ == o.text@ }
}
pub struct LitOther { pub x: u8 }
pub mod syn { pub use super::{LitFloat, LitInt}; }
pub enum Lit { Str(LitOther), ByteStr(LitOther), Byte(LitOther), Char(LitOther), Int(LitInt), Float(LitFloat), Bool(LitOther), Verbatim(LitOther) }
pub enum BinOp {
    Add(token::Op), Sub(token::Op), Mul(token::Op), Div(token::Op), Rem(token::Op), And(token::Op), Or(token::Op), BitXor(token::Op), BitAnd(token::Op), BitOr(token::Op),
    Shl(token::Op), Shr(token::Op), Eq(token::Op), Lt(token::Op), Le(token::Op), Ne(token::Op), Ge(token::Op), Gt(token::Op), AddEq(token::Op), SubEq(token::Op),
    MulEq(token::Op), DivEq(token::Op), RemEq(token::Op), BitXorEq(token::Op), BitAndEq(token::Op), BitOrEq(token::Op), ShlEq(token::Op), ShrEq(token::Op),
}
pub struct ExprBinary { pub attrs: Vec<Attribute>, pub left: Box<Expr>, pub op: BinOp, pub right: Box<Expr> }
impl ExprBinary { pub fn span(&self) -> Span { Span { x: 0 } } }
pub struct ExprLit { pub attrs: Vec<Attribute>, pub lit: Lit }
pub struct ExprMethodCall { pub attrs: Vec<Attribute>, pub receiver: Box<Expr>, pub dot_token: token::Dot, pub method: Ident, pub turbofish: Option<Generics>, pub paren_token: token::Paren, pub args: Punctuated<Expr, token::Comma> }
pub struct ExprParen { pub attrs: Vec<Attribute>, pub paren_token: token::Paren, pub expr: Box<Expr> }

pub struct ExprArray { pub x: u8 }
pub struct ExprAssign { pub x: u8 }
pub struct ExprAssignOp { pub x: u8 }
pub struct ExprAsync { pub x: u8 }
pub struct ExprAwait { pub x: u8 }
pub struct ExprBlock { pub constant: Option<Lit>, pub x: u8 }
pub struct ExprBox { pub x: u8 }
pub struct ExprBreak { pub x: u8 }
pub struct ExprCall { pub x: u8 }
pub struct ExprCast { pub x: u8 }
pub struct ExprClosure { pub x: u8 }
pub struct ExprContinue { pub x: u8 }
pub struct ExprField { pub x: u8 }
pub struct ExprForLoop { pub x: u8 }
pub struct ExprGroup { pub x: u8 }
pub struct ExprIf { pub x: u8 }
pub struct ExprIndex { pub x: u8 }
pub struct ExprLet { pub x: u8 }
pub struct ExprLoop { pub x: u8 }
pub struct ExprMacro { pub x: u8 }
pub struct ExprMatch { pub x: u8 }
pub struct ExprPath { pub x: u8 }
pub struct ExprRange { pub x: u8 }
pub struct ExprReference { pub x: u8 }
pub struct ExprRepeat { pub x: u8 }
pub struct ExprReturn { pub x: u8 }
pub struct ExprStruct { pub x: u8 }
pub struct ExprTry { pub x: u8 }
pub struct ExprTryBlock { pub x: u8 }
pub struct ExprTuple { pub x: u8 }
pub struct ExprType { pub x: u8 }
pub struct ExprUnary { pub x: u8 }
pub struct ExprUnsafe { pub x: u8 }
pub struct ExprWhile { pub x: u8 }
pub struct ExprYield { pub x: u8 }
pub struct Verb { pub x: u8 }
pub enum Expr { Binary(ExprBinary), Lit(ExprLit), Verbatim(Verb), Array(ExprArray), Assign(ExprAssign), AssignOp(ExprAssignOp), Async(ExprAsync), Await(ExprAwait), Block(ExprBlock), Box(ExprBox), Break(ExprBreak), Call(ExprCall), Cast(ExprCast), Closure(ExprClosure), Continue(ExprContinue), Field(ExprField), ForLoop(ExprForLoop), Group(ExprGroup), If(ExprIf), Index(ExprIndex), Let(ExprLet), Loop(ExprLoop), Macro(ExprMacro), Match(ExprMatch), MethodCall(ExprMethodCall), Paren(ExprParen), Path(ExprPath), Range(ExprRange), Reference(ExprReference), Repeat(ExprRepeat), Return(ExprReturn), Struct(ExprStruct), Try(ExprTry), TryBlock(ExprTryBlock), Tuple(ExprTuple), Type(ExprType), Unary(ExprUnary), Unsafe(ExprUnsafe), While(ExprWhile), Yield(ExprYield) }

// ---- what the fold has to produce
// the kinds of expressions that can stand before `.method(..)` as they are
pub open spec fn tight(e: Expr) -> bool {
    match e {
        Expr::Array(_) | Expr::Async(_) | Expr::Await(_) | Expr::Block(_) | Expr::Call(_) | Expr::Field(_) | Expr::ForLoop(_) | Expr::Group(_) | Expr::If(_) | Expr::Index(_) | Expr::Lit(_) | Expr::Loop(_)
        | Expr::Macro(_) | Expr::Match(_) | Expr::MethodCall(_) | Expr::Paren(_) | Expr::Path(_) | Expr::Repeat(_) | Expr::Struct(_) | Expr::Try(_) | Expr::TryBlock(_) | Expr::Tuple(_) | Expr::Unsafe(_)
        | Expr::Verbatim(_) | Expr::While(_) => true,
        _ => false,
    }
}
// a literal whose value is two, by its text
pub uninterp spec fn worth_two(l: Lit) -> bool;
pub open spec fn method_of(op: BinOp) -> Seq<char> {
    match op { BinOp::Add(_) => "add"@, BinOp::Sub(_) => "sub"@, BinOp::Mul(_) => "mul"@, _ => "pow"@ }
}
pub open spec fn supported_op(op: BinOp) -> bool { op is Add || op is Sub || op is Mul || op is BitXor }
// `m` is the call that stands for l `op` r: the named method of the node of l, on the node of r (l.squared() will do for l ^ 2)
pub open spec fn is_call(m: ExprMethodCall, b: ExprBinary) -> bool
    decreases b, 0nat, *m.receiver
{
    &&& denotes(*m.receiver, *b.left)
    &&& m.turbofish is None
    &&& tight(*m.receiver)
    &&& ({
        ||| m.method.s@ == method_of(b.op) && m.args.v@.len() == 1 && denotes(m.args.v@[0], *b.right)
        ||| b.op is BitXor && m.method.s@ == "squared"@ && m.args.v@.len() == 0 && (*b.right) is Lit && worth_two((*b.right)->Lit_0.lit)
    })
}
// the contract of the fold of the other kinds of expressions (syn's own: each child folded, the node rebuilt)
pub uninterp spec fn rebuilt(out: Expr, e: Expr) -> bool;
// `out` is the tree-building expression of the formula `e`
pub open spec fn denotes(out: Expr, e: Expr) -> bool
    decreases e, 1nat, out
{
    match out {
        // brackets do not change what is built
        Expr::Paren(p) => if e is Paren { denotes(*p.expr, *e->Paren_0.expr) || denotes(*p.expr, e) } else { denotes(*p.expr, e) },
        _ => match e {
            Expr::Paren(q) => denotes(out, *q.expr),
            Expr::Binary(b) => match out { Expr::MethodCall(m) => is_call(m, b), _ => false },
            Expr::Lit(l) => match l.lit {
                Lit::Int(_) | Lit::Float(_) => match out { Expr::Block(k) => k.constant == Some(l.lit), _ => false },
                _ => out == e,
            },
            Expr::Verbatim(v) => out == e,
            _ => rebuilt(out, e),
        },
    }
}
// what syn's parser gives, as far as the fold relies on it: the left operand of a binary operator is another one, a prefix
// operation or cast, or something tight; and the macro's stated support: +, -, * and ^
pub open spec fn formula(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Binary(b) => supported_op(b.op) && formula(*b.left) && formula(*b.right)
            && (tight(*b.left) || *b.left is Binary || *b.left is Unary || *b.left is Reference || *b.left is Box || *b.left is Cast || *b.left is Type),
        Expr::Paren(p) => formula(*p.expr),
        _ => true,
    }
}

// ---- trusted: what the quotations are
#[verifier::external_body]
pub fn q_PHp(e: Expr) -> (r: Expr) ensures r is Paren, *r->Paren_0.expr == e { unimplemented!() }
#[verifier::external_body]
pub fn q_Baegir__meta__Constant___i64_PHpb(v: LitInt) -> (r: Expr) ensures r is Block, r->Block_0.constant == Some(Lit::Int(v)) { unimplemented!() }
#[verifier::external_body]
pub fn q_Baegir__meta__Constant___f64_PHpb(v: LitFloat) -> (r: Expr) ensures r is Block, r->Block_0.constant == Some(Lit::Float(v)) { unimplemented!() }
#[verifier::external_body]
pub fn q_2() -> (r: LitInt) ensures r.text@ == "2"@, forall|o: LitInt| o.text@ == r.text@ ==> #[trigger] worth_two(Lit::Int(o)) { unimplemented!() }
#[verifier::external_body]
pub fn q_2_0() -> (r: LitFloat) ensures r.text@ == "2.0"@, forall|o: LitFloat| o.text@ == r.text@ ==> #[trigger] worth_two(Lit::Float(o)) { unimplemented!() }
pub struct ConvertToAegir { }
impl ConvertToAegir {
    // ---- trusted: syn's default folds of the other kinds
    #[verifier::external_body]
    pub fn fold_expr_array(&mut self, x: ExprArray) -> (r: ExprArray) ensures rebuilt(Expr::Array(r), Expr::Array(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_assign(&mut self, x: ExprAssign) -> (r: ExprAssign) ensures rebuilt(Expr::Assign(r), Expr::Assign(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_assign_op(&mut self, x: ExprAssignOp) -> (r: ExprAssignOp) ensures rebuilt(Expr::AssignOp(r), Expr::AssignOp(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_async(&mut self, x: ExprAsync) -> (r: ExprAsync) ensures rebuilt(Expr::Async(r), Expr::Async(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_await(&mut self, x: ExprAwait) -> (r: ExprAwait) ensures rebuilt(Expr::Await(r), Expr::Await(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_block(&mut self, x: ExprBlock) -> (r: ExprBlock) ensures rebuilt(Expr::Block(r), Expr::Block(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_box(&mut self, x: ExprBox) -> (r: ExprBox) ensures rebuilt(Expr::Box(r), Expr::Box(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_break(&mut self, x: ExprBreak) -> (r: ExprBreak) ensures rebuilt(Expr::Break(r), Expr::Break(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_call(&mut self, x: ExprCall) -> (r: ExprCall) ensures rebuilt(Expr::Call(r), Expr::Call(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_cast(&mut self, x: ExprCast) -> (r: ExprCast) ensures rebuilt(Expr::Cast(r), Expr::Cast(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_closure(&mut self, x: ExprClosure) -> (r: ExprClosure) ensures rebuilt(Expr::Closure(r), Expr::Closure(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_continue(&mut self, x: ExprContinue) -> (r: ExprContinue) ensures rebuilt(Expr::Continue(r), Expr::Continue(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_field(&mut self, x: ExprField) -> (r: ExprField) ensures rebuilt(Expr::Field(r), Expr::Field(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_for_loop(&mut self, x: ExprForLoop) -> (r: ExprForLoop) ensures rebuilt(Expr::ForLoop(r), Expr::ForLoop(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_group(&mut self, x: ExprGroup) -> (r: ExprGroup) ensures rebuilt(Expr::Group(r), Expr::Group(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_if(&mut self, x: ExprIf) -> (r: ExprIf) ensures rebuilt(Expr::If(r), Expr::If(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_index(&mut self, x: ExprIndex) -> (r: ExprIndex) ensures rebuilt(Expr::Index(r), Expr::Index(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_let(&mut self, x: ExprLet) -> (r: ExprLet) ensures rebuilt(Expr::Let(r), Expr::Let(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_loop(&mut self, x: ExprLoop) -> (r: ExprLoop) ensures rebuilt(Expr::Loop(r), Expr::Loop(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_macro(&mut self, x: ExprMacro) -> (r: ExprMacro) ensures rebuilt(Expr::Macro(r), Expr::Macro(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_match(&mut self, x: ExprMatch) -> (r: ExprMatch) ensures rebuilt(Expr::Match(r), Expr::Match(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_method_call(&mut self, x: ExprMethodCall) -> (r: ExprMethodCall) ensures rebuilt(Expr::MethodCall(r), Expr::MethodCall(x)) { unimplemented!() }
    // (this one follows from the contract of fold_expr on what is inside)
    #[verifier::exec_allows_no_decreases_clause]
    pub fn fold_expr_paren(&mut self, x: ExprParen) -> (r: ExprParen)
        requires formula(*x.expr)
        ensures denotes(*r.expr, *x.expr)
    { ExprParen { attrs: x.attrs, paren_token: x.paren_token, expr: Box::new(self.fold_expr(*x.expr)) } }
    #[verifier::external_body]
    pub fn fold_expr_path(&mut self, x: ExprPath) -> (r: ExprPath) ensures rebuilt(Expr::Path(r), Expr::Path(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_range(&mut self, x: ExprRange) -> (r: ExprRange) ensures rebuilt(Expr::Range(r), Expr::Range(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_reference(&mut self, x: ExprReference) -> (r: ExprReference) ensures rebuilt(Expr::Reference(r), Expr::Reference(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_repeat(&mut self, x: ExprRepeat) -> (r: ExprRepeat) ensures rebuilt(Expr::Repeat(r), Expr::Repeat(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_return(&mut self, x: ExprReturn) -> (r: ExprReturn) ensures rebuilt(Expr::Return(r), Expr::Return(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_struct(&mut self, x: ExprStruct) -> (r: ExprStruct) ensures rebuilt(Expr::Struct(r), Expr::Struct(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_try(&mut self, x: ExprTry) -> (r: ExprTry) ensures rebuilt(Expr::Try(r), Expr::Try(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_try_block(&mut self, x: ExprTryBlock) -> (r: ExprTryBlock) ensures rebuilt(Expr::TryBlock(r), Expr::TryBlock(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_tuple(&mut self, x: ExprTuple) -> (r: ExprTuple) ensures rebuilt(Expr::Tuple(r), Expr::Tuple(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_type(&mut self, x: ExprType) -> (r: ExprType) ensures rebuilt(Expr::Type(r), Expr::Type(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_unary(&mut self, x: ExprUnary) -> (r: ExprUnary) ensures rebuilt(Expr::Unary(r), Expr::Unary(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_unsafe(&mut self, x: ExprUnsafe) -> (r: ExprUnsafe) ensures rebuilt(Expr::Unsafe(r), Expr::Unsafe(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_while(&mut self, x: ExprWhile) -> (r: ExprWhile) ensures rebuilt(Expr::While(r), Expr::While(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold_expr_yield(&mut self, x: ExprYield) -> (r: ExprYield) ensures rebuilt(Expr::Yield(r), Expr::Yield(x)) { unimplemented!() }
    //@prop C15
    //@fn Fold for ConvertToAegir::fold_expr | | | self expr
    #[verifier::exec_allows_no_decreases_clause]
    pub fn fold_expr(&mut self, expr: Expr) -> (r: Expr)
        requires formula(expr)
        ensures
            denotes(r, expr),
            tight(expr) || expr is Binary ==> tight(r),
            !tight(expr) && !(expr is Binary) ==> tight(r) || (r is Unary <==> expr is Unary) && (r is Reference <==> expr is Reference) && (r is Box <==> expr is Box) && (r is Cast <==> expr is Cast) && (r is Type <==> expr is Type),
    //@pre
        proof { reveal_with_fuel(denotes, 3); reveal_with_fuel(is_call, 2); reveal_strlit("add"); reveal_strlit("sub"); reveal_strlit("mul"); reveal_strlit("pow"); reveal_strlit("squared"); assert("add"@[0] != "pow"@[0] && "sub"@[0] != "pow"@[0] && "mul"@[0] != "pow"@[0]); }
    //@end
}
//@fn Fold for ConvertToAegir::fold_expr::is_two | | | lit
pub fn is_two(lit: &Lit) -> (r: bool)
    ensures r ==> worth_two(*lit),
//@end
} // verus!
