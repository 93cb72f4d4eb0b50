//! C02: the tree of an accepted token sequence contains exactly the tokens.
use crate::sym::*;
use crate::toks::*;
use whitespace::ast::*;
use whitespace::parser::Parser;
use whitespace::source_loc::SourceLoc;
use whitespace::token::{Token, TokenType, TokenType as T};

/// Reads the tokens that carry content, in order.
struct Reader<'a> { t: &'a [Token<'a>], i: usize }
fn content(t: TokenType) -> bool {
    !matches!(t, T::Indent | T::Outdent | T::Terminator | T::LeftParen | T::LeftParenAbutting | T::RightParen | T::LeftBrace
        | T::RightBrace | T::LeftBracket | T::RightBracket | T::Colon | T::Comma | T::Semicolon | T::Eof)
}
impl<'a> Reader<'a> {
    fn skip(&mut self) { while self.i < self.t.len() && !content(self.t[self.i].token_type) { self.i += 1; } }
    /// The next content token must be of this type.
    fn take(&mut self, t: TokenType) -> Option<usize> {
        self.skip();
        if self.i < self.t.len() && self.t[self.i].token_type == t { self.i += 1; Some(self.i - 1) } else { None }
    }
    fn next_is(&self, t: TokenType) -> bool {
        let mut k = self.i;
        while k < self.t.len() && !content(self.t[k].token_type) { k += 1; }
        k < self.t.len() && self.t[k].token_type == t
    }
    /// The next token as written, delimiters included.
    fn raw_is(&self, t: TokenType) -> bool { self.i < self.t.len() && self.t[self.i].token_type == t }
    fn name(&mut self, n: &str) -> bool { match self.take(T::Identifier) { Some(k) => self.t[k].lexeme == n, None => false } }
    fn loc(&self, k: usize, l: &SourceLoc) -> bool { self.t[k].line == l.line && self.t[k].column == l.column }
    fn take_at(&mut self, t: TokenType, l: &SourceLoc) -> bool { match self.take(t) { Some(k) => self.loc(k, l), None => false } }

    fn stmts(&mut self, v: &[Stmt]) -> bool { for s in v { if !self.stmt(s) { return false; } } true }
    fn stmt(&mut self, s: &Stmt) -> bool {
        match s {
            Stmt::Block(v) => {
                if self.next_is(T::For) && v.len() == 2 && matches!(v[0], Stmt::Var(..) | Stmt::Expression(..)) && matches!(v[1], Stmt::While(..) | Stmt::WhileIncrement(..)) {
                    self.take(T::For).is_some() && self.stmt(&v[0]) && self.for_rest(&v[1])
                } else { self.stmts(v) }
            }
            Stmt::Break(l) => self.take_at(T::Break, l),
            Stmt::Continue(l) => self.take_at(T::Continue, l),
            Stmt::Class(c) => {
                if self.take(T::Class).is_none() || !self.name(&c.name) || !self.loc(self.i - 1, &c.source_loc) { return false; }
                if let Some(e) = &c.superclass { if self.take(T::Less).is_none() || !self.expr(e) { return false; } }
                for m in &c.methods {
                    if m.fun_def.fun_type == FunctionType::ClassMethod && self.take(T::Class).is_none() { return false; }
                    if !self.name(&m.name) || !self.loc(self.i - 1, &m.fun_def.source_loc) || !self.fun(&m.fun_def) { return false; }
                }
                true
            }
            Stmt::Expression(e) => self.expr(e),
            Stmt::Fun(f) => self.take(T::Fun).is_some() && self.name(&f.name) && self.loc(self.i - 1, &f.fun_def.source_loc) && self.fun(&f.fun_def),
            Stmt::If(c, a, b) => {
                self.take(T::If).is_some() && self.expr(c) && self.stmt(a)
                    && match b { Some(x) => self.take(T::Else).is_some() && self.stmt(x), None => true }
            }
            Stmt::Print(e) => self.take(T::Print).is_some() && self.expr(e),
            Stmt::Return(e, l) => {
                if !self.take_at(T::Return, l) { return false; }
                if matches!(e, Expr::LiteralNil) && self.raw_is(T::Terminator) { return true; }
                self.expr(e)
            }
            Stmt::Var(n, _, e, l) => {
                if self.take(T::Var).is_none() || !self.name(n) || !self.loc(self.i - 1, l) { return false; }
                if self.raw_is(T::Equal) { self.i += 1; self.expr(e) } else { matches!(**e, Expr::LiteralNil) }
            }
            Stmt::While(c, b) => {
                if self.next_is(T::For) { self.take(T::For).is_some() && self.for_rest(s) }
                else { self.take(T::While).is_some() && self.expr(c) && self.stmt(b) }
            }
            Stmt::WhileIncrement(..) => self.take(T::For).is_some() && self.for_rest(s),
        }
    }
    /// Condition, increment and body of a for loop, from the semicolon (or,
    /// without initializer, the parenthesis) before the condition on.
    fn for_rest(&mut self, s: &Stmt) -> bool {
        while self.i < self.t.len() && !self.raw_is(T::Semicolon) { if content(self.t[self.i].token_type) { return false; } self.i += 1; }
        self.i += 1;
        let (c, b, inc) = match s { Stmt::While(c, b) => (c, b, None), Stmt::WhileIncrement(c, b, i) => (c, b, Some(i)), _ => return false };
        if self.raw_is(T::Semicolon) { if !matches!(c, Expr::LiteralBool(true)) { return false; } } else if !self.expr(c) { return false; }
        if let Some(i) = inc { if !self.expr(i) { return false; } }
        self.stmt(b)
    }
    fn fun(&mut self, f: &FunctionDefinition) -> bool {
        for p in &f.parameters { if !self.name(&p.name) || !self.loc(self.i - 1, &p.source_loc) { return false; } }
        self.stmts(&f.body)
    }
    fn expr(&mut self, e: &Expr) -> bool {
        match e {
            Expr::Assign(n, _, v, l) => self.name(n) && self.take_at(T::Equal, l) && self.expr(v),
            Expr::Call(f, a, _) => { if !self.expr(f) { return false; } for x in a { if !self.expr(x) { return false; } } true }
            Expr::Binary(a, op, b, l) => {
                let t = match op {
                    BinaryOperator::Plus => T::Plus, BinaryOperator::Minus => T::Minus, BinaryOperator::Multiply => T::Star,
                    BinaryOperator::Divide => T::Slash, BinaryOperator::Equal => T::EqualEqual, BinaryOperator::NotEqual => T::BangEqual,
                    BinaryOperator::Less => T::Less, BinaryOperator::LessEqual => T::LessEqual, BinaryOperator::Greater => T::Greater,
                    BinaryOperator::GreaterEqual => T::GreaterEqual,
                };
                self.expr(a) && self.take_at(t, l) && self.expr(b)
            }
            Expr::Function(f) => self.take_at(T::Fun, &f.source_loc) && self.fun(f),
            Expr::Get(o, n, l) => self.expr(o) && self.take_at(T::Dot, l) && self.name(n),
            Expr::GetIndex(a, i, _) => self.expr(a) && self.expr(i),
            Expr::Grouping(x) => self.expr(x),
            Expr::LiteralArray(v) => { for x in v { if !self.expr(x) { return false; } } true }
            Expr::LiteralBool(b) => self.take(if *b { T::True } else { T::False }).is_some(),
            Expr::LiteralMap(m) => {
                for (k, v) in m.iter() {
                    let named = self.next_is(T::Identifier);
                    let key = match self.take(if named { T::Identifier } else { T::String }) { Some(i) => if named { self.t[i].lexeme } else { self.t[i].string_literal.unwrap_or("") }, None => return false };
                    if key != k.as_str() || !self.expr(v) { return false; }
                }
                true
            }
            Expr::LiteralNumber(x) => match self.take(T::Number) { Some(k) => self.t[k].float_literal.map(f64::to_bits) == Some(x.to_bits()), None => false },
            Expr::LiteralNil => self.take(T::Nil).is_some(),
            Expr::LiteralString(s) => match self.take(T::String) { Some(k) => self.t[k].string_literal == Some(s.as_str()), None => false },
            Expr::Logical(a, op, b) => self.expr(a) && self.take(match op { LogicalOperator::And => T::And, LogicalOperator::Or => T::Or }).is_some() && self.expr(b),
            Expr::Set(o, n, v, l) => self.expr(o) && self.take(T::Dot).is_some() && self.name(n) && self.take_at(T::Equal, l) && self.expr(v),
            Expr::SetIndex(a, i, v, l) => self.expr(a) && self.expr(i) && self.take_at(T::Equal, l) && self.expr(v),
            Expr::Super(_, n, l) => self.take_at(T::Super, l) && self.take(T::Dot).is_some() && self.name(n),
            Expr::Unary(op, x, l) => self.take_at(match op { UnaryOperator::Minus => T::Minus, UnaryOperator::Not => T::Bang }, l) && self.expr(x),
            Expr::Variable(n, _, l) => {
                let k = if self.next_is(T::This) { self.take(T::This) } else { self.take(T::Identifier) };
                match k { Some(k) => self.t[k].lexeme == n.as_str() && self.loc(k, l), None => false }
            }
        }
    }
}
pub fn program_matches(t: &[Token], v: &[Stmt]) -> bool {
    let mut r = Reader { t, i: 0 };
    if !r.stmts(v) { return false; }
    r.skip();
    r.i == t.len()
}
pub fn expr_matches(t: &[Token], e: &Expr) -> bool {
    let mut r = Reader { t, i: 0 };
    if !r.expr(e) { return false; }
    r.skip();
    r.i == t.len()
}

pub fn decide(ts: Vec<Token<'static>>) {
    show(&ts);
    let r = Parser::new(ts.clone()).parse();
    match r {
        Ok(v) => { reach(1); if showing() { eprintln!("tree: {:?}", v); } check(program_matches(&ts, &v), 1); digest(v.len() as u64); std::mem::forget(v); }
        Err(e) => { digest(99); std::mem::forget(e) }
    }
}
/// Every sequence of n tokens of any type.
#[no_mangle]
pub extern "C" fn h_c02_any() {
    let n = pick(tier(5, 6) + 1);
    let mut ts = Vec::with_capacity(16);
    for i in 0..n { ts.push(tok(any_type(), i)); }
    ts.push(eof(n));
    decide(ts);
    end()
}
/// Every program of the corpus with up to two tokens replaced by symbolic ones.
#[no_mangle]
pub extern "C" fn h_c02_near() {
    let ins = tier(2, 3);
    decide(crate::corpus::neighbour(crate::corpus::PROGRAMS, 2, ins));
    end()
}
/// Statements in statements, expressions in expressions: every composition.
#[no_mangle]
pub extern "C" fn h_c02_nest() {
    use crate::nest::*;
    let ty = compose(&[one(&SCTX), one(&SFORM), one(&ECTX), one(&LEAF)]);
    decide(tokens(&ty));
    end()
}
/// Compositions with one token replaced, inserted or removed.
#[no_mangle]
pub extern "C" fn h_c02_edit() {
    use crate::nest::*;
    let ty = compose(&[one(&SCTX), one(&SFORM), one(&ECTX[..tier(1, 8)]), one(&LEAF[..1])]);
    decide(disturbed(&ty));
    end()
}
