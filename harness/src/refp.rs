//! A reference parser, written from the language rules with precedence tables
//! (operator precedence parsing) instead of one function per level.  It works on
//! token indices, so its trees say which token every part came from.
//! Err(Skip): the sequence is outside what the properties speak about.
//! Err(Bad(i)): no valid program continues with token i there, or token i is
//! the place of a rule violation.
use crate::sym::*;
use whitespace::ast::*;
use whitespace::source_loc::SourceLoc;
use whitespace::token::{Token, TokenType, TokenType as T};

#[derive(Clone, Debug)]
pub enum RE {
    Leaf(usize),
    Un(usize, Box<RE>),
    Bin(Box<RE>, usize, Box<RE>),
    Group(Box<RE>),
    Call(Box<RE>, Vec<RE>, usize),
    Get(Box<RE>, usize, usize),
    Idx(Box<RE>, Box<RE>, usize),
    Asg(Box<RE>, usize, Box<RE>),
    Arr(Vec<RE>),
    Map(Vec<(usize, RE)>),
    Fun(usize, RF),
    Super(usize, usize),
}
#[derive(Clone, Debug)]
pub struct RF { pub params: Vec<usize>, pub body: Vec<RS> }
#[derive(Clone, Debug)]
pub enum RS {
    Block(Vec<RS>),
    Break(usize),
    Cont(usize),
    Class(usize, Option<usize>, Vec<(usize, bool, RF)>),
    Expr(RE),
    Fun(usize, RF),
    If(RE, Box<RS>, Option<Box<RS>>),
    Print(RE),
    Ret(Option<RE>, usize),
    Var(usize, Option<RE>),
    While(Option<RE>, Box<RS>, Option<RE>),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum No { Skip, Bad(usize) }
type R<X> = Result<X, No>;

pub struct Ref<'a> {
    pub t: &'a [Token<'static>],
    pub i: usize,
    /// arguments without parentheses are part of the language under test
    pub juxt: bool,
    /// map literals are part of the language under test
    pub maps: bool,
    /// the last expression statement may lack its line end
    pub trailing: bool,
    /// loops around the current place, in the current function
    pub loops: usize,
    /// the rejection was for a break or continue outside of a loop
    pub stray: bool,
    /// the rejection was for too many arguments or parameters
    pub too_many: bool,
    /// the rejection was for a repeated key
    pub repeated: bool,
    /// the rejection was for an assignment target
    pub target: bool,
    pub max_args: usize,
}

fn bp(t: TokenType) -> usize {
    match t {
        T::Or => 1, T::And => 2,
        T::EqualEqual | T::BangEqual => 3,
        T::Less | T::LessEqual | T::Greater | T::GreaterEqual => 4,
        T::Plus | T::Minus => 5,
        T::Star | T::Slash => 6,
        _ => 0,
    }
}
fn starts_argument(t: TokenType) -> bool {
    matches!(t, T::False | T::True | T::Nil | T::Number | T::String | T::Identifier | T::Fun | T::LeftParen | T::LeftBrace | T::Super)
}

impl<'a> Ref<'a> {
    pub fn new(t: &'a [Token<'static>]) -> Ref<'a> { Ref { t, i: 0, juxt: true, maps: true, trailing: false, loops: 0, stray: false, too_many: false, repeated: false, target: false, max_args: 255 } }
    fn ty(&self) -> TokenType { self.t[self.i].token_type }
    fn ty1(&self) -> TokenType { self.t[(self.i + 1).min(self.t.len() - 1)].token_type }
    fn ty2(&self) -> TokenType { self.t[(self.i + 2).min(self.t.len() - 1)].token_type }
    fn bad<X>(&self) -> R<X> { Err(No::Bad(self.i)) }
    fn eat(&mut self, t: TokenType) -> bool { if self.ty() == t { self.i += 1; true } else { false } }
    fn need(&mut self, t: TokenType) -> R<usize> { if self.eat(t) { Ok(self.i - 1) } else { self.bad() } }
    fn open_paren(&mut self) -> R<()> { if self.eat(T::LeftParen) || self.eat(T::LeftParenAbutting) { Ok(()) } else { self.bad() } }

    pub fn program(&mut self) -> R<Vec<RS>> {
        let mut v = Vec::with_capacity(4);
        while self.ty() != T::Eof { v.push(self.decl()?); self.line_end(); }
        Ok(v)
    }
    pub fn single(&mut self) -> R<RE> {
        let e = self.expr()?;
        self.need(T::Eof)?;
        Ok(e)
    }
    /// After a closing brace the line may end.
    fn line_end(&mut self) {
        if self.i > 0 && self.t[self.i - 1].token_type == T::RightBrace { self.eat(T::Terminator); }
    }
    fn decl(&mut self) -> R<RS> {
        match self.ty() {
            T::Class => { self.i += 1; self.class() }
            T::Fun if self.ty1() == T::Identifier => {
                self.i += 2;
                let n = self.i - 1;
                Ok(RS::Fun(n, self.fun()?))
            }
            T::Var => { self.i += 1; self.var(false) }
            _ => self.stmt(),
        }
    }
    fn var(&mut self, in_for: bool) -> R<RS> {
        let n = self.need(T::Identifier)?;
        let mut e = None;
        let mut braced = false;
        if self.eat(T::Equal) {
            let on_next_line = self.ty() == T::Terminator;
            if on_next_line {
                if in_for || !self.maps { return Err(No::Skip); }
                // the value may only be an indented map
                self.i += 1;
                if self.ty() != T::Indent { return Err(No::Skip); }
            }
            if self.ty() == T::Indent {
                if in_for || !self.maps || !on_next_line { return Err(No::Skip); }
                self.i += 1;
                if !(matches!(self.ty(), T::Identifier | T::String) && self.ty1() == T::Colon) { return Err(No::Skip); }
                let m = self.binary(1)?;
                self.eat(T::Terminator);
                self.need(T::Outdent)?;
                if self.ty() == T::Equal || !matches!(m, RE::Map(_)) { return Err(No::Skip); }
                e = Some(m);
                // nothing else is needed after the block
                self.eat(T::Terminator);
                return Ok(RS::Var(n, e));
            }
            braced = self.ty() == T::LeftBrace;
            e = Some(self.expr()?);
            if braced && !matches!(e, Some(RE::Map(_))) { return Err(No::Skip); }
        }
        if in_for { self.need(T::Semicolon)?; }
        else if braced { if !self.eat(T::Terminator) { return Err(No::Skip); } }
        else { self.need(T::Terminator)?; }
        Ok(RS::Var(n, e))
    }
    /// The rest of a block after its opening.
    fn block(&mut self) -> R<Vec<RS>> {
        let end = if self.eat(T::LeftBrace) { T::RightBrace } else { self.need(T::Terminator)?; self.need(T::Indent)?; T::Outdent };
        self.block_to(end)
    }
    fn block_to(&mut self, end: TokenType) -> R<Vec<RS>> {
        let mut v = Vec::with_capacity(4);
        while self.ty() != end {
            if self.ty() == T::Eof { return self.bad(); }
            v.push(self.decl()?);
            self.line_end();
        }
        self.i += 1;
        Ok(v)
    }
    /// Parameters and body.
    fn fun(&mut self) -> R<RF> {
        self.open_paren()?;
        let mut params = Vec::with_capacity(4);
        if !self.eat(T::RightParen) {
            loop {
                let p = self.need(T::Identifier)?;
                if params.len() == self.max_args { self.too_many = true; return Err(No::Bad(p)); }
                params.push(p);
                if !self.eat(T::Comma) { break; }
            }
            self.need(T::RightParen)?;
        }
        if self.ty() != T::LeftBrace && self.ty() != T::Terminator { return self.bad(); }
        let outer = std::mem::replace(&mut self.loops, 0);
        let body = self.block()?;
        self.loops = outer;
        Ok(RF { params, body })
    }
    fn class(&mut self) -> R<RS> {
        let n = self.need(T::Identifier)?;
        let sup = if self.eat(T::Less) { Some(self.need(T::Identifier)?) } else { None };
        let end = if self.eat(T::LeftBrace) { T::RightBrace } else { self.need(T::Terminator)?; self.need(T::Indent)?; T::Outdent };
        let mut ms = Vec::with_capacity(4);
        while !self.eat(end) {
            let cm = self.eat(T::Class);
            let m = self.need(T::Identifier)?;
            ms.push((m, cm, self.fun()?));
            self.line_end();
        }
        Ok(RS::Class(n, sup, ms))
    }
    /// A body: block or single statement.
    fn body(&mut self) -> R<RS> {
        if self.ty() == T::LeftBrace || self.ty() == T::Terminator { Ok(RS::Block(self.block()?)) } else { self.stmt() }
    }
    fn loop_body(&mut self) -> R<RS> {
        self.loops += 1;
        let b = self.body()?;
        self.loops -= 1;
        Ok(b)
    }
    fn stmt(&mut self) -> R<RS> {
        let k = self.i;
        match self.ty() {
            T::Break | T::Continue => {
                let brk = self.ty() == T::Break;
                if self.loops == 0 { self.stray = true; return self.bad(); }
                self.i += 1;
                self.need(T::Terminator)?;
                Ok(if brk { RS::Break(k) } else { RS::Cont(k) })
            }
            T::LeftBrace => { self.i += 1; Ok(RS::Block(self.block_to(T::RightBrace)?)) }
            T::Print => { self.i += 1; let e = self.expr()?; self.need(T::Terminator)?; Ok(RS::Print(e)) }
            T::Return => {
                self.i += 1;
                let e = if self.ty() == T::Terminator { None } else { Some(self.expr()?) };
                self.need(T::Terminator)?;
                Ok(RS::Ret(e, k))
            }
            T::If => {
                self.i += 1;
                self.open_paren()?;
                let c = self.expr()?;
                self.need(T::RightParen)?;
                let a = self.body()?;
                if self.ty1() == T::Else { self.line_end(); }
                let b = if self.eat(T::Else) { Some(Box::new(self.body()?)) } else { None };
                Ok(RS::If(c, Box::new(a), b))
            }
            T::While => {
                self.i += 1;
                self.open_paren()?;
                let c = self.expr()?;
                self.need(T::RightParen)?;
                Ok(RS::While(Some(c), Box::new(self.loop_body()?), None))
            }
            T::For => {
                self.i += 1;
                self.open_paren()?;
                let init = match self.ty() {
                    T::Semicolon => { self.i += 1; None }
                    T::Var => { self.i += 1; Some(self.var(true)?) }
                    _ => { let e = self.expr()?; self.need(T::Semicolon)?; Some(RS::Expr(e)) }
                };
                let cond = if self.ty() == T::Semicolon { None } else { Some(self.expr()?) };
                self.need(T::Semicolon)?;
                let inc = if self.ty() == T::RightParen { None } else { Some(self.expr()?) };
                self.need(T::RightParen)?;
                let lp = RS::While(cond, Box::new(self.loop_body()?), inc);
                Ok(match init { None => lp, Some(s) => RS::Block(vec![s, lp]) })
            }
            _ => {
                let e = self.expr()?;
                if !(self.trailing && self.ty() == T::Eof) { self.need(T::Terminator)?; }
                Ok(RS::Expr(e))
            }
        }
    }
    pub fn expr(&mut self) -> R<RE> {
        if self.ty() == T::Indent { return Err(No::Skip); }
        self.binary(0)
    }
    /// Operators of strength at least `min`; 0 is assignment.
    fn binary(&mut self, min: usize) -> R<RE> {
        let mut l = self.operand()?;
        loop {
            let k = self.i;
            if self.ty() == T::Equal {
                if min > 0 { return Ok(l); }
                self.i += 1;
                let r = self.expr()?;
                let ok = match &l { RE::Leaf(i) => self.t[*i].token_type == T::Identifier, RE::Get(..) | RE::Idx(..) => true, _ => false };
                if !ok { self.target = true; return Err(No::Bad(k)); }
                return Ok(RE::Asg(Box::new(l), k, Box::new(r)));
            }
            let p = bp(self.ty());
            if p == 0 || p < min { return Ok(l); }
            self.i += 1;
            let r = self.binary(p + 1)?;
            l = RE::Bin(Box::new(l), k, Box::new(r));
        }
    }
    fn operand(&mut self) -> R<RE> {
        let k = self.i;
        match self.ty() {
            T::Bang | T::Minus => { self.i += 1; return Ok(RE::Un(k, Box::new(self.operand()?))); }
            _ => {}
        }
        let mut e = match self.ty() {
            T::Number | T::True | T::False | T::Nil => { self.i += 1; RE::Leaf(k) }
            T::Identifier | T::String | T::This => {
                if self.ty1() == T::Colon {
                    if self.ty() == T::This || !self.maps { return Err(No::Skip); }
                    RE::Map(self.entries()?)
                } else { self.i += 1; RE::Leaf(k) }
            }
            T::LeftParen | T::LeftParenAbutting => {
                self.i += 1;
                let x = self.expr()?;
                self.need(T::RightParen)?;
                RE::Group(Box::new(x))
            }
            T::LeftBracket => {
                self.i += 1;
                let mut v = Vec::with_capacity(4);
                while !self.eat(T::RightBracket) {
                    v.push(self.expr()?);
                    if !self.eat(T::Comma) { self.need(T::RightBracket)?; break; }
                }
                RE::Arr(v)
            }
            T::LeftBrace => {
                if !self.maps { return Err(No::Skip); }
                self.i += 1;
                let m = self.entries()?;
                self.need(T::RightBrace)?;
                RE::Map(m)
            }
            T::Super => {
                self.i += 1;
                self.need(T::Dot)?;
                RE::Super(k, self.need(T::Identifier)?)
            }
            T::Fun => {
                self.i += 1;
                if self.ty() == T::Identifier { return self.bad(); }
                RE::Fun(k, self.fun()?)
            }
            _ => return self.bad(),
        };
        loop {
            let k = self.i;
            match self.ty() {
                T::Dot => { self.i += 1; let n = self.need(T::Identifier)?; e = RE::Get(Box::new(e), k, n); }
                T::LeftBracket => {
                    self.i += 1;
                    let x = self.expr()?;
                    self.need(T::RightBracket)?;
                    e = RE::Idx(Box::new(e), Box::new(x), k);
                }
                T::LeftParenAbutting => {
                    self.i += 1;
                    let mut v = Vec::with_capacity(4);
                    if !self.eat(T::RightParen) {
                        loop {
                            if v.len() == self.max_args { self.too_many = true; return self.bad(); }
                            v.push(self.expr()?);
                            if !self.eat(T::Comma) { break; }
                        }
                        self.need(T::RightParen)?;
                    }
                    e = RE::Call(Box::new(e), v, k);
                }
                t if starts_argument(t) => {
                    if !self.juxt { return Err(No::Skip); }
                    let mut v = Vec::with_capacity(4);
                    loop {
                        if v.len() == self.max_args { self.too_many = true; return self.bad(); }
                        v.push(self.expr()?);
                        if !self.eat(T::Comma) { break; }
                    }
                    e = RE::Call(Box::new(e), v, k);
                }
                _ => return Ok(e),
            }
        }
    }
    fn key(&self, i: usize) -> &'static str {
        if self.t[i].token_type == T::String { self.t[i].string_literal.unwrap_or("") } else { self.t[i].lexeme }
    }
    fn at_key(&self) -> bool { matches!(self.ty(), T::Identifier | T::String) && self.ty1() == T::Colon }
    fn entries(&mut self) -> R<Vec<(usize, RE)>> {
        let mut v: Vec<(usize, RE)> = Vec::with_capacity(4);
        while self.at_key() {
            let k = self.i;
            self.i += 2;
            let x = self.expr()?;
            for (j, _) in &v { if self.key(*j) == self.key(k) { self.repeated = true; return Err(No::Bad(k)); } }
            v.push((k, x));
            let line_end = self.ty() == T::Terminator
                && ((matches!(self.ty1(), T::Identifier | T::String) && self.ty2() == T::Colon) || self.ty1() == T::RightBrace);
            if self.ty() == T::Comma || line_end { self.i += 1; } else { break; }
        }
        Ok(v)
    }
}

// ---- comparison with the real trees

pub struct Cmp<'a> { pub t: &'a [Token<'static>] }
impl<'a> Cmp<'a> {
    fn loc(&self, i: usize, l: &SourceLoc) -> bool { self.t[i].line == l.line && self.t[i].column == l.column }
    fn name(&self, i: usize, n: &str) -> bool { self.t[i].lexeme == n }
    pub fn stmts(&self, a: &[RS], b: &[Stmt]) -> bool {
        if a.len() != b.len() { return false; }
        for i in 0..a.len() { if !self.stmt(&a[i], &b[i]) { return false; } }
        true
    }
    fn fun(&self, a: &RF, b: &FunctionDefinition, at: usize, ft: FunctionType) -> bool {
        if a.params.len() != b.parameters.len() || b.fun_type != ft || !self.loc(at, &b.source_loc) { return false; }
        for (i, p) in a.params.iter().enumerate() {
            if !self.name(*p, &b.parameters[i].name) || !self.loc(*p, &b.parameters[i].source_loc) { return false; }
        }
        self.stmts(&a.body, &b.body)
    }
    pub fn stmt(&self, a: &RS, b: &Stmt) -> bool {
        match (a, b) {
            (RS::Block(x), Stmt::Block(y)) => self.stmts(x, y),
            (RS::Break(i), Stmt::Break(l)) | (RS::Cont(i), Stmt::Continue(l)) => self.loc(*i, l),
            (RS::Class(n, s, ms), Stmt::Class(c)) => {
                if !self.name(*n, &c.name) || !self.loc(*n, &c.source_loc) || ms.len() != c.methods.len() { return false; }
                match (s, &c.superclass) {
                    (None, None) => {}
                    (Some(i), Some(e)) => if !self.expr(&RE::Leaf(*i), e) { return false; },
                    _ => return false,
                }
                for (i, (n, cm, f)) in ms.iter().enumerate() {
                    let m = &c.methods[i];
                    let ft = if *cm { FunctionType::ClassMethod } else if self.t[*n].lexeme == "init" { FunctionType::Initializer } else { FunctionType::Method };
                    if !self.name(*n, &m.name) || !self.fun(f, &m.fun_def, *n, ft) { return false; }
                }
                true
            }
            (RS::Expr(x), Stmt::Expression(y)) | (RS::Print(x), Stmt::Print(y)) => self.expr(x, y),
            (RS::Fun(n, f), Stmt::Fun(d)) => self.name(*n, &d.name) && self.fun(f, &d.fun_def, *n, FunctionType::PlainFunction),
            (RS::If(c, x, y), Stmt::If(d, p, q)) => {
                self.expr(c, d) && self.stmt(x, p)
                    && match (y, q) { (None, None) => true, (Some(y), Some(q)) => self.stmt(y, q), _ => false }
            }
            (RS::Ret(x, i), Stmt::Return(y, l)) => self.loc(*i, l) && self.opt(x, y, false),
            (RS::Var(n, x), Stmt::Var(m, _, y, l)) => self.name(*n, m) && self.loc(*n, l) && self.opt(x, y, false),
            (RS::While(c, x, None), Stmt::While(d, y)) => self.opt(c, d, true) && self.stmt(x, y),
            (RS::While(c, x, Some(i)), Stmt::WhileIncrement(d, y, j)) => self.opt(c, d, true) && self.stmt(x, y) && self.expr(i, j),
            _ => false,
        }
    }
    /// A part that may be missing: nil, or true for a condition.
    fn opt(&self, a: &Option<RE>, b: &Expr, cond: bool) -> bool {
        match a {
            Some(x) => self.expr(x, b),
            None => if cond { matches!(b, Expr::LiteralBool(true)) } else { matches!(b, Expr::LiteralNil) },
        }
    }
    fn list(&self, a: &[RE], b: &[Expr]) -> bool {
        if a.len() != b.len() { return false; }
        for i in 0..a.len() { if !self.expr(&a[i], &b[i]) { return false; } }
        true
    }
    pub fn expr(&self, a: &RE, b: &Expr) -> bool {
        match (a, b) {
            (RE::Leaf(i), e) => {
                let t = &self.t[*i];
                match e {
                    Expr::LiteralNumber(x) => t.token_type == T::Number && t.float_literal.map(f64::to_bits) == Some(x.to_bits()),
                    Expr::LiteralString(s) => t.token_type == T::String && t.string_literal == Some(s.as_str()),
                    Expr::LiteralBool(true) => t.token_type == T::True,
                    Expr::LiteralBool(false) => t.token_type == T::False,
                    Expr::LiteralNil => t.token_type == T::Nil,
                    Expr::Variable(n, _, l) => matches!(t.token_type, T::Identifier | T::This) && self.name(*i, n) && self.loc(*i, l),
                    _ => false,
                }
            }
            (RE::Un(i, x), Expr::Unary(op, y, l)) => {
                let t = match op { UnaryOperator::Minus => T::Minus, UnaryOperator::Not => T::Bang };
                self.t[*i].token_type == t && self.loc(*i, l) && self.expr(x, y)
            }
            (RE::Bin(x, i, y), Expr::Binary(p, op, q, l)) => {
                let t = match op {
                    BinaryOperator::Plus => T::Plus, BinaryOperator::Minus => T::Minus, BinaryOperator::Multiply => T::Star,
                    BinaryOperator::Divide => T::Slash, BinaryOperator::Equal => T::EqualEqual, BinaryOperator::NotEqual => T::BangEqual,
                    BinaryOperator::Less => T::Less, BinaryOperator::LessEqual => T::LessEqual, BinaryOperator::Greater => T::Greater,
                    BinaryOperator::GreaterEqual => T::GreaterEqual,
                };
                self.t[*i].token_type == t && self.loc(*i, l) && self.expr(x, p) && self.expr(y, q)
            }
            (RE::Bin(x, i, y), Expr::Logical(p, op, q)) => {
                let t = match op { LogicalOperator::And => T::And, LogicalOperator::Or => T::Or };
                self.t[*i].token_type == t && self.expr(x, p) && self.expr(y, q)
            }
            (RE::Group(x), Expr::Grouping(y)) => self.expr(x, y),
            (RE::Call(f, a, i), Expr::Call(g, b, l)) => self.loc(*i, l) && self.expr(f, g) && self.list(a, b),
            (RE::Get(o, d, n), Expr::Get(p, m, l)) => self.loc(*d, l) && self.name(*n, m) && self.expr(o, p),
            (RE::Idx(o, x, i), Expr::GetIndex(p, y, l)) => self.loc(*i, l) && self.expr(o, p) && self.expr(x, y),
            (RE::Asg(t, i, v), Expr::Assign(n, _, w, l)) => {
                self.loc(*i, l) && self.expr(v, w) && match &**t { RE::Leaf(k) => self.t[*k].token_type == T::Identifier && self.name(*k, n), _ => false }
            }
            (RE::Asg(t, i, v), Expr::Set(o, n, w, l)) => {
                self.loc(*i, l) && self.expr(v, w) && match &**t { RE::Get(p, _, m) => self.name(*m, n) && self.expr(p, o), _ => false }
            }
            (RE::Asg(t, i, v), Expr::SetIndex(o, x, w, l)) => {
                self.loc(*i, l) && self.expr(v, w) && match &**t { RE::Idx(p, y, _) => self.expr(p, o) && self.expr(y, x), _ => false }
            }
            (RE::Arr(a), Expr::LiteralArray(b)) => self.list(a, b),
            (RE::Map(a), Expr::LiteralMap(m)) => {
                if a.len() != m.len() { return false; }
                let mut k = 0;
                for (key, v) in m.iter() {
                    let (i, x) = &a[k];
                    let t = &self.t[*i];
                    let want = if t.token_type == T::String { t.string_literal.unwrap_or("") } else { t.lexeme };
                    if want != key.as_str() || !self.expr(x, v) { return false; }
                    k += 1;
                }
                true
            }
            (RE::Fun(i, f), Expr::Function(g)) => self.fun(f, g, *i, FunctionType::PlainFunction),
            (RE::Super(i, n), Expr::Super(_, m, l)) => self.loc(*i, l) && self.name(*n, m),
            _ => false,
        }
    }
}
pub fn same_program(t: &[Token<'static>], a: &[RS], b: &[Stmt]) -> bool { Cmp { t }.stmts(a, b) }
pub fn same_expr(t: &[Token<'static>], a: &RE, b: &Expr) -> bool { Cmp { t }.expr(a, b) }

/// For a rule violation, what follows the violating place is cut off.
fn upto(ts: &[Token<'static>], k: usize, w: Rejects) -> Vec<Token<'static>> {
    if matches!(w, Rejects::All) || k + 2 >= ts.len() { return ts.to_vec(); }
    let mut v = ts[..k + 1].to_vec();
    v.push(crate::toks::eof(k + 1));
    v
}
/// The usual decision: what the reference accepts, the parser accepts with the
/// same tree; what it rejects is rejected.
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Rejects { All, No, Stray, TooMany, Repeated, Target }
fn must(r: &Ref, w: Rejects) -> bool {
    match w { Rejects::All => true, Rejects::No => false, Rejects::Stray => r.stray, Rejects::TooMany => r.too_many, Rejects::Repeated => r.repeated, Rejects::Target => r.target }
}
/// The first cause stands at token k, with its text.
fn cause_at(ts: &[Token<'static>], e: &whitespace::error::ParseError, k: usize) -> bool {
    match e.causes.first() {
        Some(c) => c.source_loc.line == ts[k].line && c.source_loc.column == ts[k].column,
        None => false,
    }
}
pub fn decide_program(ts: Vec<Token<'static>>, r: Ref, id: u32, must_reject: Rejects) {
    let mut r = r;
    show_all(&ts);
    match r.program() {
        Err(No::Skip) => assume(false),
        Err(No::Bad(k)) => {
            if !must(&r, must_reject) { assume(false); }
            if showing() { eprintln!("reference: rejected at token {}", k); }
            let e = whitespace::parser::Parser::new(upto(&ts, k.max(r.i), must_reject)).parse();
            reach(2);
            if showing() { eprintln!("parser: {:?}", e); }
            check(e.is_err(), id + 1);
            if !matches!(must_reject, Rejects::All) { if let Err(x) = &e { check(cause_at(&ts, x, k), id + 3); } }
            std::mem::forget(e);
        }
        Ok(v) => {
            if showing() { eprintln!("reference: {:?}", v); }
            let e = whitespace::parser::Parser::new(ts.clone()).parse();
            reach(1);
            if showing() { eprintln!("parser: {:?}", e); }
            match &e { Ok(w) => check(same_program(&ts, &v, w), id), Err(_) => check(false, id + 2) }
            digest(v.len() as u64);
            std::mem::forget(e);
            std::mem::forget(v);
        }
    }
}
pub fn decide_expr(ts: Vec<Token<'static>>, r: Ref, id: u32, must_reject: Rejects) {
    let mut r = r;
    show_all(&ts);
    match r.single() {
        Err(No::Skip) => assume(false),
        Err(No::Bad(k)) => {
            if !must(&r, must_reject) { assume(false); }
            if showing() { eprintln!("reference: rejected at token {}", k); }
            let e = whitespace::parser::Parser::new(upto(&ts, k.max(r.i), must_reject)).parse_expression();
            reach(2);
            if showing() { eprintln!("parser: {:?}", e); }
            check(e.is_err(), id + 1);
            if !matches!(must_reject, Rejects::All) { if let Err(x) = &e { check(cause_at(&ts, x, k), id + 3); } }
            std::mem::forget(e);
        }
        Ok(v) => {
            if showing() { eprintln!("reference: {:?}", v); }
            let e = whitespace::parser::Parser::new(ts.clone()).parse_expression();
            reach(1);
            if showing() { eprintln!("parser: {:?}", e); }
            match &e { Ok(w) => check(same_expr(&ts, &v, w), id), Err(_) => check(false, id + 2) }
            std::mem::forget(e);
            std::mem::forget(v);
        }
    }
}
fn show_all(ts: &[Token]) { crate::toks::show(ts) }
