//! Programs for name resolution, built from a symbolic list of actions.
use crate::sym::*;
use std::cell::Cell;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::source_loc::SourceLoc;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum A {
    /// var n
    Var,
    /// var n = m
    VarOf,
    /// n
    Use,
    /// n = m
    Set,
    /// {
    Block,
    /// while (n) {
    While,
    /// fun n(...) {
    Fun,
    /// fun(...) { as a value
    Lambda,
    /// var n = fun(...) {
    VarLambda,
    /// class n {
    Class,
    /// class n < m {
    Sub,
    /// n(...) { in a class
    Method,
    /// return
    Return,
    /// return n
    ReturnOf,
    /// this
    This,
    /// super.n
    Super,
    /// this + super.n, in a call's arguments
    Mixed,
    /// if (n) {
    If,
    /// if (n), then one statement
    IfBare,
    /// else { , after an if
    Else,
    /// else, then one statement
    ElseBare,
    /// while (n), then one statement
    WhileBare,
    /// for (;n;n) {
    For,
    /// }
    Close,
}
use A::*;
enum Fr { Top, Block, While(Expr), WhileBare(Expr), For(Expr, Expr), If(Expr), IfBare(Expr), Else(Stmt), ElseBare(Stmt), Fun(String, SourceLoc, Vec<Parameter>), Lambda(SourceLoc, Vec<Parameter>), VarLambda(String, SourceLoc, Vec<Parameter>),
          Class(String, Option<Box<Expr>>, SourceLoc, Vec<NamedFunctionDefinition>), Method(String, FunctionType, SourceLoc, Vec<Parameter>) }
pub struct Gen { line: u32, names: usize, stack: Vec<(Fr, Vec<Stmt>)>, pub init: bool, pub plain: bool, pub max_params: usize, pub one_cond: bool }
impl Gen {
    pub fn new(names: usize) -> Gen { Gen { line: 0, names, stack: vec![(Fr::Top, Vec::with_capacity(4))], init: true, plain: false, max_params: 1, one_cond: false } }
    fn loc(&mut self) -> SourceLoc { self.line += 1; SourceLoc::new(self.line, (self.line % 7) as u16 + 1) }
    fn name(&mut self) -> String { name_of(if self.names > 1 { pick(self.names) } else { 0 }) }
    fn var(&mut self) -> Expr { let n = self.name(); self.var_of(n) }
    /// The condition of a branch or loop.
    fn cond(&mut self) -> Expr { if self.one_cond { self.var_of(name_of(0)) } else { self.var() } }
    fn var_of(&mut self, n: String) -> Expr { let l = self.loc(); Expr::Variable(n, Cell::new(VarLoc::new(9, 9)), l) }
    fn sup(&mut self) -> Expr { let l = self.loc(); Expr::Super(Cell::new(VarLoc::new(9, 9)), "m".to_owned(), l) }
    fn params(&mut self) -> Vec<Parameter> {
        let k = if self.max_params > 0 { pick(self.max_params + 1) } else { 0 };
        let mut v = Vec::with_capacity(2);
        for _ in 0..k { let n = self.name(); let l = self.loc(); v.push(Parameter::new(n, l)); }
        v
    }
    fn put(&mut self, s: Stmt) {
        self.stack.last_mut().unwrap().1.push(s);
        // a body without braces is one statement, which an else may still extend
        let done = match &self.stack.last().unwrap().0 {
            Fr::WhileBare(_) | Fr::IfBare(_) | Fr::ElseBare(_) => true,
            _ => false,
        };
        if done { self.close(); }
    }
    pub fn act(&mut self, a: A) {
        let in_class = matches!(self.stack.last().unwrap().0, Fr::Class(..));
        assume(in_class == (a == Method) || a == Close);
        // a declaration needs braces or a block of its own
        let bare = matches!(self.stack.last().unwrap().0, Fr::WhileBare(_) | Fr::IfBare(_) | Fr::ElseBare(_));
        assume(!bare || !matches!(a, Var | VarOf | Fun | VarLambda | Class | Sub));
        match a {
            Var => { let n = self.name(); let l = self.loc(); self.put(Stmt::Var(n, Cell::new(SlotIndex::placeholder()), Box::new(Expr::LiteralNil), l)); }
            VarOf => { let n = self.name(); let l = self.loc(); let e = self.var(); self.put(Stmt::Var(n, Cell::new(SlotIndex::placeholder()), Box::new(e), l)); }
            Use => { let e = self.var(); self.put(Stmt::Expression(e)); }
            Set => {
                let n = self.name();
                let e = self.var();
                let l = self.loc();
                self.put(Stmt::Expression(Expr::Assign(n, Cell::new(VarLoc::new(9, 9)), Box::new(e), l)));
            }
            Block => self.stack.push((Fr::Block, Vec::with_capacity(4))),
            While => { let e = self.var(); self.stack.push((Fr::While(e), Vec::with_capacity(4))); }
            Fun => { let n = self.name(); let l = self.loc(); let p = self.params(); self.stack.push((Fr::Fun(n, l, p), Vec::with_capacity(4))); }
            Lambda => { let l = self.loc(); let p = self.params(); self.stack.push((Fr::Lambda(l, p), Vec::with_capacity(4))); }
            VarLambda => { let n = self.name(); let l = self.loc(); let p = self.params(); self.stack.push((Fr::VarLambda(n, l, p), Vec::with_capacity(4))); }
            Class => { let n = self.name(); let l = self.loc(); self.stack.push((Fr::Class(n, None, l, Vec::with_capacity(4)), Vec::new())); }
            Sub => { let n = self.name(); let l = self.loc(); let e = self.var(); self.stack.push((Fr::Class(n, Some(Box::new(e)), l, Vec::with_capacity(4)), Vec::new())); }
            Method => {
                let t = match if self.plain { 0 } else { pick(if self.init { 3 } else { 2 }) } { 0 => FunctionType::Method, 1 => FunctionType::ClassMethod, _ => FunctionType::Initializer };
                let l = self.loc();
                let p = self.params();
                let n = if t == FunctionType::Initializer { "init".to_owned() } else { "m".to_owned() };
                self.stack.push((Fr::Method(n, t, l, p), Vec::with_capacity(4)));
            }
            Return => { let l = self.loc(); self.put(Stmt::Return(Expr::LiteralNil, l)); }
            ReturnOf => { let l = self.loc(); let e = self.var(); self.put(Stmt::Return(e, l)); }
            This => { let e = self.var_of("this".to_owned()); self.put(Stmt::Expression(e)); }
            Super => { let e = self.sup(); self.put(Stmt::Print(e)); }
            Mixed => {
                let f = self.var();
                let l = self.loc();
                let t = self.var_of("this".to_owned());
                let s = self.sup();
                self.put(Stmt::Print(Expr::Call(Box::new(f), vec![t, Expr::Unary(UnaryOperator::Not, Box::new(s), l)], l)));
            }
            If => { let e = self.cond(); self.stack.push((Fr::If(e), Vec::with_capacity(4))); }
            IfBare => { let e = self.cond(); self.stack.push((Fr::IfBare(e), Vec::with_capacity(4))); }
            WhileBare => { let e = self.cond(); self.stack.push((Fr::WhileBare(e), Vec::with_capacity(4))); }
            For => { let e = self.var(); let f = self.var(); self.stack.push((Fr::For(e, f), Vec::with_capacity(4))); }
            Else | ElseBare => {
                let open = match self.stack.last().unwrap().1.last() { Some(s) => without_else(s), None => false };
                assume(open);
                let s = self.stack.last_mut().unwrap().1.pop().unwrap();
                self.stack.push((if a == Else { Fr::Else(s) } else { Fr::ElseBare(s) }, Vec::with_capacity(4)));
            }
            Close => { assume(self.stack.len() > 1); self.close(); }
        }
    }
    fn close(&mut self) {
        let (f, v) = self.stack.pop().unwrap();
        let fun = |p, v, t, l| FunctionDefinition::new(p, v, t, l);
        match f {
            Fr::Top => unreachable!(),
            Fr::Block => self.put(Stmt::Block(v)),
            Fr::If(e) => self.put(Stmt::If(e, Box::new(Stmt::Block(v)), None)),
            Fr::For(e, f) => self.put(Stmt::WhileIncrement(e, Box::new(Stmt::Block(v)), Box::new(f))),
            Fr::Else(s) => self.put(with_else(s, Stmt::Block(v))),
            Fr::WhileBare(e) => { let b = single(v); self.put(Stmt::While(e, Box::new(b))) }
            Fr::IfBare(e) => { let b = single(v); self.put(Stmt::If(e, Box::new(b), None)) }
            Fr::ElseBare(s) => { let b = single(v); self.put(with_else(s, b)) }
            Fr::While(e) => self.put(Stmt::While(e, Box::new(Stmt::Block(v)))),
            Fr::Fun(n, l, p) => self.put(Stmt::Fun(NamedFunctionDefinition::new(n, fun(p, v, FunctionType::PlainFunction, l)))),
            Fr::Lambda(l, p) => self.put(Stmt::Expression(Expr::Function(Box::new(fun(p, v, FunctionType::PlainFunction, l))))),
            Fr::VarLambda(n, l, p) => self.put(Stmt::Var(n, Cell::new(SlotIndex::placeholder()), Box::new(Expr::Function(Box::new(fun(p, v, FunctionType::PlainFunction, l)))), l)),
            Fr::Class(name, superclass, source_loc, methods) => self.put(Stmt::Class(ClassDefinition { name, superclass, methods, source_loc })),
            Fr::Method(n, t, l, p) => {
                let m = NamedFunctionDefinition::new(n, fun(p, v, t, l));
                match &mut self.stack.last_mut().unwrap().0 { Fr::Class(_, _, _, ms) => ms.push(m), _ => unreachable!() }
            }
        }
    }
    pub fn finish(mut self) -> Vec<Stmt> {
        while self.stack.len() > 1 { self.close(); }
        self.stack.pop().unwrap().1
    }
    /// class n < super {
    pub fn sub(&mut self, superclass: &str) {
        let n = self.name();
        let l = self.loc();
        let e = self.var_of(superclass.to_owned());
        self.stack.push((Fr::Class(n, Some(Box::new(e)), l, Vec::with_capacity(4)), Vec::new()));
    }
    /// Puts an expression into one of the places a program has for one.
    pub fn place(&mut self, k: usize, e: Expr) {
        let l = self.loc();
        let n = || Expr::LiteralNumber(0.0);
        let b = Box::new;
        let at = || Cell::new(VarLoc::new(9, 9));
        let x = |e| Box::new(Stmt::Expression(e));
        let s = match k {
            0 => Stmt::Print(e),
            1 => Stmt::If(e, x(n()), Some(x(n()))),
            2 => Stmt::If(n(), x(e), Some(x(n()))),
            3 => Stmt::If(n(), x(n()), Some(x(e))),
            4 => Stmt::While(e, x(n())),
            5 => Stmt::While(n(), x(e)),
            6 => Stmt::WhileIncrement(e, x(n()), b(n())),
            7 => Stmt::WhileIncrement(n(), x(e), b(n())),
            8 => Stmt::WhileIncrement(n(), x(n()), b(e)),
            9 => Stmt::Expression(Expr::Assign("g".to_owned(), at(), b(e), l)),
            10 => Stmt::Expression(Expr::Binary(b(e), BinaryOperator::Plus, b(n()), l)),
            11 => Stmt::Expression(Expr::Binary(b(n()), BinaryOperator::Plus, b(e), l)),
            12 => Stmt::Expression(Expr::Call(b(e), vec![n()], l)),
            13 => Stmt::Expression(Expr::Call(b(n()), vec![e, n()], l)),
            14 => Stmt::Expression(Expr::Call(b(n()), vec![n(), e], l)),
            15 => Stmt::Expression(Expr::Get(b(e), "p".to_owned(), l)),
            16 => Stmt::Expression(Expr::GetIndex(b(e), b(n()), l)),
            17 => Stmt::Expression(Expr::GetIndex(b(n()), b(e), l)),
            18 => Stmt::Expression(Expr::Grouping(b(e))),
            19 => Stmt::Expression(Expr::LiteralArray(vec![e, n()])),
            20 => Stmt::Expression(Expr::LiteralArray(vec![n(), e])),
            21 => Stmt::Expression(map(e, n())),
            22 => Stmt::Expression(map(n(), e)),
            23 => Stmt::Expression(Expr::Logical(b(e), LogicalOperator::And, b(n()))),
            24 => Stmt::Expression(Expr::Logical(b(n()), LogicalOperator::Or, b(e))),
            25 => Stmt::Expression(Expr::Set(b(e), "p".to_owned(), b(n()), l)),
            26 => Stmt::Expression(Expr::Set(b(n()), "p".to_owned(), b(e), l)),
            27 => Stmt::Expression(Expr::SetIndex(b(e), b(n()), b(n()), l)),
            28 => Stmt::Expression(Expr::SetIndex(b(n()), b(e), b(n()), l)),
            29 => Stmt::Expression(Expr::SetIndex(b(n()), b(n()), b(e), l)),
            30 => Stmt::Expression(Expr::Unary(UnaryOperator::Minus, b(e), l)),
            31 => Stmt::Var("g".to_owned(), Cell::new(SlotIndex::placeholder()), b(e), l),
            32 => Stmt::Return(e, l),
            _ => Stmt::Block(vec![Stmt::Expression(n()), Stmt::Expression(e)]),
        };
        self.put(s);
    }
    /// A small expression with something to resolve in it.
    pub fn leaf(&mut self, k: usize) -> Expr {
        match k {
            0 => self.var(),
            1 => { let n = self.name(); let e = self.var(); let l = self.loc(); Expr::Assign(n, Cell::new(VarLoc::new(9, 9)), Box::new(e), l) }
            2 => self.var_of("this".to_owned()),
            3 => self.sup(),
            4 => self.var_of("g".to_owned()),
            _ => {
                // fun(x) { return m }
                let n = self.name();
                let l = self.loc();
                let e = self.var();
                let l2 = self.loc();
                Expr::Function(Box::new(FunctionDefinition::new(vec![Parameter::new(n, l)], vec![Stmt::Return(e, l2)], FunctionType::PlainFunction, l)))
            }
        }
    }
    pub fn in_class(&self) -> bool { matches!(self.stack.last().unwrap().0, Fr::Class(..)) }
    pub fn depth(&self) -> usize { self.stack.len() - 1 }
    /// n actions of the menu.  In a class only methods and its end.
    pub fn actions(&mut self, n: usize, menu: &[A]) {
        for _ in 0..n {
            if self.in_class() { let a = if pick(2) == 0 { Method } else { Close }; self.act(a); }
            else { let a = menu[pick(menu.len())]; self.act(a); }
        }
    }
}
pub const PLACES: usize = 34;
pub const LEAVES: usize = 6;
fn map(x: Expr, y: Expr) -> Expr {
    let mut m = Map::default();
    m.insert("k".to_owned(), x);
    m.insert("m".to_owned(), y);
    Expr::LiteralMap(m)
}
pub fn name_of(k: usize) -> String { let mut v = Vec::with_capacity(1); v.push(b'a' + k as u8); unsafe { String::from_utf8_unchecked(v) } }

/// The statement of a body without braces (an empty block when it ends early).
fn single(mut v: Vec<Stmt>) -> Stmt { match v.pop() { Some(s) => s, None => Stmt::Block(Vec::new()) } }
/// Ends in an if without else.
fn without_else(s: &Stmt) -> bool {
    match s {
        Stmt::If(_, _, None) => true,
        Stmt::If(_, _, Some(x)) => without_else(x),
        _ => false,
    }
}
fn with_else(s: Stmt, e: Stmt) -> Stmt {
    match s {
        Stmt::If(c, a, None) => Stmt::If(c, a, Some(Box::new(e))),
        Stmt::If(c, a, Some(x)) => Stmt::If(c, a, Some(Box::new(with_else(*x, e)))),
        s => s,
    }
}
/// Puts a binding nothing has into every place of a parsed tree for one, so
/// that a binding never written is seen.
pub fn poison(v: &[Stmt]) { for s in v { poison_stmt(s); } }
fn at(c: &Cell<VarLoc>) { c.set(VarLoc::new(999, 99)) }
fn poison_fun(f: &FunctionDefinition) { poison(&f.body) }
fn poison_stmt(s: &Stmt) {
    match s {
        Stmt::Block(v) => poison(v),
        Stmt::Break(_) | Stmt::Continue(_) => {}
        Stmt::Class(c) => { if let Some(e) = &c.superclass { poison_expr(e); } for m in &c.methods { poison_fun(&m.fun_def); } }
        Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => poison_expr(e),
        Stmt::Fun(f) => poison_fun(&f.fun_def),
        Stmt::If(c, a, b) => { poison_expr(c); poison_stmt(a); if let Some(x) = b { poison_stmt(x); } }
        Stmt::Var(_, c, e, _) => { c.set(SlotIndex::new(99)); poison_expr(e); }
        Stmt::While(c, b) => { poison_expr(c); poison_stmt(b); }
        Stmt::WhileIncrement(c, b, i) => { poison_expr(c); poison_stmt(b); poison_expr(i); }
    }
}
fn poison_expr(e: &Expr) {
    match e {
        Expr::Assign(_, c, v, _) => { at(c); poison_expr(v); }
        Expr::Call(f, a, _) => { poison_expr(f); for x in a { poison_expr(x); } }
        Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => { poison_expr(a); poison_expr(b); }
        Expr::Function(f) => poison_fun(f),
        Expr::Get(o, _, _) | Expr::Grouping(o) | Expr::Unary(_, o, _) => poison_expr(o),
        Expr::LiteralArray(v) => for x in v { poison_expr(x); },
        Expr::LiteralMap(m) => for (_, v) in m.iter() { poison_expr(v); },
        Expr::LiteralBool(_) | Expr::LiteralNumber(_) | Expr::LiteralNil | Expr::LiteralString(_) => {}
        Expr::Set(o, _, v, _) => { poison_expr(o); poison_expr(v); }
        Expr::SetIndex(a, i, v, _) => { poison_expr(a); poison_expr(i); poison_expr(v); }
        Expr::Super(c, _, _) => at(c),
        Expr::Variable(_, c, _) => at(c),
    }
}
