//! A reference for name resolution: walks a tree with plain lists of names,
//! says which rules it breaks, and compares the bindings found in it.
use crate::sym::*;
use whitespace::ast::*;
use whitespace::environment::VarLoc;
use whitespace::error::ParseError;
use whitespace::source_loc::SourceLoc;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum In { Nothing, Function, Initializer }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Cl { No, Plain, Sub }
#[derive(Clone, Debug)]
pub struct Global { pub name: u64, pub slot: Option<u8>, pub declared: bool }
#[derive(Clone, Debug)]
struct Scope { names: Vec<u64> }
#[derive(Clone, Debug)]
pub struct Offence { pub loc: SourceLoc, pub text: String }

pub struct RefR {
    pub globals: Vec<Global>,
    scopes: Vec<Scope>,
    /// the name whose initializer is read, and the number of scopes there
    own: Vec<(String, usize, bool)>,
    fun: In,
    class: Cl,
    pub offences: Vec<Offence>,
    /// bindings are read from the tree and compared
    pub compare: bool,
    pub bindings_ok: bool,
    pub slots_ok: bool,
    pub uses: u64,
    /// declarations and uses that need a slot too many in their scope
    pub crowd: Vec<Offence>,
    /// local bindings in order, for comparison between sessions
    pub locals: Vec<VarLoc>,
}
fn same(a: &str, b: &str) -> bool { a.as_bytes() == b.as_bytes() }
/// A name as a number; of a long one the hash.
fn key(a: &str) -> u64 {
    if a.len() > 8 {
        let mut k = 0xcbf29ce484222325u64;
        for b in a.as_bytes() { k = (k ^ *b as u64).wrapping_mul(0x100000001b3); }
        return k | 1 << 63;
    }
    let mut k = 0u64;
    for b in a.as_bytes() { k = k << 8 | *b as u64; }
    k
}
impl RefR {
    pub fn new() -> RefR {
        RefR { globals: Vec::new(), scopes: Vec::new(), own: Vec::new(), fun: In::Nothing, class: Cl::No, offences: Vec::new(), compare: false,
               bindings_ok: true, slots_ok: true, uses: 0, crowd: Vec::new(), locals: Vec::new() }
    }
    fn offend(&mut self, loc: &SourceLoc, text: &str) { self.offences.push(Offence { loc: *loc, text: text.to_owned() }); }
    fn global(&mut self, name: &str, loc: Option<&SourceLoc>) -> usize {
        let q = key(name);
        for i in 0..self.globals.len() { if self.globals[i].name == q { return i; } }
        if self.globals.len() >= 256 { self.crowd.push(Offence { loc: loc.copied().unwrap_or_default(), text: name.to_owned() }); }
        self.globals.push(Global { name: q, slot: None, declared: false });
        self.globals.len() - 1
    }
    fn global_slot(&mut self, i: usize, slot: u8) {
        match self.globals[i].slot { Some(s) => if s != slot { self.slots_ok = false; }, None => {
            for g in &self.globals { if g.slot == Some(slot) { self.slots_ok = false; } }
            self.globals[i].slot = Some(slot);
        } }
    }
    /// Declares a name in the innermost scope; its slot there.
    fn declare(&mut self, name: &str, loc: &SourceLoc) -> Option<usize> {
        if self.scopes.is_empty() {
            let i = self.global(name, Some(loc));
            self.globals[i].declared = true;
            return None;
        }
        let q = key(name);
        let n = self.scopes.last().unwrap().names.len();
        for k in 0..n {
            if self.scopes.last().unwrap().names[k] == q { self.offend(loc, name); return Some(k); }
        }
        let s = self.scopes.last_mut().unwrap();
        s.names.push(q);
        if n >= 256 { self.crowd.push(Offence { loc: *loc, text: name.to_owned() }); }
        Some(n)
    }
    fn open(&mut self) { self.scopes.push(Scope { names: Vec::with_capacity(4) }); }
    fn close(&mut self) { self.scopes.pop(); }
    /// A use of a name whose recorded place is `at`.
    fn used(&mut self, name: &str, at: VarLoc, loc: Option<&SourceLoc>) {
        self.uses += 1;
        let q = key(name);
        let depth = self.scopes.len();
        for d in 0..depth {
            let sc = &self.scopes[depth - 1 - d];
            for k in 0..sc.names.len() {
                if sc.names[k] == q {
                    if self.compare {
                        if at != VarLoc::new(d as u16, at.index()) { self.bindings_ok = false; }
                        if at.index() as usize != k { self.bindings_ok = false; self.slots_ok = false; }
                        self.locals.push(at);
                    }
                    return;
                }
            }
        }
        let i = self.global(name, loc);
        if self.compare {
            if at != VarLoc::new(depth as u16, at.index()) { self.bindings_ok = false; }
            // the same global variable, the same slot
            if let Some(s) = self.globals[i].slot { if s != at.index() { self.bindings_ok = false; } }
            for (j, g) in self.globals.iter().enumerate() { if j != i && g.slot == Some(at.index()) { self.bindings_ok = false; } }
            self.global_slot(i, at.index());
        }
    }
    pub fn declared(&self) -> Vec<Global> { self.globals.clone() }
    pub fn program(&mut self, v: &[Stmt]) { for s in v { self.stmt(s); } }
    fn stmts(&mut self, v: &[Stmt]) { for s in v { self.stmt(s); } }
    fn fun(&mut self, f: &FunctionDefinition, kind: In) {
        let outer = std::mem::replace(&mut self.fun, kind);
        self.open();
        for p in &f.parameters { self.declare(&p.name, &p.source_loc); }
        self.stmts(&f.body);
        self.close();
        self.fun = outer;
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Block(v) => { self.open(); self.stmts(v); self.close(); }
            Stmt::Break(_) | Stmt::Continue(_) => {}
            Stmt::Class(c) => {
                let outer = self.class;
                self.declare(&c.name, &c.source_loc);
                if let Some(e) = &c.superclass {
                    if let Expr::Variable(n, _, l) = &**e { if same(n, &c.name) { self.offend(l, n); } }
                    self.class = Cl::Sub;
                    self.expr(e);
                    self.open();
                    self.declare("super", &c.source_loc);
                } else { self.class = Cl::Plain; }
                self.open();
                self.declare("this", &c.source_loc);
                for m in &c.methods {
                    self.fun(&m.fun_def, if m.fun_def.fun_type == FunctionType::Initializer { In::Initializer } else { In::Function });
                }
                self.close();
                if c.superclass.is_some() { self.close(); }
                self.class = outer;
            }
            Stmt::Expression(e) | Stmt::Print(e) => self.expr(e),
            Stmt::Fun(f) => { self.declare(&f.name, &f.fun_def.source_loc); self.fun(&f.fun_def, In::Function); }
            Stmt::If(c, a, b) => { self.expr(c); self.stmt(a); if let Some(x) = b { self.stmt(x); } }
            Stmt::Return(e, l) => {
                if self.fun == In::Nothing { self.offend(l, "return"); }
                if self.fun == In::Initializer && !matches!(e, Expr::LiteralNil) { self.offend(l, "return"); }
                self.expr(e);
            }
            Stmt::Var(n, cell, e, l) => {
                // a global declared before may be read
                let mut before = false;
                if self.scopes.is_empty() { for g in &self.globals { if g.name == key(n) && g.declared { before = true; } } }
                let k = self.declare(n, l);
                self.own.push((n.clone(), self.scopes.len(), before));
                self.expr(e);
                self.own.pop();
                if self.compare {
                    let got = cell.get().index();
                    match k {
                        Some(k) => if got as usize != k { self.slots_ok = false; self.bindings_ok = false; },
                        None => { let i = self.global(n, None); self.global_slot(i, got); }
                    }
                }
            }
            Stmt::While(c, b) => { self.expr(c); self.stmt(b); }
            Stmt::WhileIncrement(c, b, i) => { self.expr(c); self.stmt(b); self.expr(i); }
        }
    }
    fn exprs(&mut self, v: &[Expr]) { for e in v { self.expr(e); } }
    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Assign(n, at, v, l) => { self.expr(v); self.used(n, at.get(), Some(l)); }
            Expr::Call(f, a, _) => { self.expr(f); self.exprs(a); }
            Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => { self.expr(a); self.expr(b); }
            Expr::Function(f) => self.fun(f, In::Function),
            Expr::Get(o, _, _) | Expr::Grouping(o) | Expr::Unary(_, o, _) => self.expr(o),
            Expr::LiteralArray(v) => self.exprs(v),
            Expr::LiteralMap(m) => for (_, v) in m.iter() { self.expr(v); },
            Expr::LiteralBool(_) | Expr::LiteralNumber(_) | Expr::LiteralNil | Expr::LiteralString(_) => {}
            Expr::Set(o, _, v, _) => { self.expr(o); self.expr(v); }
            Expr::SetIndex(a, i, v, _) => { self.expr(a); self.expr(i); self.expr(v); }
            Expr::Super(at, _, l) => {
                if self.class != Cl::Sub { self.offend(l, "super"); }
                self.used("super", at.get(), Some(l));
            }
            Expr::Variable(n, at, l) => {
                if same(n, "this") && self.class == Cl::No { self.offend(l, "this"); }
                let depth = self.scopes.len();
                let mut own = false;
                for (o, d, before) in &self.own { if *d == depth && !*before && same(o, n) { own = true; } }
                if own { self.offend(l, n); }
                self.used(n, at.get(), Some(l));
            }
        }
    }
}
/// Every cause is one of the offences.
pub fn causes_are_offences(r: &RefR, e: &ParseError) -> bool { causes_among(&r.offences, e) }
pub fn causes_among(v: &[Offence], e: &ParseError) -> bool {
    for c in &e.causes {
        let mut found = false;
        for o in v {
            if o.loc == c.source_loc { if let Some(t) = &c.token { if same(t, &o.text) { found = true; } } }
        }
        if !found { return false; }
    }
    !e.causes.is_empty()
}
