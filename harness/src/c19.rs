//! C19: a session is not corrupted by earlier lines.
use crate::gen::{A, A::*, Gen};
use crate::refr::*;
use crate::sym::*;
use whitespace::ast::*;
use whitespace::environment::VarLoc;
use whitespace::resolver::Resolver;

/// Number of probing lines.
pub const PROBES: usize = 16;
/// A line whose acceptance and bindings depend on the context it is resolved in.
pub fn probe(k: usize) -> Vec<Stmt> { probe_of(k, false) }
/// `plain`: methods are not class methods.
pub fn probe_of(k: usize, plain: bool) -> Vec<Stmt> {
    let mut g = Gen::new(1);
    g.plain = plain;
    g.max_params = 0;
    let acts: &[A] = match k {
        0 => &[Return],
        1 => &[This],
        2 => &[Super],
        3 => &[Block, Var, Use, Block, Use, Set],
        4 => &[Fun, ReturnOf],
        5 => &[Lambda, Return, Use],
        6 => &[Class, Method, This],
        7 => &[Class, Method, Super],
        8 => &[Sub, Method, Super, This],
        9 => &[Var, Use],
        10 => &[Use],
        11 => &[VarLambda, Use, Lambda, Var, Use],
        12 => &[Block, Fun, Use, Close, Use],
        13 => &[Block, Var, Var],
        14 => &[Block, VarOf],
        _ => &[Block, Class, Close, Use, Set],
    };
    g.init = false;
    for (i, a) in acts.iter().enumerate() { if k == 8 && i == 0 { g.sub("d"); } else { g.act(*a); } }
    g.finish()
}
/// A line resolved in a session, and what the rules say about it.
pub struct Session { pub rs: Resolver, pub w: RefR }
impl Session {
    pub fn new() -> Session { let mut w = RefR::new(); w.compare = true; Session { rs: Resolver::new(), w } }
    /// Accepted?  The bindings of its locals are left in w.locals.
    pub fn line(&mut self, v: Vec<Stmt>) -> bool {
        self.w.locals.clear();
        // what it declares and breaks
        self.w.compare = false;
        self.w.offences.clear();
        let mut before = self.w.declared();
        self.w.program(&v);
        std::mem::swap(&mut before, &mut self.w.globals);
        let r = self.rs.resolve(v);
        if showing() { eprintln!("{:?}", r); }
        let ok = match &r {
            Ok(c) => { self.w.compare = true; self.w.program(&c.statements); true }
            Err(_) => { std::mem::swap(&mut before, &mut self.w.globals); false }
        };
        std::mem::forget(r);
        std::mem::forget(before);
        ok
    }
}
fn run(first: Vec<Stmt>, second: Option<Vec<Stmt>>, k: usize) -> ! {
    if showing() { eprintln!("first: {:#?}\nsecond: {:#?}\nprobe: {:#?}", first, second, probe(k)); }
    let mut s = Session::new();
    let a = s.line(first);
    check(a == s.w.offences.is_empty(), 1);
    if let Some(v) = second {
        let b = s.line(v);
        check(b == s.w.offences.is_empty(), 2);
    }
    let got = s.line(probe(k));
    let mut f = Session::new();
    let fresh = f.line(probe(k));
    check(got == fresh, 3);
    check(s.w.slots_ok && s.w.bindings_ok, 4);
    let (x, y): (&Vec<VarLoc>, &Vec<VarLoc>) = (&s.w.locals, &f.w.locals);
    check(x.len() == y.len(), 5);
    for i in 0..x.len() { check(x[i] == y[i], 6); }
    if got { reach(1); } else { reach(2); }
    if !a { reach(3); }
    std::mem::forget(s);
    std::mem::forget(f);
    end()
}
static NEST: [A; 9] = [Var, VarOf, Use, Block, Fun, VarLambda, Class, Sub, Close];
static FAIL: [A; 5] = [Return, ReturnOf, This, Super, VarOf];
/// A line that may fail anywhere within nested constructs, then a probe.
#[no_mangle]
pub extern "C" fn h_c19_nested() {
    let mut g = Gen::new(1);
    g.max_params = 1;
    g.actions(tier(3, 4), &NEST);
    if g.in_class() { g.act(Method); }
    g.act(FAIL[pick(FAIL.len())]);
    let k = pick(PROBES);
    run(g.finish(), None, k)
}
static LINE: [A; 7] = [Var, VarOf, Use, Block, Fun, Class, Return];
/// Two lines over two names, then a probe.
#[no_mangle]
pub extern "C" fn h_c19_lines() {
    let mut g = Gen::new(2);
    g.max_params = 0;
    g.init = false;
    g.actions(tier(2, 3), &LINE);
    let mut h = Gen::new(2);
    h.max_params = 0;
    h.init = false;
    h.actions(tier(2, 2), &LINE);
    let k = pick(PROBES);
    run(g.finish(), Some(h.finish()), k)
}
/// Failing in every place that can hold an expression.
#[no_mangle]
pub extern "C" fn h_c19_places() {
    let mut g = Gen::new(1);
    g.max_params = 0;
    static AROUND: [A; 5] = [Block, Fun, VarLambda, Class, Sub];
    g.actions(tier(1, 2), &AROUND);
    if g.in_class() { g.act(Method); }
    let e = { let k = pick(crate::gen::LEAVES); g.leaf(k) };
    g.place(pick(crate::gen::PLACES), e);
    let k = pick(PROBES);
    run(g.finish(), None, k)
}

static PARAMS: [A; 8] = [VarOf, Block, Fun, Lambda, VarLambda, Class, Sub, Close];
/// Lines with up to two parameters, which may have one name.
#[no_mangle]
pub extern "C" fn h_c19_params() {
    let mut g = Gen::new(1);
    g.max_params = 2;
    g.actions(tier(3, 4), &PARAMS);
    let k = pick(PROBES);
    run(g.finish(), None, k)
}
static BRANCHES: [A; 8] = [VarOf, Return, This, Block, If, IfBare, ElseBare, For];
/// Failing in branches and loops.
#[no_mangle]
pub extern "C" fn h_c19_branches() {
    let mut g = Gen::new(1);
    g.actions(tier(4, 5), &BRANCHES);
    let k = pick(PROBES);
    run(g.finish(), None, k)
}
/// Two composed programs as lines, then a probe.
#[no_mangle]
pub extern "C" fn h_c19_nest() {
    let ts = crate::nest::named();
    crate::toks::show(&ts);
    match whitespace::parser::Parser::new(ts).parse() {
        Ok(v) => { crate::gen::poison(&v); static SOME: [usize; 6] = [3, 0, 2, 1, 8, 14]; let k = SOME[pick(tier(1, 6))]; run(v, None, k) }
        Err(e) => { std::mem::forget(e); reach(4); end() }
    }
}
