//! C16: every name is bound to its nearest enclosing declaration.
use crate::gen::{A, A::*, Gen};
use crate::refr::*;
use crate::sym::*;
use whitespace::ast::Stmt;
use whitespace::resolver::Resolver;

pub fn decide(v: Vec<Stmt>) {
    if showing() { eprintln!("{:#?}", v); }
    let mut rs = Resolver::new();
    let r = rs.resolve(v);
    match &r {
        Ok(c) => {
            if showing() { eprintln!("resolved: {:#?}", c.statements); }
            let mut w = RefR::new();
            w.compare = true;
            w.program(&c.statements);
            if w.uses > 0 { reach(1); }
            check(w.bindings_ok, 1);
            digest(w.uses);
            std::mem::forget(w);
        }
        Err(_) => reach(2),
    }
    std::mem::forget(r);
    std::mem::forget(rs);
    end()
}
static SCOPES: [A; 8] = [Var, VarOf, Use, Set, Block, Fun, Lambda, Close];
/// Blocks and functions.
#[no_mangle]
pub extern "C" fn h_c16_scopes() { let mut g = Gen::new(2); g.actions(tier(4, 5), &SCOPES); decide(g.finish()) }
static DEEP: [A; 6] = [Var, Use, Block, Fun, VarLambda, Close];
#[no_mangle]
pub extern "C" fn h_c16_deep() { let mut g = Gen::new(2); g.max_params = 0; g.actions(tier(6, 7), &DEEP); decide(g.finish()) }
static CLASSES: [A; 8] = [Var, Use, Block, Sub, Class, This, Super, Close];
#[no_mangle]
pub extern "C" fn h_c16_classes() { let mut g = Gen::new(2); g.init = false; g.actions(tier(5, 6), &CLASSES); decide(g.finish()) }
static AROUND: [A; 7] = [Var, Block, Fun, Lambda, Class, Sub, While];
/// Something to resolve in every place of a program that can hold an expression.
#[no_mangle]
pub extern "C" fn h_c16_places() {
    let mut g = Gen::new(2);
    g.init = false;
    let n = pick(tier(2, 3) + 1);
    g.actions(n, &AROUND);
    if g.in_class() { g.act(Method); }
    let e = { let k = pick(crate::gen::LEAVES); g.leaf(k) };
    g.place(pick(crate::gen::PLACES), e);
    let v = g.finish();
    decide(v)
}
/// Trees made by the parser.
#[no_mangle]
pub extern "C" fn h_c16_parsed() {
    let ts = crate::c18::scoped(crate::c18::SCOPED);
    crate::toks::show(&ts);
    match whitespace::parser::Parser::new(ts).parse() {
        Ok(v) => { crate::gen::poison(&v); decide(v) }
        Err(_) => { check(false, 9); end() }
    }
}

static BRANCHES: [A; 9] = [Var, Use, Block, If, IfBare, Else, ElseBare, WhileBare, Close];
/// Branches, loops and their bodies with and without braces.
#[no_mangle]
pub extern "C" fn h_c16_branches() { let mut g = Gen::new(2); g.one_cond = true; g.actions(tier(6, 7), &BRANCHES); decide(g.finish()) }
/// Composed programs, parsed.
#[no_mangle]
pub extern "C" fn h_c16_nest() {
    let ts = crate::nest::named();
    crate::toks::show(&ts);
    match whitespace::parser::Parser::new(ts).parse() {
        Ok(v) => { crate::gen::poison(&v); decide(v) }
        Err(e) => { std::mem::forget(e); reach(3); end() }
    }
}
