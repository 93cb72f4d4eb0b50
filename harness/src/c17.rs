//! C17: distinct variables of a scope never share a slot.
use crate::gen::{A, A::*, Gen};
use crate::refr::*;
use crate::sym::*;
use std::cell::Cell;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::resolver::Resolver;
use whitespace::source_loc::SourceLoc;

pub fn decide(v: Vec<Stmt>) {
    if showing() { eprintln!("{:#?}", v); }
    let mut rs = Resolver::new();
    let r = rs.resolve(v);
    match &r {
        Ok(c) => {
            if showing() { eprintln!("resolved: {:#?}", c.statements); }
            let mut w = RefR::new();
            w.compare = true;
            w.program(&c.statements);
            reach(1);
            check(w.slots_ok && w.bindings_ok, 1);
            digest(w.uses);
            std::mem::forget(w);
        }
        Err(_) => reach(2),
    }
    std::mem::forget(r);
    std::mem::forget(rs);
    end()
}
static FLAT: [A; 5] = [Var, Set, Fun, Class, Lambda];
/// Many ways of declaring, in the global scope and in a function.
#[no_mangle]
pub extern "C" fn h_c17_ways() {
    let mut g = Gen::new(3);
    g.init = false;
    if pick(2) == 1 { g.max_params = 2; g.act(Fun); }
    g.max_params = 0;
    for _ in 0..tier(3, 4) {
        let a = FLAT[pick(FLAT.len())];
        g.act(a);
        if matches!(a, Fun | Class | Lambda) { g.act(Close); }
    }
    // what was declared is used at the end
    g.act(Use);
    decide(g.finish())
}
fn name(i: usize) -> String {
    let mut v = Vec::with_capacity(3);
    v.push(b'v');
    v.push(b'a' + (i / 26) as u8);
    v.push(b'a' + (i % 26) as u8);
    unsafe { String::from_utf8_unchecked(v) }
}
fn loc(i: usize) -> SourceLoc { SourceLoc::new(i as u32 + 1, 3) }
fn at() -> Cell<VarLoc> { Cell::new(VarLoc::new(9, 9)) }
fn var(i: usize, l: usize) -> Expr { Expr::Variable(name(i), at(), loc(l)) }
fn fun(p: Vec<Parameter>, b: Vec<Stmt>, l: usize) -> FunctionDefinition { FunctionDefinition::new(p, b, FunctionType::PlainFunction, loc(l)) }
/// Declares (or merely uses) name i in one of several ways.
fn one(way: usize, i: usize, l: usize) -> Stmt {
    match way {
        0 => Stmt::Var(name(i), Cell::new(SlotIndex::placeholder()), Box::new(Expr::LiteralNil), loc(l)),
        1 => Stmt::Fun(NamedFunctionDefinition::new(name(i), fun(Vec::new(), Vec::new(), l))),
        2 => Stmt::Class(ClassDefinition { name: name(i), superclass: None, methods: Vec::new(), source_loc: loc(l) }),
        3 => Stmt::Expression(var(i, l)),
        4 => Stmt::Expression(Expr::Assign(name(i), at(), Box::new(Expr::LiteralNil), loc(l))),
        _ => Stmt::Print(Expr::Function(Box::new(fun(Vec::new(), vec![Stmt::Return(var(i, l), loc(l))], l)))),
    }
}
/// Around 256 names in one scope: the global scope, a block, a function, a
/// method; every name but the last few declared in one way, the last few in
/// any way, possibly repeating an earlier name.
#[no_mangle]
pub extern "C" fn h_c17_limit() {
    budget(400_000_000);
    let scope = pick(5);
    let way = pick(if scope == 0 { 4 } else { 2 });
    let params = if scope >= 2 { [0, 254][pick(2)] } else { 0 };
    let total = 254 + pick(2);
    let mut v = Vec::with_capacity(300);
    let mut p = Vec::with_capacity(256);
    for i in 0..params { p.push(Parameter::new(name(i), loc(i))); }
    for i in params..total { v.push(one(way, i, i)); }
    let mut next = total.max(params);
    let mut l = next;
    for _ in 0..tier(2, 3) {
        let w = pick(if scope == 0 { 6 } else { 5 });
        // an old name or a new one
        let i = if pick(3) == 0 { 1 } else { next += 1; next - 1 };
        // the old one is not declared again in a local scope
        assume(!(i == 1 && scope > 0 && w < 3));
        if w >= 3 && i != 1 { next -= 1; assume(scope == 0); next += 1; }
        v.push(one(w, i, l));
        l += 1;
    }
    // the first and the last one can still be used
    v.push(Stmt::Expression(var(0, l)));
    let s = match scope {
        0 => v,
        1 => vec![Stmt::Block(v)],
        2 => vec![Stmt::Fun(NamedFunctionDefinition::new("f".to_owned(), fun(p, v, 900)))],
        3 => vec![Stmt::Expression(Expr::Function(Box::new(fun(p, v, 900))))],
        _ => vec![Stmt::Class(ClassDefinition { name: "c".to_owned(), superclass: None, source_loc: loc(901),
            methods: vec![NamedFunctionDefinition::new("m".to_owned(), FunctionDefinition::new(p, v, FunctionType::Method, loc(902)))] })],
    };
    if showing() { eprintln!("scope {} way {} params {} names {}", scope, way, params, next); }
    let mut w = RefR::new();
    w.program(&s);
    let mut rs = Resolver::new();
    let r = rs.resolve(s);
    if showing() { eprintln!("offences {:?} crowd {:?}", w.offences, w.crowd); if let Err(e) = &r { eprintln!("{:?}", e); } }
    check(w.offences.is_empty(), 9);
    match &r {
        Ok(c) => {
            reach(1);
            check(w.crowd.is_empty(), 1);
            let mut w = RefR::new();
            w.compare = true;
            w.program(&c.statements);
            check(w.slots_ok && w.bindings_ok, 2);
            std::mem::forget(w);
        }
        Err(e) => { reach(2); check(!w.crowd.is_empty(), 3); check(causes_among(&w.crowd, e), 4); }
    }
    std::mem::forget(w);
    std::mem::forget(r);
    std::mem::forget(rs);
    end()
}
/// The same through a session of lines, each declaring or using names.
#[no_mangle]
pub extern "C" fn h_c17_session() {
    budget(400_000_000);
    let way = pick(6);
    let total = 254 + pick(2);
    let mut v = Vec::with_capacity(300);
    for i in 0..total { v.push(one(way, i, i)); }
    let mut rs = Resolver::new();
    let mut w = RefR::new();
    w.compare = true;
    match rs.resolve(v) { Ok(c) => { w.program(&c.statements); std::mem::forget(c) } Err(_) => check(false, 1) }
    let mut next = total;
    for k in 0..tier(3, 4) {
        let y = pick(6);
        let i = if pick(2) == 0 { k } else { next += 1; next - 1 };
        let line = vec![one(y, i, 500 + k)];
        // the name has its slot, or there is one left
        let room = next <= 256 || i == k;
        if showing() { eprintln!("line: {:?}", line); }
        let r = rs.resolve(line);
        match &r {
            Ok(c) => { reach(1); check(room, 2); w.program(&c.statements); check(w.slots_ok && w.bindings_ok, 3); }
            Err(e) => {
                reach(2);
                check(!room, 4);
                check(e.causes.len() == 1 && e.causes[0].token.as_deref() == Some(name(i).as_str()) && e.causes[0].source_loc == loc(500 + k), 5);
                next -= 1;
            }
        }
        std::mem::forget(r);
    }
    std::mem::forget(w);
    std::mem::forget(rs);
    end()
}
