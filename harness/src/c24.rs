//! C24: name resolution writes bindings into the tree and changes nothing else.
use crate::gen::{poison, A, A::*, Gen};
use crate::sym::*;
use crate::toks::*;
use std::string::String;
use whitespace::ast::*;
use whitespace::parser::Parser;
use whitespace::resolver::Resolver;

/// The keys of every map, in order: comparing maps does not look at it.
fn keys<'a>(v: &'a [Stmt], k: &mut Vec<&'a str>) { for s in v { keys_stmt(s, k) } }
fn keys_stmt<'a>(s: &'a Stmt, k: &mut Vec<&'a str>) {
    match s {
        Stmt::Block(v) => keys(v, k),
        Stmt::Break(_) | Stmt::Continue(_) => {}
        Stmt::Class(c) => { if let Some(e) = &c.superclass { keys_expr(e, k) } for m in &c.methods { keys(&m.fun_def.body, k) } }
        Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => keys_expr(e, k),
        Stmt::Fun(f) => keys(&f.fun_def.body, k),
        Stmt::If(c, a, b) => { keys_expr(c, k); keys_stmt(a, k); if let Some(x) = b { keys_stmt(x, k) } }
        Stmt::Var(_, _, e, _) => keys_expr(e, k),
        Stmt::While(c, b) => { keys_expr(c, k); keys_stmt(b, k) }
        Stmt::WhileIncrement(c, b, i) => { keys_expr(c, k); keys_stmt(b, k); keys_expr(i, k) }
    }
}
fn keys_expr<'a>(e: &'a Expr, k: &mut Vec<&'a str>) {
    match e {
        Expr::Assign(_, _, v, _) => keys_expr(v, k),
        Expr::Call(f, a, _) => { keys_expr(f, k); for x in a { keys_expr(x, k) } }
        Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => { keys_expr(a, k); keys_expr(b, k) }
        Expr::Function(f) => keys(&f.body, k),
        Expr::Get(o, _, _) | Expr::Grouping(o) | Expr::Unary(_, o, _) => keys_expr(o, k),
        Expr::LiteralArray(v) => for x in v { keys_expr(x, k) },
        Expr::LiteralMap(m) => { k.push("{"); for (n, v) in m.iter() { k.push(n); keys_expr(v, k) } k.push("}") }
        Expr::LiteralBool(_) | Expr::LiteralNumber(_) | Expr::LiteralNil | Expr::LiteralString(_) => {}
        Expr::Set(o, _, v, _) => { keys_expr(o, k); keys_expr(v, k) }
        Expr::SetIndex(a, i, v, _) => { keys_expr(a, k); keys_expr(i, k); keys_expr(v, k) }
        Expr::Super(..) | Expr::Variable(..) => {}
    }
}
fn same_order(a: &[Stmt], b: &[Stmt]) -> bool {
    let (mut x, mut y) = (Vec::with_capacity(64), Vec::with_capacity(64));
    keys(a, &mut x);
    keys(b, &mut y);
    let r = x == y;
    std::mem::forget((x, y));
    r
}
pub fn decide(v: Vec<Stmt>) {
    if showing() { eprintln!("{:#?}", v); }
    let plain = v.clone();
    let odd = v.clone();
    poison(&odd);
    let odd_before = odd.clone();
    let r = Resolver::new().resolve(v);
    let o = Resolver::new().resolve(odd);
    match (&r, &o) {
        (Ok(c), Ok(d)) => {
            reach(1);
            if showing() { eprintln!("resolved: {:#?}\nresolved, bindings of another before: {:#?}", c.statements, d.statements); }
            // whatever the places for bindings held, they hold the same now
            check(c.statements == d.statements, 1);
            // once more
            let again = Resolver::new().resolve(c.statements.clone());
            match &again { Ok(x) => { if showing() { eprintln!("resolved again: {:#?}", x.statements); } check(x.statements == c.statements, 2) } Err(_) => check(false, 3) }
            check(same_order(&plain, &c.statements), 4);
            // but for the bindings it is the tree from before
            let after = c.statements.clone();
            poison(&after);
            check(after == odd_before, 5);
            digest(after.len() as u64);
            std::mem::forget((again, after));
        }
        (Err(a), Err(b)) => { reach(2); check(a == b, 6) }
        _ => check(false, 7),
    }
    std::mem::forget((r, o, plain, odd_before));
    end()
}
fn parsed(ts: Vec<whitespace::token::Token<'static>>) {
    show(&ts);
    match Parser::new(ts).parse() { Ok(v) => decide(v), Err(e) => { std::mem::forget(e); reach(3); end() } }
}
static MENU: [A; 11] = [Var, VarOf, Use, Set, Block, While, Fun, Lambda, Return, Sub, Close];
#[no_mangle]
pub extern "C" fn h_c24_actions() { let mut g = Gen::new(1); g.max_params = tier(0, 1); g.init = false; g.actions(tier(5, 6), &MENU); decide(g.finish()) }
static AROUND: [A; 9] = [VarOf, Block, Fun, Lambda, VarLambda, Class, Sub, While, For];
/// Something to resolve in every place that can hold an expression.
#[no_mangle]
pub extern "C" fn h_c24_places() {
    let mut g = Gen::new(1);
    g.max_params = 1;
    let n = pick(tier(2, 3) + 1);
    g.actions(n, &AROUND);
    if g.in_class() { g.act(Method); }
    let e = { let k = pick(crate::gen::LEAVES); g.leaf(k) };
    g.place(pick(crate::gen::PLACES), e);
    decide(g.finish())
}
static BRANCHES: [A; 10] = [Var, Use, Block, If, IfBare, Else, ElseBare, WhileBare, For, Close];
#[no_mangle]
pub extern "C" fn h_c24_branches() { let mut g = Gen::new(1); g.actions(tier(5, 6), &BRANCHES); decide(g.finish()) }
/// Composed programs.
#[no_mangle]
pub extern "C" fn h_c24_nest() { parsed(crate::nest::named()) }
#[no_mangle]
pub extern "C" fn h_c24_parsed() { parsed(crate::c18::scoped(crate::c18::SCOPED)) }
/// Programs of every construct, a few tokens replaced by any.
#[no_mangle]
pub extern "C" fn h_c24_near() { parsed(crate::corpus::neighbour(crate::corpus::PROGRAMS, tier(1, 2), tier(1, 2))) }
/// Forms repeated.
#[no_mangle]
pub extern "C" fn h_c24_scale() {
    budget(400_000_000);
    let all = thorough();
    // what returns stands in a function
    let mut ty = words("fun f ( ) {");
    ty.extend_from_slice(&crate::scale::program(all));
    ty.extend_from_slice(&words("}"));
    parsed(crate::nest::tokens(&ty))
}
/// Names and strings of every spelling.
#[no_mangle]
pub extern "C" fn h_c24_spelling() { let s = crate::spell::named(); decide(crate::spell::tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c24_strings() {
    use crate::nest::*;
    let mut ty = words("fun f ( ) {");
    ty.extend_from_slice(&compose(&[one(&SFORM), one(&ECTX), one(&LEAF[..3])]));
    ty.extend_from_slice(&words("}"));
    let mut ts = tokens(&ty);
    crate::spell::respell(&mut ts);
    parsed(ts)
}
/// Numbers of all kinds.
#[no_mangle]
pub extern "C" fn h_c24_numbers() {
    static T: [&str; 6] = ["0", "1.5", "-0", "00.10", "9007199254740993", "0.1"];
    static F: [&str; 6] = ["@\n", "print [@, { a: @, b: -@ }]\n", "fun f(a)\n  return @\n", "var a = @ + 1\n", "a[@] = b.c = @\n", "if (@) f(@, @)\n"];
    let (f, k, zeros) = (F[pick(6)], pick(T.len()), [0, 1, 16, 300, 310][pick(5)]);
    let mut s = String::with_capacity(2048);
    for c in f.chars() {
        if c == '@' { s.push_str(T[k]); for _ in 0..zeros { s.push('0'); } } else { s.push(c); }
    }
    decide(crate::spell::tree(&s))
}
/// Scopes in one another.
#[no_mangle]
pub extern "C" fn h_c24_far() { budget(400_000_000); let s = crate::spell::far(); decide(crate::spell::tree(&s)) }
