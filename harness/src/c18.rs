//! C18: static rules are enforced exactly.
use crate::gen::{A, A::*, Gen, LEAVES, PLACES};
use crate::refr::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::parser::Parser;
use whitespace::token::Token;
use whitespace::token::TokenType as T;
use whitespace::ast::Stmt;
use whitespace::resolver::Resolver;

pub fn decide(v: Vec<Stmt>) {
    if showing() { eprintln!("{:#?}", v); }
    let mut w = RefR::new();
    w.program(&v);
    let mut rs = Resolver::new();
    let r = rs.resolve(v);
    if showing() { eprintln!("offences: {:?}\nresolver: {:?}", w.offences, r.as_ref().err()); }
    match &r {
        Ok(_) => { reach(1); check(w.offences.is_empty(), 1); }
        Err(e) => { reach(2); check(!w.offences.is_empty(), 2); check(causes_are_offences(&w, e), 3); digest(e.causes.len() as u64); }
    }
    std::mem::forget(r);
    std::mem::forget(w);
    std::mem::forget(rs);
    end()
}
static DECLS: [A; 7] = [Var, VarOf, Use, Block, Fun, Class, Close];
/// Names declared twice and names read in their own initializer.
#[no_mangle]
pub extern "C" fn h_c18_decls() { let mut g = Gen::new(2); g.max_params = tier(1, 2); g.init = false; g.actions(tier(5, 6), &DECLS); decide(g.finish()) }
static RETURNS: [A; 8] = [Return, ReturnOf, Block, Fun, VarLambda, Lambda, Class, Close];
/// Returns in and outside of functions, methods, initializers.
#[no_mangle]
pub extern "C" fn h_c18_returns() { let mut g = Gen::new(1); g.max_params = 0; g.actions(tier(6, 8), &RETURNS); decide(g.finish()) }
static THIS: [A; 9] = [This, Super, Mixed, Block, Fun, VarLambda, Class, Sub, Close];
/// this and super in and outside of classes and subclasses.
#[no_mangle]
pub extern "C" fn h_c18_this() { let mut g = Gen::new(1); g.max_params = 0; g.init = false; g.actions(tier(6, 7), &THIS); decide(g.finish()) }
static INHERIT: [A; 5] = [Class, Sub, Block, Fun, Close];
#[no_mangle]
pub extern "C" fn h_c18_inherit() { let mut g = Gen::new(2); g.max_params = 0; g.init = false; g.actions(tier(6, 7), &INHERIT); decide(g.finish()) }
static AROUND: [A; 7] = [VarOf, Block, Fun, Lambda, Class, Sub, While];
/// Each rule in every place that can hold an expression.
#[no_mangle]
pub extern "C" fn h_c18_places() {
    let mut g = Gen::new(2);
    g.max_params = 0;
    let n = pick(tier(2, 3) + 1);
    g.actions(n, &AROUND);
    if g.in_class() { g.act(Method); }
    let e = { let k = pick(LEAVES); g.leaf(k) };
    g.place(pick(PLACES), e);
    decide(g.finish())
}

/// Programs about scopes and classes; every identifier is one of two names.
pub static SCOPED: &[&str] = &[
    "var x = x NL { var x = x NL x NL }",
    "{ var x = n NL var x = n NL } var x NL",
    "fun x ( x , x ) { return x NL }",
    "fun x ( x ) { var x NL }",
    "{ fun x ( ) { x NL } fun x ( ) { } }",
    "class x < x { m (( x ) { super . x NL this . x NL } }",
    "class x { m (( ) { super . x NL } } this NL",
    "class x < x { init (( ) { return x NL } init (( ) { return NL } }",
    "class x { class init (( ) { return x NL } init (( ) { fun x ( ) { return x NL } } }",
    "for ( var x = x ; x ; x = x ) { var x NL }",
    "{ for ( var x ; ; ) print x NL var x = x NL }",
    "{ x NL var x = n NL x = x NL }",
    "fun x ( ) { return fun (( x ) { return x NL } NL } return x NL",
    "{ var x = fun (( ) { return x NL } NL }",
    "print { s : this , s : x } NL print [ x , this ] NL",
    "if ( x ) { var x NL } else { var x NL var x NL } while ( x ) { var x = x NL }",
    "class x { m (( ) { class x < x { k (( ) { super . x NL } } super . x NL } }",
    "{ class x { } class x < x { } }",
    "x . x = x [ x ] = this NL",
    "var x = { s : x } NL var x = [ x ] NL",
];
/// Tokens of one of the programs: every identifier is "aaax" or "bbbx", or
/// "init" where that is written.
pub fn scoped(progs: &[&str]) -> Vec<Token<'static>> {
    let p = progs[pick(progs.len())];
    let mut ts = Vec::with_capacity(64);
    for w in p.split(' ') {
        if w.is_empty() { continue; }
        let i = ts.len();
        let t = word(w);
        if t == T::Identifier {
            let n = if w.as_bytes() == b"init" { *b"init" } else if pick(2) == 1 { *b"bbbx" } else { *b"aaax" };
            ts.push(tok_named(t, i, n));
        } else {
            ts.push(tok(t, i));
        }
    }
    ts.push(eof(ts.len()));
    ts
}
static BRANCHES: [A; 9] = [VarOf, Return, This, Block, If, IfBare, Else, ElseBare, Fun];
/// Each rule in branches and bodies without braces.
#[no_mangle]
pub extern "C" fn h_c18_branches() { let mut g = Gen::new(1); g.max_params = 0; g.actions(tier(6, 7), &BRANCHES); decide(g.finish()) }
/// Composed programs, parsed.
#[no_mangle]
pub extern "C" fn h_c18_nest() {
    let ts = crate::nest::named();
    show(&ts);
    match Parser::new(ts).parse() {
        Ok(v) => decide(v),
        Err(e) => { std::mem::forget(e); reach(3); end() }
    }
}
#[no_mangle]
pub extern "C" fn h_c18_parsed() {
    let ts = scoped(SCOPED);
    show(&ts);
    match Parser::new(ts).parse() {
        Ok(v) => decide(v),
        Err(e) => { if showing() { eprintln!("{:?}", e); } check(false, 9); end() }
    }
}
