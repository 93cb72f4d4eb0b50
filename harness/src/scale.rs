//! Programs in which one form is repeated many times, side by side or in
//! itself: a head, an opening n times, a middle, a closing n times, a tail.
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType};

/// (head, opening, middle, closing, tail), as words.
pub static EXPRS: [[&str; 5]; 31] = [
    ["", "(", "x", ")", ""],
    ["", "-", "x", "", ""],
    ["", "! -", "x", "", ""],
    ["x", "or y", "", "", ""],
    ["x", "and y", "", "", ""],
    ["x", "== y", "", "", ""],
    ["x", "< y", "", "", ""],
    ["x", "- y", "", "", ""],
    ["x", "/ y", "", "", ""],
    ["x", "+ y * z", "", "", ""],
    ["x", "or y and z", "", "", ""],
    ["", "x =", "y", "", ""],
    ["", "x . p = y [ n ] =", "z", "", ""],
    ["x", "(( )", "", "", ""],
    ["x", "(( y , n )", "", "", ""],
    ["x", ". p", "", "", ""],
    ["x", "[ y ]", "", "", ""],
    ["x", ". p (( ) [ n ]", "", "", ""],
    ["", "f ((", "x", ")", ""],
    ["", "f (( n ,", "x", ", y )", ""],
    ["", "f", "x", "", ""],
    ["", "x [", "y", "]", ""],
    ["", "[", "", "]", ""],
    ["", "[ n ,", "x", ", y ]", ""],
    ["[", "x ,", "", "", "]"],
    ["", "{ k :", "x", "}", ""],
    ["{", "k : x ,", "", "", "}"],
    ["", "x + (", "y", ") * z", ""],
    ["", "- ( !", "y", ") . p", ""],
    ["", "fun ( ) { return", "x", "NL }", ""],
    ["", "fun (( a , b ) NL IN", "x NL", "OUT", ""],
];
pub static STMTS: [[&str; 5]; 23] = [
    ["", "x NL", "", "", ""],
    ["{", "print x NL", "", "", "}"],
    ["", "{", "x NL", "}", ""],
    ["", "{", "", "} x NL", ""],
    ["", "if ( x ) NL IN", "y NL", "OUT", ""],
    ["", "if ( x ) {", "y NL", "} else { z NL }", ""],
    ["", "if ( x )", "y NL", "else z NL", ""],
    ["", "if ( x ) { y NL } else", "z NL", "", ""],
    ["", "if ( x ) NL IN y NL OUT else", "NL IN z NL OUT", "", ""],
    ["", "while ( x ) {", "break NL", "}", ""],
    ["", "while ( x ) NL IN", "continue NL", "break NL OUT", ""],
    ["", "for ( ; ; )", "x NL", "", ""],
    ["", "for ( var i = n ; i ; i = n ) NL IN", "x NL", "OUT", ""],
    ["", "for ( x ; ; y ) {", "z NL", "break NL }", ""],
    ["", "fun f ( a ) {", "return x NL", "}", ""],
    ["", "fun f (( ) NL IN", "x NL", "return y NL OUT", ""],
    ["", "fun f ( ) { }", "", "", ""],
    ["class c {", "m (( ) { }", "", "", "}"],
    ["class c < d NL IN", "class m (( a ) NL IN x NL OUT", "", "", "OUT"],
    ["", "class c { m (( ) {", "x NL", "} }", ""],
    ["", "var v = x NL", "", "", ""],
    ["", "k : x NL", "", "", ""],
    ["var v = NL IN", "k : x NL", "", "", "OUT"],
];
/// Numbers at which counters of a few bits wrap, and small ones.
static LIMITS: [usize; 12] = [62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 300];
pub fn times(all: bool) -> usize {
    let (a, b) = if all { (32, 12) } else { (12, 6) };
    let k = pick(a + b);
    if k < a { k + 1 } else if all { LIMITS[k - a] } else { [64, 127, 128, 255, 256, 257][k - a] }
}
pub fn repeat(f: &[&str; 5], n: usize) -> Vec<TokenType> {
    let w = [words(f[0]), words(f[1]), words(f[2]), words(f[3]), words(f[4])];
    let mut v = Vec::with_capacity(n * (w[1].len() + w[3].len()) + 32);
    v.extend_from_slice(&w[0]);
    for _ in 0..n { v.extend_from_slice(&w[1]); }
    v.extend_from_slice(&w[2]);
    for _ in 0..n { v.extend_from_slice(&w[3]); }
    v.extend_from_slice(&w[4]);
    v
}
/// A repeated statement, or a repeated expression as a statement, with or
/// without something around it.
pub fn program(all: bool) -> Vec<TokenType> {
    let k = pick(EXPRS.len() + STMTS.len());
    let n = times(all);
    if k < STMTS.len() { return repeat(&STMTS[k], n); }
    let mut v = words(["print", "var v =", "return"][k % 3]);
    v.extend_from_slice(&repeat(&EXPRS[k - STMTS.len()], n));
    v.extend_from_slice(&words("NL"));
    v
}
/// Another statement behind it.
pub fn followed(all: bool) -> Vec<TokenType> {
    let mut v = program(all);
    v.extend_from_slice(&words("print x NL"));
    v
}
/// The tokens; the last literal and the last operator of each level are any
/// literal and any operator of that level.
pub fn tokens(ty: &[TokenType]) -> Vec<Token<'static>> {
    use TokenType::*;
    static CLASSES: [&[TokenType]; 6] = [&[Number, String, True, False, Nil], &[Minus, Plus], &[Star, Slash], &[Less, LessEqual, Greater, GreaterEqual], &[EqualEqual, BangEqual], &[Or, And]];
    let mut ts = crate::nest::tokens(ty);
    for c in CLASSES {
        if let Some(i) = ty.iter().rposition(|t| c.contains(t)) { ts[i] = tok(type_of(c), i); }
    }
    ts
}
fn leak(ts: &[Token<'static>]) -> &'static [Token<'static>] { ts.to_vec().leak() }

#[no_mangle]
pub extern "C" fn h_c01_scale() {
    let ty = program(true);
    // whole, or cut off
    let n = match pick(3) { 0 => ty.len(), 1 => ty.len() - 1, _ => ty.len() / 2 };
    crate::c01::parse(tokens(&ty[..n]))
}
#[no_mangle]
pub extern "C" fn h_c02_scale() { crate::c02::decide(tokens(&followed(true))); end() }
#[no_mangle]
pub extern "C" fn h_c03_scale() {
    let f = &EXPRS[pick(EXPRS.len())];
    let ts = tokens(&repeat(f, times(true)));
    let r = Ref::new(leak(&ts));
    decide_expr(ts, r, 1, Rejects::All);
    end()
}
#[no_mangle]
pub extern "C" fn h_c10_scale() {
    let f = &STMTS[pick(STMTS.len())];
    let n = times(true);
    let mut ty = repeat(f, n);
    ty.extend_from_slice(&words("print x NL"));
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::All);
    end()
}
/// Loops, functions and blocks in one another, a break or continue inside,
/// between their ends or behind.
#[no_mangle]
pub extern "C" fn h_c11_scale() {
    static F: [&str; 7] = ["while ( n ) {", "for ( ; ; ) {", "fun f ( ) {", "{", "if ( n ) {", "class c { m (( ) {", "print fun ( ) {"];
    static E: [&str; 7] = ["}", "}", "}", "}", "}", "} }", "} NL"];
    let (i, j) = (pick(7), pick(7));
    let n = times(false);
    let mut ty = Vec::with_capacity(4096);
    // n of one kind around one of another
    let inside = pick(2) == 1;
    for _ in 0..n { ty.extend_from_slice(&words(F[i])); }
    ty.extend_from_slice(&words(F[j]));
    let w = if pick(2) == 0 { words("break NL") } else { words("continue NL") };
    if inside { ty.extend_from_slice(&w); }
    ty.extend_from_slice(&words(E[j]));
    let at = pick(3);
    if at == 0 { ty.extend_from_slice(&w); }
    for k in 0..n {
        ty.extend_from_slice(&words(E[i]));
        if at == 1 && k + 2 == n || at == 2 && k + 1 == n { ty.extend_from_slice(&w); }
    }
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::Stray);
    end()
}
/// Assignment to a target of many parts, or many assignments.
#[no_mangle]
pub extern "C" fn h_c14_scale() {
    let n = times(true);
    let mut ty = repeat(&EXPRS[pick(EXPRS.len())], n);
    ty.extend_from_slice(&words("= z"));
    let ts = tokens(&ty);
    let r = Ref { juxt: false, ..Ref::new(leak(&ts)) };
    decide_expr(ts, r, 1, Rejects::Target);
    end()
}
/// Many methods, functions and bodies.
#[no_mangle]
pub extern "C" fn h_c15_scale() {
    static F: [[&str; 5]; 8] = [
        ["class c {", "m (( ) { }", "", "", "}"],
        ["class c < d NL IN", "class m (( a ) NL IN x NL OUT", "", "", "OUT"],
        ["class c {", "m (( ) { } class m (( a , b ) { x NL }", "", "", "}"],
        ["class c {", "m (( a ) {", "", "}", "m (( b ) { } }"],
        ["", "class c { m (( ) {", "x NL", "} }", ""],
        ["", "fun f ( a ) {", "class c { m (( ) { } class m (( ) { } }", "}", ""],
        ["", "print fun (( a ) NL IN", "class c { m (( ) { } class m (( ) { } }", "OUT", "NL"],
        ["", "class c { class m (( ) {", "fun f ( ) { } class c { m (( ) { } }", "} }", "fun f ( ) { }"],
    ];
    let n = times(true);
    let ty = repeat(&F[pick(8)], n);
    // one of the names may be init, and it may be any of the first or last few
    let at = pick(8);
    let ids: Vec<usize> = (0..ty.len()).filter(|i| ty[*i] == TokenType::Identifier).collect();
    let which = if at < 4 { at } else { ids.len() + 3 - at.min(ids.len() + 3) };
    let mut ts: Vec<Token<'static>> = Vec::with_capacity(ty.len() + 1);
    for i in 0..ty.len() { ts.push(if which < ids.len() && ids[which] == i { tok_named(ty[i], i, *b"init") } else { tok(ty[i], i) }); }
    ts.push(eof(ty.len()));
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::No);
    end()
}
/// The program with one token wrong, near its middle or end.
#[no_mangle]
pub extern "C" fn h_c20_scale() {
    let ty = followed(false);
    let at = match pick(6) { 0 => ty.len() / 2, k => ty.len() - k.min(ty.len()) };
    let how = pick(2);
    let t = type_of(&[TokenType::RightParen, TokenType::Number, TokenType::Equal, TokenType::Terminator, TokenType::Outdent, TokenType::Break]);
    let mut ts: Vec<Token<'static>> = Vec::with_capacity(ty.len() + 2);
    for i in 0..ty.len() {
        if i == at { ts.push(tok(t, ts.len())); if how == 0 { continue; } }
        ts.push(tok(ty[i], ts.len()));
    }
    ts.push(eof(ts.len()));
    let r = Ref::new(leak(&ts));
    crate::c20::decide(ts, r, true, false)
}
