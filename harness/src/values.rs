//! Literals of every value: no number, string or constant is special, in any
//! place of an expression or a statement.
use crate::letters::printable;
use crate::nest::*;
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType, TokenType::*};

static KINDS: [TokenType; 6] = [Number, String, True, False, Nil, Identifier];
static OPS: [TokenType; 12] = [Minus, Plus, Star, Slash, Less, LessEqual, Greater, GreaterEqual, EqualEqual, BangEqual, Or, And];
/// L is a literal or name of any kind, O any infix operator.
static EXPRS: [&str; 24] = [
    "L", "- L", "! L", "- - L", "! ! L", "- ! L", "L O L", "- L O L", "L O - L", "a O L", "L O a", "( L O L ) O a", "a O L O L", "( L )", "( - L )", "[ L , L ]", "{ k : L , k : L }", "L . a", "a . b = L", "L [ L ]", "a [ L ] = L", "L (( L )", "a L , L", "fun (( ) { return L NL }",
];
static FORMS: [&str; 22] = [
    "L NL", "print L NL", "return L NL", "var a = L NL", "if ( L ) a NL", "if ( L ) { a NL } else { b NL } c NL", "if ( L ) NL IN a NL OUT c NL", "if ( L ) { } c NL", "while ( L ) a NL", "while ( L ) { break NL } c NL", "while ( L ) { } c NL",
    "for ( L ; L ; L ) c NL", "for ( ; L ; ) { a NL } c NL", "for ( var a = L ; ; L ) { } c NL", "a : L NL b : L NL", "fun a ( b ) { return L NL c NL }", "class a { init (( ) { return L NL c NL } }", "a L NL", "a = L NL", "{ L NL } b NL", "L NL L NL", "if ( L ) if ( L ) a NL",
];
fn fill(t: &str, kinds: &mut usize) -> Vec<TokenType> {
    let mut v = Vec::with_capacity(24);
    for w in t.split(' ') {
        match w {
            // all kinds for the first two, numbers and strings after that
            "L" => { v.push(KINDS[pick(if *kinds < 2 { 6 } else { 2 })]); *kinds += 1; }
            "O" => v.push(OPS[pick(12)]),
            w => v.push(word(w)),
        }
    }
    v
}
/// The first numbers are any numbers not negative, the first strings of any
/// printable characters.
fn valued(ty: &[TokenType]) -> Vec<Token<'static>> {
    let mut ts = tokens(ty);
    let (mut n, mut s) = (0, 0);
    for t in ts.iter_mut() {
        if t.token_type == Number && n < 2 {
            n += 1;
            let mut b = 0u64;
            for _ in 0..8 { b = b << 8 | byte() as u64; }
            assume(b < 0x7ff0_0000_0000_0000);
            t.float_literal = Some(f64::from_bits(b));
        }
        if t.token_type == String && s < 2 {
            s += 1;
            t.string_literal = Some(unsafe { std::str::from_utf8_unchecked(printable(tier(3, 5)).leak()) });
        }
    }
    ts
}
fn expression() -> Vec<Token<'static>> { let mut k = 0; valued(&fill(EXPRS[pick(EXPRS.len())], &mut k)) }
fn statement() -> Vec<Token<'static>> {
    let mut k = 0;
    if pick(2) == 0 { return valued(&fill(FORMS[pick(FORMS.len())], &mut k)); }
    let e = fill(EXPRS[pick(EXPRS.len())], &mut k);
    let ty = compose(&[SFORM[pick(if thorough() { SFORM.len() } else { 5 })], &e]);
    valued(&ty)
}
#[no_mangle]
pub extern "C" fn h_c03_values() {
    let ts = expression();
    let r = Ref::new(crate::c10::leak(&ts));
    decide_expr(ts, r, 1, Rejects::All);
    end()
}
#[no_mangle]
pub extern "C" fn h_c10_values() {
    let ts = statement();
    let r = Ref::new(crate::c10::leak(&ts));
    decide_program(ts, r, 1, Rejects::All);
    end()
}
#[no_mangle]
pub extern "C" fn h_c02_values() { crate::c02::decide(statement()); end() }
#[no_mangle]
pub extern "C" fn h_c01_values() { crate::c01::parse(statement()) }
fn parsed() -> Vec<whitespace::ast::Stmt> {
    let ts = statement();
    show(&ts);
    match whitespace::parser::Parser::new(ts).parse() { Ok(v) => v, Err(e) => { std::mem::forget(e); reach(4); end() } }
}
#[no_mangle]
pub extern "C" fn h_c16_values() { crate::c16::decide(parsed()) }
#[no_mangle]
pub extern "C" fn h_c18_values() { crate::c18::decide(parsed()) }
#[no_mangle]
pub extern "C" fn h_c24_values() { crate::c24::decide(parsed()) }
