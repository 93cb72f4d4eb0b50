//! C21: the three entry points agree.
use crate::corpus::{neighbour, PROGRAMS};
use crate::refs::{text, warm};
use crate::sym::*;
use crate::toks::*;
use whitespace::ast::*;
use whitespace::error::ParseError;
use whitespace::parser::{parse, parse_expression, parse_repl_line, Parser};
use whitespace::scanner::Scanner;
use whitespace::token::{Token, TokenType, TokenType::*};

fn with_line_end(ts: &[Token<'static>]) -> Vec<Token<'static>> {
    let n = ts.len() - 1;
    let mut v = Vec::with_capacity(ts.len() + 1);
    for t in &ts[..n] { v.push(t.clone()); }
    v.push(tok(Terminator, n));
    v.push(eof(n + 1));
    v
}
fn shown(what: &str, v: &Result<Vec<Stmt>, ParseError>) { if showing() { eprintln!("{}: {:?}", what, v); } }
pub fn programs(ts: Vec<Token<'static>>) {
    show(&ts);
    let f = Parser::new(ts.clone()).parse();
    let l = Parser::with_trailing_expression(ts.clone()).parse();
    shown("file", &f);
    shown("line", &l);
    match (&f, &l) {
        (Ok(a), Ok(b)) => { reach(1); check(a == b, 1); }
        (Ok(_), Err(_)) => check(false, 2),
        (Err(_), Ok(b)) => {
            reach(2);
            // an expression without its line end, and nothing else
            let g = Parser::new(with_line_end(&ts)).parse();
            shown("file with line end", &g);
            check(ends_in_expression(b), 3);
            match &g { Ok(a) => check(a == b, 4), Err(_) => check(false, 5) }
            std::mem::forget(g);
        }
        (Err(_), Err(_)) => reach(3),
    }
    digest(f.is_ok() as u64 * 2 + l.is_ok() as u64);
    std::mem::forget(f);
    std::mem::forget(l);
    end()
}
/// The last statement, innermost, is an expression.
fn ends_in_expression(v: &[Stmt]) -> bool {
    let mut s = match v.last() { Some(s) => s, None => return false };
    loop {
        s = match s {
            Stmt::Expression(_) => return true,
            Stmt::If(_, a, None) => a,
            Stmt::If(_, _, Some(b)) => b,
            Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _) => b,
            Stmt::Block(w) => match w.last() { Some(x) => x, None => return false },
            _ => return false,
        }
    }
}
pub fn single(ts: Vec<Token<'static>>) {
    show(&ts);
    let e = Parser::new(ts.clone()).parse_expression();
    let f = Parser::new(with_line_end(&ts)).parse();
    if showing() { eprintln!("expression: {:?}", e); }
    shown("statement", &f);
    // a brace that opens a statement opens a block
    if ts[0].token_type == LeftBrace { reach(4); end(); }
    let alone = match &f { Ok(v) if v.len() == 1 => match &v[0] { Stmt::Expression(x) => Some(x), _ => None }, _ => None };
    match (&e, alone) {
        (Ok(a), Some(b)) => { reach(1); check(a == b, 6); }
        (Ok(_), None) => check(false, 7),
        (Err(_), Some(_)) => check(false, 8),
        _ => reach(2),
    }
    digest(e.is_ok() as u64);
    std::mem::forget(e);
    std::mem::forget(f);
    end()
}
fn any(n: usize) -> Vec<Token<'static>> {
    let mut ts = Vec::with_capacity(16);
    for i in 0..n { ts.push(tok(any_type(), i)); }
    ts.push(eof(n));
    ts
}
#[no_mangle]
pub extern "C" fn h_c21_any() { programs(any(pick(tier(4, 5) + 1))) }
#[no_mangle]
pub extern "C" fn h_c21_near() { programs(neighbour(PROGRAMS, 2, tier(2, 3))) }
static ENDING: [TokenType; 13] = [Identifier, Number, If, While, Else, LeftParenAbutting, RightParen, LeftBrace, RightBrace, Terminator, Equal, Plus, Print];
#[no_mangle]
pub extern "C" fn h_c21_ends() { let n = tier(6, 7); programs(crate::c10::seq(&ENDING, n)) }
#[no_mangle]
pub extern "C" fn h_c21_expr() { single(any(pick(tier(4, 5) + 1))) }
static EXPRS: [&str; 8] = [
    "a . b [ n ] = c = - d * ( e + f ) or ! g and h",
    "f (( a , g (( ) , b ) . c", "f a , b + c , [ n , m , ]",
    "a : n , s : { b : m NL c : k } , d : [ ]", "fun (( x , y ) { return x NL }", "fun (( x ) NL IN return x NL OUT",
    "super . m (( this ) == true != false", "IN a : n NL b : m NL OUT",
];
#[no_mangle]
pub extern "C" fn h_c21_expr_near() { single(neighbour(&EXPRS, 2, tier(2, 3))) }

// ---- texts
pub fn texts(b: &[u8]) {
    let s = text(b);
    let f = parse(s);
    let l = parse_repl_line(s);
    if showing() { eprintln!("text: {:?}", s); }
    shown("file", &f);
    shown("line", &l);
    match (&f, &l) {
        (Ok(a), Ok(b)) => { reach(1); check(a == b, 11); }
        (Ok(_), Err(_)) => check(false, 12),
        (Err(_), Ok(x)) => {
            reach(2);
            // the same tokens with a terminator
            let mut sc = Scanner::new(s);
            let mut ts = sc.scan_tokens().unwrap();
            let n = ts.len() - 1;
            check(n > 0 && ts[n - 1].token_type != Terminator, 13);
            let end = ts[n].clone();
            ts[n].token_type = Terminator;
            ts.push(end);
            let g = Parser::new(ts).parse();
            shown("file with terminator", &g);
            match &g { Ok(a) => check(a == x, 14), Err(_) => check(false, 15) }
            std::mem::forget(g);
        }
        (Err(_), Err(_)) => { reach(3); }
    }
    let e = parse_expression(s);
    if showing() { eprintln!("expression: {:?}", e); }
    if let Ok(x) = &e {
        reach(5);
        // as a statement
        match &l { Ok(v) => match v.first() { Some(Stmt::Expression(y)) => check(v.len() == 1 && x == y, 16), _ => check(v.is_empty() || matches!(v[0], Stmt::Block(_)), 17) }, Err(_) => check(braced(b), 18) }
    }
    digest(f.is_ok() as u64 * 2 + l.is_ok() as u64);
    std::mem::forget(e);
    std::mem::forget(f);
    std::mem::forget(l);
    end()
}
fn braced(b: &[u8]) -> bool { for c in b { if *c == b'{' { return true; } if *c != b' ' && *c != b'\n' { return false; } } false }
#[no_mangle]
pub extern "C" fn h_c21_bytes() {
    warm();
    let n = pick(tier(3, 4) + 1);
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    texts(&b)
}
static PIECES: [&str; 14] = ["a", "1", "+", "=", "(", ")", "\n", "{", "}", "  ", ":", "if(a)", "else", "print "];
#[no_mangle]
pub extern "C" fn h_c21_pieces() {
    warm();
    let n = 3 + pick(tier(2, 3));
    let mut b: Vec<u8> = Vec::with_capacity(64);
    for _ in 0..n { b.extend_from_slice(PIECES[pick(PIECES.len())].as_bytes()); }
    texts(&b)
}
