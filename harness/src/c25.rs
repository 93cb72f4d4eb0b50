//! C25: the answer for a text depends on that text alone.
use crate::c22::SOURCES;
use crate::refs::{text, warm};
use crate::sym::*;
use std::string::String;
use whitespace::ast::*;
use whitespace::error::ParseError;
use whitespace::parser::{parse, parse_expression, parse_repl_line};
use whitespace::resolver;
use whitespace::scanner::Scanner;

#[derive(PartialEq, Debug)]
enum Answer { Tokens(Vec<(whitespace::token::TokenType, String, Option<String>, Option<u64>, u32, u16)>), Stmts(Vec<Stmt>), One(Expr), Error(ParseError) }
use Answer::*;
/// Entry points: scanner, file, line, expression, file and line with names resolved.
const WAYS: usize = 6;
fn answer(s: &str, way: usize) -> Answer {
    match way {
        0 => {
            let mut sc = Scanner::new(s);
            let r = sc.scan_tokens();
            let a = match r {
                Ok(v) => Tokens(v.iter().map(|t| (t.token_type, t.lexeme.to_owned(), t.string_literal.map(|x| x.to_owned()), t.float_literal.map(|x| x.to_bits()), t.line, t.column)).collect()),
                Err(e) => Error(e),
            };
            std::mem::forget(sc);
            a
        }
        1 => match parse(s) { Ok(v) => Stmts(v), Err(e) => Error(e) },
        2 => match parse_repl_line(s) { Ok(v) => Stmts(v), Err(e) => Error(e) },
        3 => match parse_expression(s) { Ok(v) => One(v), Err(e) => Error(e) },
        w => match if w == 4 { parse(s) } else { parse_repl_line(s) } {
            Ok(v) => match resolver::resolve(v) { Ok(c) => Stmts(c.statements), Err(e) => Error(e) },
            Err(e) => Error(e),
        },
    }
}
/// Answers before and after other texts have been analysed.
pub fn decide(s: &str, way: usize, between: &mut dyn FnMut()) {
    let a = answer(s, way);
    if showing() { eprintln!("text: {:?}\nentry point: {}\nanswer: {:?}", s, way, a); }
    between();
    let b = answer(s, way);
    if showing() { eprintln!("answer after it: {:?}", b); }
    match &a { Error(_) => reach(2), _ => reach(1) }
    check(a == b, 1);
    digest(match &a { Error(e) => e.causes.len() as u64, _ => 0 });
    std::mem::forget((a, b));
    end()
}
pub fn other(s: &str, way: usize) {
    if showing() { eprintln!("then: {:?} by entry point {}", s, way); }
    std::mem::forget(answer(s, way));
}
/// Two of the sources.
#[no_mangle]
pub extern "C" fn h_c25_two() {
    let s = SOURCES[pick(SOURCES.len())];
    let t = SOURCES[pick(SOURCES.len())];
    let (w, x) = if thorough() { (pick(WAYS), pick(WAYS)) } else { [(4, 4), (5, 4), (4, 5), (1, 3), (3, 2), (0, 4), (4, 0)][pick(7)] };
    decide(s, w, &mut || other(t, x))
}
pub static FIXED: [&str; 10] = [
    "a\n  b\n  c", "\"abc", "f(1, (2, [3\n", "while (a) { for (;;) { fun f() { break\n", "class C < D\n  init() return 1\n", "{ a: 1, b: 2 }\n", "x = y or\n  z\n", "var a = 1\n{ var b = a\nreturn a\n}\n",
    "  \\\n", "f a, b.c\n",
];
/// Any characters after one of several texts, and the reverse.
#[no_mangle]
pub extern "C" fn h_c25_bytes() {
    warm();
    let n = pick(tier(2, 3) + 1);
    let mut b: Vec<u8> = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    let s = text(&b);
    let f = FIXED[pick(if n > 1 && !thorough() { 3 } else { FIXED.len() })];
    let w = [4, 5, 3][pick(tier(2, 3))];
    if pick(2) == 0 { decide(s, w, &mut || other(f, 4)) } else { decide(f, w, &mut || other(s, 4)) }
}
/// Texts of pieces.
static PIECES: [&str; 16] = ["a", "1", "+", "=", "(", "\n", "{", "  ", ":", "if (a)", "\"", "fun ", "class ", "while (a) ", "break", "\\"];
#[no_mangle]
pub extern "C" fn h_c25_pieces() {
    warm();
    let n = 2 + pick(tier(2, 3));
    let mut b = String::with_capacity(64);
    for _ in 0..n { b.push_str(PIECES[pick(PIECES.len())]); }
    let f = FIXED[pick(tier(3, 10))];
    let w = [4, 5][pick(2)];
    if pick(2) == 0 { decide(&b, w, &mut || other(f, 4)) } else { decide(f, w, &mut || other(&b, 4)) }
}
/// A source, then one many times, then the first again.
#[no_mangle]
pub extern "C" fn h_c25_many() {
    budget(2_000_000_000);
    let s = SOURCES[pick(SOURCES.len())];
    let t = SOURCES[pick(SOURCES.len())];
    assume(thorough() || s.as_ptr() == t.as_ptr() || s.len() % 6 == 0 && t.len() % 5 == 0);
    let n = [2, 7, 16, 130, 260, 1030, 2100][pick(tier(6, 7))];
    decide(s, 4, &mut || for i in 0..n { if i == 0 { other(t, 4) } else { std::mem::forget(answer(t, 4)) } })
}
/// Many names, strings or lines in the text between.
#[no_mangle]
pub extern "C" fn h_c25_large() {
    budget(2_000_000_000);
    static L: [&str; 8] = ["var @ = 1\n", "@\n", "print \"@\"\n", "fun f(@) { @\n}\n", "{ var @ = @\n}\n", "#\n", "{\n", "class @ < @ { @() { super.@\n}\n}\n"];
    static S: [&str; 5] = ["var a1 = 1\nprint a1 + b\n", "fun f(a1, b)\n  return a1\n", "class C < D\n  m() super.a1\n", "print {\n a: 1, b: [\"x\"] }\n", "print 1\n  2\n#"];
    let (k, n) = (pick(L.len()), [1, 16, 100, 250, 300, 1000][pick(tier(5, 6))]);
    let s = S[pick(S.len())];
    let mut t = String::with_capacity(1 << 16);
    for i in 0..n {
        for c in L[k].chars() {
            if c != '@' { t.push(c); continue; }
            t.push('a');
            let mut d = 1000;
            while d > 0 { if i >= d || d == 1 { t.push((b'0' + (i / d % 10) as u8) as char); } d /= 10; }
        }
    }
    let w = [4, 0][pick(2)];
    decide(s, w, &mut || other(&t, 4))
}
/// A text, and then one that is like it but for any one character in any place.
/// What the entry points give for the second is what scanner, parser and
/// resolver give for it one by one.
#[no_mangle]
pub extern "C" fn h_c25_alike() {
    warm();
    static S: [&str; 7] = [
        "var alpha = beta + 12345 * gamma", "print [alpha, beta,\n  gamma, \"delta\", epsilon]\n", "fun alpha(beta, gamma) {\n  return beta\n}\nalpha 1, 2\n",
        "class A < B\n  init(a)\n    this.a = a\n  b() super.b\n", "if (a) {\n  b\n} else {\n  c\n}\nd\n", "{ alpha: 1, beta: \"two\", gamma: [3] }", "while (true)\n  for (;;) break\n",
    ];
    let s = S[pick(S.len())];
    let at = pick(s.len());
    static C: [u8; 8] = [b'a', b'1', b' ', b'\n', b'"', b'(', b'}', b'='];
    let c = if thorough() { below8(128) } else { C[pick(8)] };
    let w = [4, 5, 3][pick(3)];
    let mut b = s.as_bytes().to_vec();
    b[at] = c;
    let t = text(&b);
    let first = answer(s, w);
    let a = answer(t, w);
    if showing() { eprintln!("text: {:?}\nentry point: {}\nanswer: {:?}\nthen: {:?}\nanswer: {:?}", s, w, first, t, a); }
    let d = by_parts(t, w);
    if showing() { eprintln!("by parts: {:?}", d); }
    match &a { Error(_) => reach(2), _ => reach(1) }
    check(a == d, 2);
    let again = answer(s, w);
    if showing() { eprintln!("first text again: {:?}", again); }
    check(again == first, 1);
    std::mem::forget((a, d, first, again));
    end()
}
fn by_parts(s: &str, way: usize) -> Answer {
    use whitespace::parser::Parser;
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    let a = match r {
        Err(e) => Error(e),
        Ok(ts) => {
            let mut p = if way == 2 || way == 5 { Parser::with_trailing_expression(ts) } else { Parser::new(ts) };
            let a = if way == 3 { match p.parse_expression() { Ok(v) => One(v), Err(e) => Error(e) } } else {
                match p.parse() {
                    Ok(v) if way < 4 => Stmts(v),
                    Ok(v) => match resolver::Resolver::new().resolve(v) { Ok(c) => Stmts(c.statements), Err(e) => Error(e) },
                    Err(e) => Error(e),
                }
            };
            std::mem::forget(p);
            a
        }
    };
    std::mem::forget(sc);
    a
}
