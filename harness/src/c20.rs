//! C20: errors point at the offending place.
use crate::c10::{leak, seq};
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::error::ParseError;
use whitespace::parser::Parser;
use whitespace::token::{Token, TokenType, TokenType::*};

/// The token at this position.
fn index_of(ts: &[Token], line: u32, col: u16) -> Option<usize> {
    for (i, t) in ts.iter().enumerate() { if t.line == line && t.column == col { return Some(i); } }
    None
}
/// Every cause stands at a token, names its text, and they come in order.
/// The place of the first one.
fn causes(ts: &[Token], e: &ParseError) -> Option<usize> {
    check(!e.causes.is_empty(), 1);
    let mut last = 0;
    let mut first = None;
    for (n, c) in e.causes.iter().enumerate() {
        let i = match index_of(ts, c.source_loc.line, c.source_loc.column) {
            Some(i) => i,
            None => {
                // nothing stands before the end of the source
                check(ts[0].token_type == Eof && c.token.is_none(), 2);
                0
            }
        };
        if let Some(x) = &c.token {
            let t = &ts[i];
            let key = t.token_type == String && t.string_literal == Some(x.as_str());
            // all equals signs are written alike
            check(x.as_str() == t.lexeme || key || (t.token_type == Equal && x == "="), 3);
        }
        check(i >= last, 4);
        last = i;
        if n == 0 { first = Some(i); }
    }
    first
}
pub fn decide(ts: Vec<Token<'static>>, r: Ref, exact: bool, trailing: bool) {
    let mut r = r;
    r.trailing = trailing;
    show(&ts);
    let v = if trailing { Parser::with_trailing_expression(ts.clone()).parse() } else { Parser::new(ts.clone()).parse() };
    if showing() { eprintln!("parser: {:?}", v); }
    match &v {
        Ok(v) => { reach(1); digest(v.len() as u64); }
        Err(e) => {
            reach(2);
            let first = causes(&ts, e);
            match r.program() {
                Err(No::Bad(k)) => {
                    if showing() { eprintln!("reference: rejected at token {}", k); }
                    // at the end of the source the last token may be named
                    let f = first.unwrap_or(0);
                    check(f <= k, 5);
                    if exact { check(f == k || (ts[k].token_type == Eof && f + 1 == k), 6); }
                    reach(3);
                }
                Err(No::Skip) => reach(4),
                Ok(_) => check(false, 7),
            }
            digest(e.causes.len() as u64);
        }
    }
    std::mem::forget(v);
    end()
}
#[no_mangle]
pub extern "C" fn h_c20_any() {
    let n = pick(tier(4, 5) + 1);
    let mut ts = Vec::with_capacity(16);
    for i in 0..n { ts.push(tok(any_type(), i)); }
    ts.push(eof(n));
    let trailing = pick(2) == 1;
    let r = Ref::new(leak(&ts));
    decide(ts, r, true, trailing)
}
#[no_mangle]
pub extern "C" fn h_c20_near() {
    let ts = crate::corpus::neighbour(crate::corpus::PROGRAMS, 1, tier(2, 3));
    let r = Ref::new(leak(&ts));
    decide(ts, r, true, false)
}
static SET: [TokenType; 14] = [Identifier, Number, Print, Var, If, LeftBrace, RightBrace, Terminator, LeftParen, RightParen, Equal, Plus, While, Fun];
/// Several errors in a row.
#[no_mangle]
pub extern "C" fn h_c20_seq() {
    let n = pick(tier(6, 7) + 1);
    let ts = seq(&SET, n);
    let r = Ref::new(leak(&ts));
    decide(ts, r, true, false)
}
/// A single expression.
#[no_mangle]
pub extern "C" fn h_c20_expr() {
    let n = pick(tier(4, 5) + 1);
    let mut ts = Vec::with_capacity(16);
    for i in 0..n { ts.push(tok(any_type(), i)); }
    ts.push(eof(n));
    show(&ts);
    let v = Parser::new(ts.clone()).parse_expression();
    if showing() { eprintln!("parser: {:?}", v); }
    match &v {
        Ok(_) => { reach(1); }
        Err(e) => {
            reach(2);
            let first = causes(&ts, e);
            let mut r = Ref::new(leak(&ts));
            match r.single() {
                Err(No::Bad(k)) => { let f = first.unwrap_or(0); check(f == k || (ts[k].token_type == Eof && f + 1 == k), 6); }
                Err(No::Skip) => {}
                Ok(_) => check(false, 7),
            }
        }
    }
    std::mem::forget(v);
    end()
}
use crate::refs::{scan, show_text, text, units_of_ascii, warm, Unit};
use whitespace::scanner::Scanner;
/// Errors of the scanner: each at its character.
pub fn scanner_errors(b: &[u8], u: &[Unit]) {
    let s = text(b);
    let a = scan(b, u);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    show_text(s, &a, &r);
    if a.skip { reach(3); end(); }
    match &r {
        Ok(_) => { reach(1); check(a.errs.is_empty(), 1); }
        Err(e) => {
            reach(2);
            check(e.causes.len() == a.errs.len(), 2);
            for (i, c) in e.causes.iter().enumerate() {
                check(c.token.is_none(), 3);
                check(c.source_loc.line == a.errs[i].0 && c.source_loc.column as u32 == a.errs[i].1, 4);
            }
            digest(e.causes.len() as u64);
        }
    }
    std::mem::forget(r);
    std::mem::forget(a);
    end()
}
#[no_mangle]
pub extern "C" fn h_c20_bytes() {
    warm();
    let n = pick(tier(3, 4) + 1);
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    let u = units_of_ascii(&b);
    scanner_errors(&b, &u)
}
#[no_mangle]
pub extern "C" fn h_c20_unicode() {
    warm();
    let before = pick(2);
    let after = pick(tier(2, 3));
    let (b, u) = crate::c07::unicode_text(before, after);
    scanner_errors(&b, &u)
}
static PIECES: [&str; 12] = ["a", "\t", "\n", "\r\n", " ", "   ", "+", "\\", "// \t", "\"", "#", "("];
#[no_mangle]
pub extern "C" fn h_c20_pieces() {
    warm();
    let n = 3 + pick(tier(2, 3));
    let mut b: Vec<u8> = Vec::with_capacity(64);
    for _ in 0..n { b.extend_from_slice(PIECES[pick(PIECES.len())].as_bytes()); }
    let u = units_of_ascii(&b);
    scanner_errors(&b, &u)
}
/// Errors of name resolution: at a token with that text.
#[no_mangle]
pub extern "C" fn h_c20_names() {
    let ts = crate::c18::scoped(crate::c18::SCOPED);
    show(&ts);
    let v = match Parser::new(ts.clone()).parse() { Ok(v) => v, Err(_) => { check(false, 1); end() } };
    let r = whitespace::resolver::resolve(v);
    match &r {
        Ok(_) => reach(1),
        Err(e) => {
            reach(2);
            if showing() { eprintln!("{:?}", e); }
            let mut last = 0;
            check(!e.causes.is_empty(), 2);
            for c in &e.causes {
                match (index_of(&ts, c.source_loc.line, c.source_loc.column), &c.token) {
                    (Some(i), Some(t)) => { check(ts[i].lexeme == t || (ts[i].token_type == Return && t == "return") || (ts[i].token_type == Super && t == "super"), 3); check(i >= last, 4); last = i; }
                    _ => check(false, 5),
                }
            }
            digest(e.causes.len() as u64);
        }
    }
    std::mem::forget(r);
    end()
}
/// Composed programs with one token replaced, inserted or removed.
#[no_mangle]
pub extern "C" fn h_c20_edit() {
    use crate::nest::*;
    let ty = compose(&[one(&SCTX), one(&SFORM), one(if thorough() { &ECTX } else { &ECTX[..1] }), one(&LEAF[..1])]);
    let ts = disturbed(&ty);
    let r = Ref::new(leak(&ts));
    decide(ts, r, true, false)
}
/// Around the limit of arguments and parameters, any token behind the last.
#[no_mangle]
pub extern "C" fn h_c20_limit() {
    let n = 253 + pick(5);
    let form = pick(5);
    let extra = pick(2) == 1;
    let ts = crate::c12::listing(n, form, extra);
    let r = Ref::new(leak(&ts));
    decide(ts, r, true, false)
}
