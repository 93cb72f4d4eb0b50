//! C09: values of literals.
use crate::refs::{text, warm};
use crate::sym::*;
use whitespace::ast::Expr;
use whitespace::parser::parse_expression;
use whitespace::scanner::Scanner;
use whitespace::token::TokenType as T;

/// The number that stands at place `at` of the text (as token and in the tree).
pub fn number_of(b: &[u8]) -> f64 {
    let s = text(b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    if showing() { eprintln!("source: {:?}\nscanner: {:?}", s, r); }
    let mut x = f64::NAN;
    match &r {
        Ok(v) => {
            check(v.len() == 2 && v[0].token_type == T::Number, 1);
            check(v[0].lexeme.len() == b.len(), 2);
            match v[0].float_literal { Some(y) => x = y, None => check(false, 3) }
        }
        Err(_) => check(false, 4),
    }
    std::mem::forget(r);
    let e = parse_expression(s);
    match &e { Ok(Expr::LiteralNumber(y)) => check(y.to_bits() == x.to_bits(), 5), _ => check(false, 6) }
    std::mem::forget(e);
    x
}
static P10: [f64; 10] = [1.0, 10.0, 100.0, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9];
/// Short numerals: digits and power of ten are exact, so that one division
/// gives the nearest double.
#[no_mangle]
pub extern "C" fn h_c09_digits() {
    warm();
    let whole = 1 + pick(tier(3, 4));
    let frac = pick(tier(3, 4));
    assume(whole + frac <= tier(3, 4));
    let mut b: Vec<u8> = Vec::with_capacity(16);
    let mut n = 0u64;
    for _ in 0..whole { let d = below8(10); b.push(b'0' + d); n = n * 10 + d as u64; }
    if frac > 0 { b.push(b'.'); }
    for _ in 0..frac { let d = below8(10); b.push(b'0' + d); n = n * 10 + d as u64; }
    let x = number_of(&b);
    reach(1);
    let want = n as f64 / P10[frac];
    check(x.to_bits() == want.to_bits(), 7);
    digest(b.len() as u64);
    end()
}
// ---- natural numbers of any size, least significant part first
pub fn mul_small(a: &mut Vec<u32>, m: u32, add: u32) {
    let mut c = add as u64;
    for x in a.iter_mut() { let t = *x as u64 * m as u64 + c; *x = t as u32; c = t >> 32; }
    if c > 0 { a.push(c as u32); }
}
fn shl(a: &[u32], n: usize) -> Vec<u32> {
    let mut v = vec![0u32; n / 32];
    let s = n % 32;
    let mut c = 0u64;
    for x in a { let t = ((*x as u64) << s) | c; v.push(t as u32); c = t >> 32; }
    v.push(c as u32);
    v
}
fn trim(a: &[u32]) -> usize { let mut n = a.len(); while n > 0 && a[n - 1] == 0 { n -= 1; } n }
fn cmp(a: &[u32], b: &[u32]) -> i32 {
    let (n, m) = (trim(a), trim(b));
    if n != m { return if n < m { -1 } else { 1 }; }
    for i in (0..n).rev() { if a[i] != b[i] { return if a[i] < b[i] { -1 } else { 1 }; } }
    0
}
/// num·2^e against digits/10^frac
fn cmp_dyadic(num: u64, e: i32, digits: &[u32], frac: usize) -> i32 {
    let mut l = vec![num as u32, (num >> 32) as u32];
    for _ in 0..frac { mul_small(&mut l, 10, 0); }
    if e >= 0 { cmp(&shl(&l, e as usize), digits) } else { cmp(&l, &shl(digits, (-e) as usize)) }
}
/// Is x the nearest double to digits/10^frac (ties to even)?
pub fn nearest(x: f64, digits: &[u32], frac: usize) -> bool {
    let bits = x.to_bits();
    let ex = (bits >> 52) as i32;
    if ex >= 2047 { return false; }
    let (m, e) = if ex == 0 { (bits & ((1 << 52) - 1), -1074) } else { ((bits & ((1 << 52) - 1)) | 1 << 52, ex - 1075) };
    // upper neighbour's middle: (2m+1)·2^(e-1)
    let c = cmp_dyadic(2 * m + 1, e - 1, digits, frac);
    if c < 0 || (c == 0 && m & 1 == 1) { return false; }
    if m == 0 { return true; }
    // lower one: (2m-1)·2^(e-1), nearer when m is a power of two
    let c = if m == 1 << 52 && ex > 1 { cmp_dyadic(4 * m - 1, e - 2, digits, frac) } else { cmp_dyadic(2 * m - 1, e - 1, digits, frac) };
    !(c > 0 || (c == 0 && m & 1 == 1))
}
/// Long numerals, some halfway between two doubles, with digits replaced.
static LONG: [&str; 12] = [
    "9007199254740993", "9007199254740992.5", "18014398509481990", "0.1000000000000000055511151231257827",
    "123456789012345678901234567890", "0.000000000000000000000000000123456789", "4503599627370497.5",
    "1.00000000000000011102230246251565404", "2251799813685248.25", "72057594037927945", "9999999999999999999999", "8.0000000000000008881784197001252",
];
#[no_mangle]
pub extern "C" fn h_c09_long() {
    warm();
    let w = LONG[pick(LONG.len())].as_bytes();
    let at = pick(w.len());
    assume(w[at] != b'.');
    let d = pick(10) as u8;
    let two = thorough();
    let at2 = if two { pick(w.len()) } else { at };
    assume(w[at2] != b'.' && at2 >= at);
    let d2 = if two { pick(10) as u8 } else { d };
    let mut b: Vec<u8> = Vec::with_capacity(64);
    let mut n: Vec<u32> = Vec::with_capacity(16);
    n.push(0);
    let mut frac = 0;
    let mut dot = false;
    for j in 0..w.len() {
        let c = if j == at2 { b'0' + d2 } else if j == at { b'0' + d } else { w[j] };
        b.push(c);
        if c == b'.' { dot = true; } else { mul_small(&mut n, 10, (c - b'0') as u32); if dot { frac += 1; } }
    }
    let x = number_of(&b);
    reach(1);
    check(nearest(x, &n, frac), 7);
    digest(x.to_bits());
    end()
}
/// What follows the digits: a dot that belongs to them or not, and anything else.
#[no_mangle]
pub extern "C" fn h_c09_ends() {
    warm();
    let mut b: Vec<u8> = Vec::with_capacity(16);
    let d = below8(10);
    b.push(b'0' + d);
    b.push(b'.');
    for _ in 0..tier(2, 3) { b.push(below8(128)); }
    let s = text(&b);
    // digits after the dot
    let mut k = 2;
    let mut n = d as u64;
    while k < b.len() && b[k].is_ascii_digit() { n = n * 10 + (b[k] - b'0') as u64; k += 1; }
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    if showing() { eprintln!("source: {:?}\nscanner: {:?}", s, r); }
    if let Ok(v) = &r {
        reach(1);
        check(v[0].token_type == T::Number, 1);
        let want = n as f64 / P10[k - 2];
        check(v[0].float_literal == Some(want), 2);
        check(v[0].lexeme.len() == if k > 2 { k } else { 1 }, 3);
        digest(v.len() as u64);
    }
    std::mem::forget(r);
    end()
}
/// Any text between quotes.
#[no_mangle]
pub extern "C" fn h_c09_string() {
    warm();
    let n = pick(tier(5, 6));
    let mut b: Vec<u8> = Vec::with_capacity(32);
    b.push(b'"');
    for _ in 0..n { let c = below8(128); assume(c != b'"'); b.push(c); }
    let wide = pick(4);
    match wide { 1 => b.extend_from_slice("\u{e9}".as_bytes()), 2 => b.extend_from_slice("y\u{306}\n".as_bytes()), 3 => b.extend_from_slice("\u{1f469}\u{200d}\u{1f469}".as_bytes()), _ => {} }
    let closed = pick(2) == 1;
    if closed { b.push(b'"'); }
    let s = text(&b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    if showing() { eprintln!("source: {:?}\nscanner: {:?}", s, r); }
    match &r {
        Ok(v) => {
            reach(1);
            check(closed, 1);
            check(v.len() == 2 && v[0].token_type == T::String && v[0].string_literal.is_some(), 2);
            let l = v[0].string_literal.unwrap_or("");
            check(l.len() + 2 == b.len(), 3);
            check(l.as_bytes() == &b[1..b.len() - 1], 4);
        }
        Err(_) => { reach(2); check(!closed, 5); }
    }
    std::mem::forget(r);
    let e = parse_expression(s);
    match &e {
        Ok(Expr::LiteralString(x)) => check(closed && x.as_bytes() == &b[1..b.len() - 1], 6),
        Ok(_) => check(false, 7),
        Err(_) => check(!closed, 8),
    }
    digest(n as u64);
    std::mem::forget(e);
    end()
}
static STR: [&str; 8] = ["\\", "\\n", "'", "// c", "  ", "\n", "\r\n", "\t"];
/// Strings among other tokens, with line ends and what looks like an escape.
#[no_mangle]
pub extern "C" fn h_c09_among() {
    warm();
    let mut b: Vec<u8> = Vec::with_capacity(64);
    b.extend_from_slice(b"a = \"");
    let from = b.len();
    for _ in 0..tier(2, 3) { b.push(below8(128)); b.extend_from_slice(STR[pick(8)].as_bytes()); }
    for j in from..b.len() { assume(b[j] != b'"'); }
    let to = b.len();
    b.extend_from_slice(b"\"\nb \"\" \"c\" 7");
    let s = text(&b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    if showing() { eprintln!("source: {:?}\nscanner: {:?}", s, r); }
    match &r {
        Ok(v) => {
            reach(1);
            check(v.len() == 9 && v[2].token_type == T::String, 1);
            match v[2].string_literal { Some(l) => check(l.as_bytes() == &b[from..to], 2), None => check(false, 3) }
            check(v[5].string_literal == Some("") && v[6].string_literal == Some("c") && v[7].float_literal == Some(7.0), 4);
        }
        Err(_) => check(false, 5),
    }
    std::mem::forget(r);
    end()
}
