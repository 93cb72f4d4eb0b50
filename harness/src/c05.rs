//! C05: blank lines, comments, trailing blanks and CRLF change nothing.
use crate::refs::{layout, text, warm};
use crate::sym::*;
use whitespace::error::ParseError;
use whitespace::scanner::Scanner;
use whitespace::token::{Token, TokenType as T};

/// The same tokens, places apart.
fn same(a: &[Token], b: &[Token]) -> bool {
    if a.len() != b.len() { return false; }
    for i in 0..a.len() {
        let (x, y) = (&a[i], &b[i]);
        if x.token_type != y.token_type || x.float_literal != y.float_literal || x.string_literal != y.string_literal { return false; }
        if !layout(x.token_type) && x.token_type != T::Eof && x.lexeme != y.lexeme { return false; }
    }
    true
}
pub fn decide(a: &[u8], b: &[u8]) {
    let (s, t) = (text(a), text(b));
    let mut sa = Scanner::new(s);
    let ra: Result<Vec<Token>, ParseError> = sa.scan_tokens();
    let mut sb = Scanner::new(t);
    let rb = sb.scan_tokens();
    if showing() {
        eprintln!("text:  {:?}\nother: {:?}", s, t);
        for r in [&ra, &rb] {
            match r { Ok(v) => for t in v { eprint!("{:?}({:?}) ", t.token_type, t.lexeme) }, Err(e) => eprint!("{:?}", e) }
            eprintln!();
        }
    }
    match (&ra, &rb) {
        (Ok(x), Ok(y)) => { reach(1); check(same(x, y), 1); digest(x.len() as u64); }
        (Err(_), Err(_)) => { reach(2); }
        _ => check(false, 2),
    }
    std::mem::forget(ra);
    std::mem::forget(rb);
    end()
}
/// What is done to the text at one line.
pub const HOW: usize = 11;
pub fn before(how: usize, out: &mut Vec<u8>) {
    match how {
        1 => out.push(b'\n'),
        2 => out.extend_from_slice(b"  \n"),
        3 => out.extend_from_slice(b"// c\n"),
        4 => out.extend_from_slice(b" //\n"),
        5 => out.extend_from_slice(b"   // \"c\\\n"),
        6 => out.extend_from_slice(b"\r\n    // c +\r\n\n"),
        _ => {}
    }
}
/// `joined`: the line ends in a backslash, `slash`: in a slash.
pub fn after(how: usize, joined: bool, slash: bool, out: &mut Vec<u8>) {
    match how {
        7 => out.extend_from_slice(b"  "),
        8 => { assume(!joined); out.extend_from_slice(b" // c"); }
        9 => { assume(!joined && !slash); out.extend_from_slice(b"//"); }
        10 => out.push(b'\r'),
        _ => {}
    }
}
/// Any text without string literals, changed at any one of its lines.
#[no_mangle]
pub extern "C" fn h_c05_bytes() {
    warm();
    let n = pick(tier(2, 3) + 1);
    let how = 1 + pick(HOW - 1);
    let mut a: Vec<u8> = Vec::with_capacity(64);
    a.extend_from_slice(b"a\n ");
    for _ in 0..n { let c = below8(128); assume(c != b'"' && c != b'\r'); a.push(c); }
    a.extend_from_slice(b"\n  b\nc\n");
    // lines
    let mut ends = Vec::with_capacity(16);
    for i in 0..a.len() { if a[i] == b'\n' { ends.push(i); } }
    let at = pick(ends.len());
    let mut b: Vec<u8> = Vec::with_capacity(96);
    let mut start = 0;
    for (k, e) in ends.iter().enumerate() {
        if k == at { before(how, &mut b); }
        b.extend_from_slice(&a[start..*e]);
        if k == at {
            // what the line ends in, blanks apart; a backslash in a comment is part of it
            let l = &a[start..*e];
            let mut m = l.len();
            while m > 0 && l[m - 1] == b' ' { m -= 1; }
            let joined = m > 0 && l[m - 1] == b'\\';
            let slash = m == l.len() && m > 0 && l[m - 1] == b'/';
            after(how, joined, slash, &mut b);
        }
        b.push(b'\n');
        start = *e + 1;
    }
    decide(&a, &b)
}
pub static LINES: [&str; 12] = ["a", "f(1)", "b +", "c,", "{", "}", "d \\", "// x", "\"s\"", "\"s\nt\"", "", "e \\  "];
fn lines(n: usize, all: bool, last_end: bool) {
    warm();
    let at = if all { 0 } else { pick(n) };
    let mut a: Vec<u8> = Vec::with_capacity(96);
    let mut b: Vec<u8> = Vec::with_capacity(128);
    for k in 0..n {
        let l = pick(LINES.len());
        let ind = pick(3);
        let how = if all || k == at { pick(HOW) } else { 0 };
        before(how, &mut b);
        for _ in 0..ind { a.push(b' '); b.push(b' '); }
        a.extend_from_slice(LINES[l].as_bytes());
        b.extend_from_slice(LINES[l].as_bytes());
        after(how, l == 6 || l == 11, false, &mut b);
        if k + 1 < n || last_end { a.push(b'\n'); b.push(b'\n'); } else { assume(how != 10 && l != 6 && l != 11); }
    }
    decide(&a, &b)
}
/// One line changed.
#[no_mangle]
pub extern "C" fn h_c05_one() { let n = tier(2, 3); let e = pick(2) == 1; lines(n, false, e) }
/// Every line changed.
#[no_mangle]
pub extern "C" fn h_c05_all() { lines(2, true, true) }
/// A whole text with CRLF line ends.
#[no_mangle]
pub extern "C" fn h_c05_crlf() {
    warm();
    let n = pick(tier(3, 4) + 1);
    let mut a: Vec<u8> = Vec::with_capacity(32);
    for _ in 0..n { let c = below8(128); assume(c != b'"' && c != b'\r'); a.push(c); }
    let mut b: Vec<u8> = Vec::with_capacity(64);
    for i in 0..n { if a[i] == b'\n' { b.push(b'\r'); } b.push(a[i]); }
    decide(&a, &b)
}
