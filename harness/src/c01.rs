use crate::nest::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::Token;
use whitespace::{parser, resolver, scanner::Scanner};

/// All entry points on one text.  Every error must carry a cause.
pub fn answer(s: &str) {
    if showing() { eprintln!("source: {:?}", s); }
    let r = { let mut sc = Scanner::new(s); match sc.scan_tokens() { Ok(t) => { let n = t.len(); std::mem::forget(t); n } Err(e) => { check(!e.causes.is_empty(), 1); 0 } } };
    digest(r as u64);
    let mut k = 0u64;
    match parser::parse(s) {
        Ok(p) => {
            k |= 1;
            match resolver::resolve(p) { Ok(c) => { k |= 2; std::mem::forget(c) } Err(e) => check(!e.causes.is_empty(), 2) }
        }
        Err(e) => check(!e.causes.is_empty(), 3),
    }
    match parser::parse_repl_line(s) {
        Ok(p) => {
            k |= 4;
            match resolver::resolve(p) { Ok(c) => { k |= 8; std::mem::forget(c) } Err(e) => check(!e.causes.is_empty(), 4) }
        }
        Err(e) => check(!e.causes.is_empty(), 5),
    }
    match parser::parse_expression(s) {
        Ok(p) => { k |= 16; std::mem::forget(p) }
        Err(e) => check(!e.causes.is_empty(), 6),
    }
    digest(k);
}

#[no_mangle]
pub extern "C" fn h_c01_bytes() {
    // warm up the keyword table
    std::mem::forget(Scanner::new("a").scan_tokens());
    let n = pick(tier(4, 5));
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    answer(s);
    end()
}

/// All entry points on one token sequence.
pub fn parse(ts: Vec<Token<'static>>) {
    show(&ts);
    let mut k = 0u64;
    match parser::Parser::new(ts.clone()).parse() {
        Ok(p) => match resolver::resolve(p) { Ok(c) => { k |= 2; reach(1); std::mem::forget(c) } Err(e) => { reach(2); check(!e.causes.is_empty(), 12) } },
        Err(e) => { reach(3); check(!e.causes.is_empty(), 13) }
    }
    match parser::Parser::with_trailing_expression(ts.clone()).parse() {
        Ok(p) => { k |= 4; std::mem::forget(p) }
        Err(e) => check(!e.causes.is_empty(), 15),
    }
    match parser::Parser::new(ts).parse_expression() {
        Ok(p) => { k |= 16; std::mem::forget(p) }
        Err(e) => check(!e.causes.is_empty(), 16),
    }
    digest(k);
    end()
}
/// Any tokens.
#[no_mangle]
pub extern "C" fn h_c01_tokens() {
    let n = pick(tier(5, 6));
    let mut ts = Vec::with_capacity(16);
    for i in 0..n { ts.push(tok(any_type(), i)); }
    ts.push(eof(n));
    parse(ts)
}
/// Programs broken at one place.
#[no_mangle]
pub extern "C" fn h_c01_edit() {
    let ty = compose(&[one(&SCTX), one(&SFORM), one(&ECTX[..tier(1, 8)]), one(&LEAF[..1])]);
    parse(disturbed(&ty))
}
/// Programs cut off at any token.
#[no_mangle]
pub extern "C" fn h_c01_cut() {
    let ty = compose(&[one(&SCTX), one(&SFORM), one(&ECTX), one(&LEAF[..tier(2, 12)])]);
    let n = pick(ty.len() + 1);
    parse(tokens(&ty[..n]))
}
/// Texts made of pieces that begin and end everything.
static PIECES: [&str; 24] = [
    "a", "1", "1.", "\"", "\n", "\r\n", " ", "  ", "+", "\\", "// c", "(", ")", "{", "}", "[", "]", ":", ",", "fun ", "class ", "if ", "\u{e9}", "\u{301}",
];
#[no_mangle]
pub extern "C" fn h_c01_pieces() {
    std::mem::forget(Scanner::new("a").scan_tokens());
    let n = pick(tier(4, 5));
    let mut b = std::string::String::with_capacity(64);
    for _ in 0..n { b.push_str(PIECES[pick(PIECES.len())]); }
    answer(&b);
    end()
}
/// Lines as long as a column can count, and longer.
#[no_mangle]
pub extern "C" fn h_c01_wide() {
    budget(8_000_000_000);
    std::mem::forget(Scanner::new("a").scan_tokens());
    static FILL: [u8; 5] = [b' ', b'a', b'1', b'+', b'('];
    static BEFORE: [&str; 4] = ["", "a\n", "\"", "// "];
    static AFTER: [&str; 7] = ["a", "\n", " \n", "b\n  c\nd\n", "\"\n", "#", "\\\n a\n"];
    let fill = FILL[pick(tier(2, 4))];
    let k = 65533 + pick(tier(4, 6));
    let before = BEFORE[pick(4)];
    let after = AFTER[pick(7)];
    let mut b: Vec<u8> = Vec::with_capacity(k + 64);
    b.extend_from_slice(before.as_bytes());
    for _ in 0..k { b.push(fill); }
    b.extend_from_slice(after.as_bytes());
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let mut sc = Scanner::new(s);
    match sc.scan_tokens() { Ok(t) => { reach(1); digest(t.len() as u64); std::mem::forget(t) } Err(e) => { reach(2); check(!e.causes.is_empty(), 1) } }
    std::mem::forget(sc);
    end()
}
