//! C08: positions and texts of tokens.
use crate::c07::unicode_text;
use crate::refs::*;
use crate::sym::*;
use whitespace::scanner::Scanner;
use whitespace::token::TokenType as T;

pub fn decide(b: &[u8], u: &[Unit]) {
    let s = text(b);
    let a = scan(b, u);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    show_text(s, &a, &r);
    if a.skip || a.bad_layout || !a.errs.is_empty() { reach(3); end(); }
    match &r {
        Ok(v) => {
            reach(1);
            check(same_places(s, &a, v), 1);
            // in order, without overlap
            let base = s.as_ptr() as usize;
            let mut last = 0;
            for t in v {
                if layout(t.token_type) && t.token_type != T::Terminator || t.token_type == T::Eof { continue; }
                let p = t.lexeme.as_ptr() as usize - base;
                check(p >= last, 2);
                last = p + t.lexeme.len();
            }
            digest(v.len() as u64);
        }
        Err(_) => { reach(2); }
    }
    std::mem::forget(r);
    std::mem::forget(a);
    end()
}
#[no_mangle]
pub extern "C" fn h_c08_bytes() {
    warm();
    let n = pick(tier(3, 4) + 1);
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    let u = units_of_ascii(&b);
    decide(&b, &u)
}
/// Pieces of text that move the position in every way.
static PIECES: [&str; 12] = ["ab", "\"", "\n", "\r\n", " ", "  ", "+", "\\\n", "// c", "==", "1.5", "("];
#[no_mangle]
pub extern "C" fn h_c08_pieces() {
    warm();
    let n = 3 + pick(tier(2, 3));
    let mut b: Vec<u8> = Vec::with_capacity(64);
    for _ in 0..n { b.extend_from_slice(PIECES[pick(PIECES.len())].as_bytes()); }
    let u = units_of_ascii(&b);
    decide(&b, &u)
}
/// A string over lines: contents symbolic, tokens after it.
#[no_mangle]
pub extern "C" fn h_c08_strings() {
    warm();
    let n = pick(tier(5, 6));
    let mut b: Vec<u8> = Vec::with_capacity(64);
    b.extend_from_slice(b"a \"");
    for _ in 0..n { b.push(below8(128)); }
    b.extend_from_slice(b"\" b\nc");
    let u = units_of_ascii(&b);
    decide(&b, &u)
}
#[no_mangle]
pub extern "C" fn h_c08_unicode() {
    warm();
    let before = pick(tier(2, 3));
    let after = pick(tier(2, 3));
    let (b, u) = unicode_text(before, after);
    decide(&b, &u)
}
/// The end of a line so long that the column stops counting.
#[no_mangle]
pub extern "C" fn h_c08_long() {
    budget(4_000_000_000);
    warm();
    let k = 65529 + pick(4);
    let n = tier(2, 3);
    let mut b: Vec<u8> = Vec::with_capacity(k + 16);
    b.push(b'"');
    for _ in 0..k { b.push(b' '); }
    b.push(b'"');
    static ALPHA: [u8; 8] = *b"a + \n=(\"";
    for _ in 0..n { b.push(ALPHA[below(8)]); }
    let u = units_of_ascii(&b);
    decide(&b, &u)
}
