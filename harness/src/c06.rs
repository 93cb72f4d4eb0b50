//! C06: line continuation.
use crate::refs::*;
use crate::sym::*;
use whitespace::scanner::Scanner;

pub fn decide(b: &[u8]) {
    let u = units_of_ascii(b);
    let s = text(b);
    let a = scan(b, &u);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    show_text(s, &a, &r);
    if a.skip { reach(3); end(); }
    match &r {
        Ok(v) => { reach(1); check(a.errs.is_empty(), 1); check(same_types(&a, v), 2); digest(v.len() as u64); }
        Err(e) => { reach(2); check(!a.errs.is_empty(), 3); digest(e.causes.len() as u64); }
    }
    std::mem::forget(r);
    std::mem::forget(a);
    end()
}
static ENDS: [&str; 10] = ["\n", "\r\n", " \n", " // c\n", "//\r\n", "\\\n", "\\ \n", " \\  \r\n", " \\ // c\n", "  \n"];
static BETWEEN: [&str; 6] = ["", "\n", "   \n", " // c\n", "    // c\r\n", " \r\n\n"];
fn line(b: &mut Vec<u8>, ind: usize, s: &str) {
    for _ in 0..ind { b.push(b' '); }
    b.extend_from_slice(s.as_bytes());
}
/// Any last characters of a line, any line end, and what the next lines' indentation then means.
#[no_mangle]
pub extern "C" fn h_c06_last() {
    warm();
    let n = tier(1, 2);
    let mut b: Vec<u8> = Vec::with_capacity(64);
    b.extend_from_slice(b"a ");
    for _ in 0..n { b.push(below8(128)); }
    b.extend_from_slice(ENDS[pick(ENDS.len())].as_bytes());
    b.extend_from_slice(BETWEEN[pick(BETWEEN.len())].as_bytes());
    line(&mut b, pick(3), "b\n");
    line(&mut b, pick(3), "c\n");
    decide(&b)
}
static LASTS: [&str; 22] = ["a", "+", "-", "*", "/", "<", ">", "<=", ">=", "(", "[", "{", ",", ":", ".", "==", "!=", "!", "=", ")", "1", "\"s\""];
/// Several continued lines in a row, inside an open block.
#[no_mangle]
pub extern "C" fn h_c06_rows() {
    warm();
    let n = tier(2, 3);
    let mut b: Vec<u8> = Vec::with_capacity(64);
    b.extend_from_slice(b"a\n");
    for _ in 0..n {
        let k = pick(LASTS.len());
        line(&mut b, 1 + pick(3), LASTS[k]);
        b.extend_from_slice(if pick(2) == 0 { b"\n" } else { b" \\\n" });
    }
    line(&mut b, pick(3), "b\n");
    decide(&b)
}
/// A backslash anywhere in a line.
#[no_mangle]
pub extern "C" fn h_c06_backslash() {
    warm();
    let n = pick(tier(3, 4));
    let m = pick(tier(3, 4));
    let mut b: Vec<u8> = Vec::with_capacity(64);
    static ALPHA: [u8; 9] = *b"a+( \n\r\t\\/";
    for _ in 0..n { b.push(ALPHA[below(9)]); }
    b.push(b'\\');
    for _ in 0..m { b.push(below8(128)); }
    b.extend_from_slice(b"\n  b\nc\n");
    decide(&b)
}
