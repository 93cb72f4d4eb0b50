//! C07: tokenization.
use crate::refs::*;
use crate::sym::*;
use whitespace::scanner::Scanner;

pub fn decide(b: &[u8], u: &[Unit]) {
    let s = text(b);
    let a = scan(b, u);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    show_text(s, &a, &r);
    if a.skip || a.bad_layout { reach(3); end(); }
    match &r {
        Ok(v) => { reach(1); check(a.errs.is_empty(), 1); check(same_words(s, &a, v), 2); digest(v.len() as u64); }
        Err(e) => { reach(2); check(!a.errs.is_empty(), 3); digest(e.causes.len() as u64); }
    }
    std::mem::forget(r);
    std::mem::forget(a);
    end()
}
/// Every ASCII text.
#[no_mangle]
pub extern "C" fn h_c07_bytes() {
    warm();
    let n = pick(tier(3, 4) + 1);
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    let u = units_of_ascii(&b);
    decide(&b, &u)
}
static ALPHA: &[u8] = b"a1_.=!</\"\n (\\";
/// Longer texts over the characters that combine.
#[no_mangle]
pub extern "C" fn h_c07_alpha() {
    warm();
    let n = 4 + pick(tier(2, 3));
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(ALPHA[below(ALPHA.len())]); }
    let u = units_of_ascii(&b);
    decide(&b, &u)
}
static KW: [&str; 20] = [
    "and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil", "or", "print", "return", "super", "this", "true", "var", "while",
    "init", "x",
];
/// Every reserved word with one character replaced, inserted, removed or put
/// before or after it.
#[no_mangle]
pub extern "C" fn h_c07_words() {
    warm();
    let w = KW[pick(20)].as_bytes();
    let mode = pick(4);
    let at = pick(w.len() + 1);
    let c = below8(128);
    let mut b = Vec::with_capacity(24);
    match mode {
        0 => { assume(at < w.len()); for j in 0..w.len() { b.push(if j == at { c } else { w[j] }); } }
        1 => { for j in 0..=w.len() { if j == at { b.push(c); } if j < w.len() { b.push(w[j]); } } }
        2 => { assume(at < w.len()); for j in 0..w.len() { if j != at { b.push(w[j]); } } b.push(c); }
        _ => { assume(at == 0); b.push(c); b.extend_from_slice(w); b.push(below8(128)); }
    }
    let u = units_of_ascii(&b);
    decide(&b, &u)
}
/// Characters outside ASCII: what each of them is.
static UNI: [(&str, Class); 14] = [
    ("\u{3c0}", Class::Letter), ("y\u{306}", Class::Letter), ("\u{e9}", Class::Letter), ("\u{4e2d}", Class::Letter), ("\u{1d4d0}", Class::Letter),
    ("\u{1f469}\u{200d}\u{1f469}\u{200d}\u{1f466}", Class::Other), ("\u{20ac}", Class::Other), ("\u{663}", Class::Mark), ("\u{bd}", Class::Mark),
    ("\u{a0}", Class::Other), ("\u{2028}", Class::Other), ("\u{1f1e6}\u{1f1e7}", Class::Other), ("_\u{301}", Class::Letter), ("\u{ff12}", Class::Mark),
];
/// One or two such characters among ASCII ones.
pub fn unicode_text(before: usize, after: usize) -> (Vec<u8>, Vec<Unit>) {
    let k1 = pick(UNI.len());
    let two = pick(2) == 1;
    let k2 = if two { pick(UNI.len()) } else { 0 };
    let mut b: Vec<u8> = Vec::with_capacity(64);
    let mut u = Vec::with_capacity(16);
    for _ in 0..before { u.push(Unit { at: b.len(), len: 1, class: Class::Ascii }); b.push(below8(128)); }
    let mut put = |b: &mut Vec<u8>, k: usize| { let (s, c) = UNI[k]; u.push(Unit { at: b.len(), len: s.len(), class: c }); b.extend_from_slice(s.as_bytes()); };
    put(&mut b, k1);
    if two { put(&mut b, k2); }
    for _ in 0..after { u.push(Unit { at: b.len(), len: 1, class: Class::Ascii }); b.push(below8(128)); }
    // no carriage return before a line feed here
    for i in 1..u.len() { if u[i].class == Class::Ascii && u[i - 1].class == Class::Ascii { assume(!(b[u[i].at] == b'\n' && b[u[i - 1].at] == b'\r')); } }
    (b, u)
}
#[no_mangle]
pub extern "C" fn h_c07_unicode() {
    warm();
    let before = pick(2);
    let after = pick(tier(2, 3));
    let (b, u) = unicode_text(before, after);
    decide(&b, &u)
}
