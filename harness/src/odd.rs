//! Short programs with an unusual character put anywhere: marks, separators,
//! controls, digits and letters of other scripts, ASCII with a mark on it.
use crate::refs::{units_of_ascii, warm, Class, Unit};
use crate::sym::*;
use std::string::String;
use Class::*;

static BASE: [&str; 12] = [
    "print 1\n", "print \"b\"", "if (a)\n  b\n", "// c\na\n", "", "a", "a +\n  b\n", "a = 1\nprint a\n", "m = { a: 1 }\n", "a(b)\r\nprint c\r\n", "print 1.5\n", "{ var a = a\n}\n",
];
static ODD: [(&str, Class); 60] = [
    ("\u{feff}", Other), ("\u{a0}", Other), ("\u{200b}", Other), ("\u{2028}", Other), ("\u{2029}", Other), ("\u{85}", Other), ("\u{b}", Ascii), ("\u{c}", Ascii), ("\0", Ascii), ("\u{7f}", Ascii),
    ("\u{1b}", Ascii), ("\u{1a}", Ascii), ("\u{4}", Ascii), ("\r", Ascii), ("\t", Ascii), ("#!", Ascii), ("\\", Ascii), (";", Ascii), ("> ", Ascii), ("'", Ascii),
    ("\u{ad}", Other), ("\u{3000}", Other), ("\u{2003}", Other), ("\u{1680}", Other), ("\u{200e}", Other), ("\u{202e}", Other), ("e\u{301}", Letter), ("\u{1f1e6}\u{1f1e7}", Other), ("\u{600}a", Other), ("\u{b2}", Mark),
    ("\u{663}", Mark), ("\u{ff11}", Mark), ("\u{2167}", Letter), ("\u{aa}", Letter), ("\u{fb01}", Letter), ("\u{130}", Letter), ("\u{df}", Letter), ("\u{ac01}", Letter), ("\u{ffff}", Other), ("\u{10ffff}", Other),
    ("\u{e000}", Other), ("\u{fffd}", Other), ("\u{2019}", Other), ("\u{201c}", Other), ("\u{ff08}", Other), ("\u{2215}", Other), ("\u{d7}", Other), ("\u{2026}", Other), ("\"\u{301}", Other), (" \u{301}", Other),
    ("/\u{301}", Other), ("=\u{301}", Other), ("\\\u{301}", Other), ("(\u{301}", Other), ("1\u{301}", Mark), (".\u{301}", Other), ("a\u{301}", Letter), ("_\u{301}", Letter), ("{\u{301}", Other), ("\u{37e}", Other),
];
/// A program with an unusual character, one more of it at its end.
pub fn odd(bases: usize) -> (String, Vec<Unit>) {
    warm();
    let base = BASE[pick(bases)];
    let (o, class) = ODD[pick(ODD.len())];
    let u = units_of_ascii(base.as_bytes());
    let at = pick(u.len() + 1);
    let twice = pick(2) == 1;
    let mut s = String::with_capacity(32);
    let mut v: Vec<Unit> = Vec::with_capacity(32);
    for i in 0..u.len() + 1 {
        if i == at { put(&mut s, &mut v, o, class); }
        if i < u.len() { put(&mut s, &mut v, &base[u[i].at..u[i].at + u[i].len], u[i].class); }
    }
    if twice { put(&mut s, &mut v, o, class); }
    (s, v)
}
fn put(s: &mut String, v: &mut Vec<Unit>, t: &str, class: Class) {
    match class {
        Ascii => for i in 0..t.len() {
            if t.as_bytes()[i] == b'\n' && s.ends_with('\r') { let n = v.len(); v[n - 1].len = 2; v[n - 1].class = CrLf; }
            else { v.push(Unit { at: s.len(), len: 1, class: Ascii }); }
            s.push_str(&t[i..i + 1]);
        },
        _ => {
            v.push(Unit { at: s.len(), len: t.len(), class });
            s.push_str(t);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c01_odd() { let (s, _) = odd(BASE.len()); crate::c01::answer(&s); end() }
#[no_mangle]
pub extern "C" fn h_c07_odd() { let (s, u) = odd(BASE.len()); crate::c07::decide(s.as_bytes(), &u) }
#[no_mangle]
pub extern "C" fn h_c08_odd() { let (s, u) = odd(BASE.len()); crate::c08::decide(s.as_bytes(), &u) }
#[no_mangle]
pub extern "C" fn h_c20_odd() { let (s, u) = odd(BASE.len()); crate::c20::scanner_errors(s.as_bytes(), &u) }
#[no_mangle]
pub extern "C" fn h_c21_odd() { let (s, _) = odd(BASE.len()); crate::c21::texts(s.as_bytes()) }
#[no_mangle]
pub extern "C" fn h_c22_odd() {
    let (s, _) = odd(tier(6, 12));
    if pick(2) == 0 { crate::c22::on_file(&s, 1 << 20) } else { crate::c22::on_lines(&s, 1 << 20) }
}
