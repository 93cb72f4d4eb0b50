//! Constructs in constructs, each leaving names behind that are used after it.
use crate::refs::warm;
use crate::sym::*;
use std::string::String;

/// N is a name of the level, @ what is inside.
static WRAPS: [&str; 10] = [
    "{\n@}\n", "fun N() {\n@}\nN()\n", "class N {\nm(p) {\n@}\n}\nN()\n", "class N < o {\ninit() {\n@super.m()\n}\n}\nN\n", "class N {\nclass m() {\n@this\n}\n}\nN = o\n",
    "print fun(N) {\n@N\n}\n", "if (o) {\n@} else {\nvar N = o\nN\n}\n", "for (var N = 1; N; N = o) {\n@N\n}\n", "var N = fun() {\n@}\nN()\n", "o = fun(p, N) {\nvar q = p\n@p = q\n}\n",
];
static LEAVES: [&str; 12] = [
    "a\nb\nc\n", "return 1\n", "super.m()\n", "var o = a\no\n", "var b = b\n", "this\n", "return\n", "var a = 1\nvar a = 2\n", "class b < b { }\n", "var p = o\nn = p\n", "class c < a {\nm() {\nreturn this\n}\n}\n", "fun f(a, a) { }\n",
];
fn program() -> String {
    let depth = tier(3, 4);
    let n = pick(depth) + 1;
    // one name everywhere, one to a level, two in turn
    let names = pick(3);
    let last = LEAVES[if thorough() || n < 3 { pick(LEAVES.len()) } else { pick(7) }];
    let mut s = String::from(last);
    for i in 0..n {
        let w = WRAPS[pick(WRAPS.len())];
        let name = match names { 0 => b'a', 1 => b'a' + i as u8, _ => b'a' + (i & 1) as u8 } as char;
        let mut t = String::with_capacity(s.len() + 64);
        for c in w.chars() { match c { '@' => t.push_str(&s), 'N' => t.push(name), c => t.push(c) } }
        s = t;
    }
    s
}
#[no_mangle]
pub extern "C" fn h_c16_wraps() { warm(); let s = program(); crate::c16::decide(crate::spell::tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c17_wraps() { warm(); let s = program(); crate::c17::decide(crate::spell::tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c18_wraps() { warm(); let s = program(); crate::c18::decide(crate::spell::tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c24_wraps() { warm(); let s = program(); crate::c24::decide(crate::spell::tree(&s)) }
/// The program as a line, then lines that are told apart by what it left behind.
#[no_mangle]
pub extern "C" fn h_c19_wraps() {
    budget(400_000_000);
    warm();
    let s = program();
    let of = |s: &str| match whitespace::parser::parse_repl_line(s) { Ok(v) => v, Err(e) => { std::mem::forget(e); reach(2); end() } };
    if showing() { eprintln!("{:?}", s); }
    let mut t = crate::c19::Session::new();
    let ok = t.line(of(&s));
    check(ok == t.w.offences.is_empty(), 1);
    for p in ["print X + Y\n", "{ var X = a\nprint X\n}\n", "fun F(b) { X = b\n}\n"] {
        let mut f = crate::c19::Session::new();
        let got = t.line(of(p));
        let fresh = f.line(of(p));
        check(got && fresh, 2);
        check(t.w.locals.len() == f.w.locals.len(), 3);
        for i in 0..t.w.locals.len() { check(t.w.locals[i] == f.w.locals[i], 4); }
        std::mem::forget(f);
    }
    for p in ["return\n", "this\n", "super.m()\n", "fun g() { this\n}\n"] { check(!t.line(of(p)), 6); }
    check(t.w.slots_ok && t.w.bindings_ok, 5);
    reach(1);
    std::mem::forget(t);
    end()
}
