//! Names, strings, comments and lines of any letters: no word is special but
//! the reserved ones, init and this.
use crate::nest::*;
use crate::refp::*;
use crate::refs::{text, units_of_ascii, warm};
use crate::sym::*;
use crate::toks::*;
use std::string::String;
use whitespace::token::{Token, TokenType, TokenType::*};

fn str_of(b: Vec<u8>) -> &'static str { unsafe { std::str::from_utf8_unchecked(b.leak()) } }
/// n lower-case letters, each any.
fn lower(b: &mut Vec<u8>, n: usize) { for _ in 0..n { b.push(b'a' + below8(26)); } }
pub fn word(max: usize) -> &'static str {
    let n = 1 + pick(max);
    let mut b = Vec::with_capacity(n + 1);
    lower(&mut b, n);
    str_of(b)
}
/// A name of 1..max characters: letters, digits, underscores.
pub fn name(max: usize) -> &'static str {
    static C: [u8; 63] = *b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    let n = 1 + pick(max);
    let mut b = Vec::with_capacity(n + 1);
    b.push(C[below(53)]);
    for _ in 1..n { b.push(C[below(63)]); }
    let s = str_of(b);
    assume(s != "this");
    s
}
/// 0..max printable characters, none of them a quote.
pub fn printable(max: usize) -> Vec<u8> {
    let n = pick(max + 1);
    let mut b = Vec::with_capacity(n + 80);
    for _ in 0..n { let c = 32 + below8(95); assume(c != b'"'); b.push(c); }
    b
}
/// The text with W and V replaced.
fn filled(t: &str, w: &str, v: &str) -> Vec<u8> {
    let mut b = Vec::with_capacity(t.len() + 64);
    for c in t.bytes() { match c { b'W' => b.extend_from_slice(w.as_bytes()), b'V' => b.extend_from_slice(v.as_bytes()), c => b.push(c) } }
    b
}

// ---- scanning
#[no_mangle]
pub extern "C" fn h_c07_letters() {
    warm();
    static T: [&str; 6] = ["W", "W ", "_W(", "W1", "W.W", "1W\n"];
    let b = filled(T[pick(6)], word(tier(12, 20)), "");
    let u = units_of_ascii(&b);
    crate::c07::decide(&b, &u)
}
#[no_mangle]
pub extern "C" fn h_c07_word() {
    warm();
    let w = name(tier(5, 7));
    let u = units_of_ascii(w.as_bytes());
    crate::c07::decide(w.as_bytes(), &u)
}
#[no_mangle]
pub extern "C" fn h_c08_letters() {
    warm();
    static T: [&str; 5] = ["W b\n  c", "  W\nb", "a(W)\nW", "\"W\" b\n c", "a // W\nb"];
    let b = filled(T[pick(5)], word(tier(12, 20)), "");
    let u = units_of_ascii(&b);
    crate::c08::decide(&b, &u)
}
#[no_mangle]
pub extern "C" fn h_c04_letters() {
    warm();
    static T: [&str; 5] = ["a\n  W\n  b\nc\n", "W\n  a\nb\n", "a\n  W b\nW\n    c\n", "a\n  b\nW\n", "// W\n  a\n// W\nb\n"];
    let b = filled(T[pick(5)], word(tier(10, 16)), "");
    crate::c06::decide(&b)
}
#[no_mangle]
pub extern "C" fn h_c06_letters() {
    warm();
    static T: [&str; 6] = ["a W\n  b\n c\n", "W\n\n  b\nc\n", "W // c\nb\n", "W \\\n  b\nc\n", "a +\n  W\nb\n", "f(\n  W\n\n b)\n"];
    let b = filled(T[pick(6)], word(tier(10, 16)), "");
    crate::c06::decide(&b)
}
/// What a comment says does not matter.
#[no_mangle]
pub extern "C" fn h_c05_letters() {
    warm();
    static T: [&str; 5] = ["// \na\n  b\n", "a // \n  b\nc\n", "a\n  b\n// \n  c\nd", "a +\n // \n b\n", "a\n//"];
    let t = T[pick(5)];
    let p = printable(tier(24, 60));
    let mut b = Vec::with_capacity(128);
    for (i, c) in t.bytes().enumerate() {
        b.push(c);
        if i > 0 && c == b'/' && t.as_bytes()[i - 1] == b'/' { b.extend_from_slice(&p); }
    }
    crate::c05::decide(t.as_bytes(), &b)
}
#[no_mangle]
pub extern "C" fn h_c09_printable() {
    use whitespace::ast::{Expr, Stmt};
    warm();
    static T: [(&str, &str); 3] = [("\"", "\""), ("print \"", "\"\n"), ("a = \"", "\"\n")];
    let (h, t) = T[pick(3)];
    let p = printable(tier(24, 60));
    let mut b = Vec::with_capacity(128);
    b.extend_from_slice(h.as_bytes());
    b.extend_from_slice(&p);
    b.extend_from_slice(t.as_bytes());
    let v = whitespace::parser::parse_repl_line(text(&b));
    if showing() { eprintln!("{:?}: {:?}", text(&b), v); }
    let e = match &v { Ok(v) if v.len() == 1 => match &v[0] { Stmt::Expression(Expr::Assign(_, _, e, _)) => Some(&**e), Stmt::Expression(e) | Stmt::Print(e) => Some(e), _ => None }, _ => None };
    match e {
        Some(Expr::LiteralString(x)) => { reach(1); check(x.len() == p.len(), 1); check(x.as_bytes() == &p[..], 2) }
        _ => check(false, 3),
    }
    std::mem::forget(v);
    end()
}

// ---- parsing
/// The tokens of composed templates, one of the names any.
fn one_named(ty: &[TokenType], which: usize, w: &'static str) -> Vec<Token<'static>> {
    let mut ts = tokens(ty);
    let mut k = 0;
    for t in ts.iter_mut() {
        if t.token_type == Identifier { if k == which { t.lexeme = w; } k += 1; }
        // as a string too
        if t.token_type == TokenType::String { t.string_literal = Some(w); }
    }
    assume(which < k.max(1));
    ts
}
fn statement() -> Vec<Token<'static>> {
    static E: [&[TokenType]; 12] = [&[Eof], &[Eof, Eof], &[Minus, Eof], &[Eof, Star, Number], &[Eof, Equal, Number], &[Identifier, Dot, Eof], &[Eof, Dot, Identifier, Equal, Number], &[Eof, LeftBracket, Number, RightBracket],
        &[Eof, LeftParenAbutting, Number, RightParen], &[LeftBrace, Eof, Colon, Number, RightBrace], &[Identifier, Eof, Comma, Number], &[Super, Dot, Eof]];
    let ty = compose(&[one(&SFORM), one(&E), &[Identifier]]);
    let which = pick(4);
    one_named(&ty, which, name(tier(14, 20)))
}
fn forms(f: &[&'static str]) -> Vec<Token<'static>> {
    let ty = words(f[pick(f.len())]);
    let which = pick(4);
    one_named(&ty, which, name(tier(14, 20)))
}
fn decide(ts: Vec<Token<'static>>, rejects: Rejects) -> ! {
    let r = Ref::new(crate::c10::leak(&ts));
    decide_program(ts, r, 1, rejects);
    end()
}
#[no_mangle]
pub extern "C" fn h_c10_letters() { decide(statement(), Rejects::All) }
#[no_mangle]
pub extern "C" fn h_c02_letters() { crate::c02::decide(statement()); end() }
#[no_mangle]
pub extern "C" fn h_c01_letters() { crate::c01::parse(statement()) }
#[no_mangle]
pub extern "C" fn h_c20_letters() {
    let ty = compose(&[one(&SFORM), &[Identifier]]);
    let at = pick(ty.len());
    let how = pick(3);
    let mut v: Vec<TokenType> = Vec::with_capacity(ty.len() + 2);
    for i in 0..ty.len() {
        if i == at { if how < 2 { v.push(Identifier); } if how > 0 { continue; } }
        v.push(ty[i]);
    }
    let ts = one_named(&v, pick(4), name(tier(12, 16)));
    let r = Ref::new(crate::c10::leak(&ts));
    crate::c20::decide(ts, r, true, false)
}
#[no_mangle]
pub extern "C" fn h_c03_letters() {
    static F: [&str; 8] = ["a + b * c - d", "a or b and c == d", "- a . b * ! c", "a = b = c < d", "( a + b ) * c", "a . b . c (( d )", "a [ b ] . c / d", "a b + c , d"];
    let ty = words(F[pick(8)]);
    let ts = one_named(&ty, pick(4), name(tier(14, 20)));
    let r = Ref::new(crate::c10::leak(&ts));
    decide_expr(ts, r, 1, Rejects::All);
    end()
}
#[no_mangle]
pub extern "C" fn h_c11_letters() {
    decide(forms(&["while ( a ) { b NL break NL }", "a NL break NL", "for ( a ; b ; c ) fun d ( ) { break NL }", "while ( a ) a b NL continue NL", "fun a ( b ) { while ( c ) { if ( d ) continue NL } }", "while ( n ) { class a { b (( c ) { break NL } } }"]), Rejects::Stray)
}
#[no_mangle]
pub extern "C" fn h_c12_letters() {
    decide(forms(&["a (( b , c , d ) NL", "a b , c NL", "a (( ) (( b ) . c (( d ) NL", "a b c NL", "a s , b NL", "a (( b , c , ) NL", "print a ( b ) NL", "a fun (( b , c ) { } , d NL", "super . a (( b ) NL", "a { b : c } , d NL"]), Rejects::All)
}
#[no_mangle]
pub extern "C" fn h_c13_words() {
    // two keys of any letters, as names or as strings
    let (v, w) = (name(tier(12, 16)), name(tier(12, 16)));
    let quoted = pick(4);
    let ty = words(["print { k : n , k : n } NL", "k : n NL k : n NL", "var v = NL IN k : n NL k : { } NL OUT", "print { k : { k : n } } NL"][pick(4)]);
    let mut ts = tokens(&ty);
    let mut k = 0;
    for i in 0..ts.len() - 1 {
        if ts[i].token_type == Identifier && ts[i + 1].token_type == Colon {
            let s = if k == 0 { v } else { w };
            if quoted >> k & 1 == 1 { ts[i].token_type = TokenType::String; ts[i].string_literal = Some(s); } else { ts[i].lexeme = s; }
            k += 1;
        }
    }
    decide(ts, Rejects::Repeated)
}
/// Two quoted keys of any printable characters: the same only if they are spelt the same.
#[no_mangle]
pub extern "C" fn h_c13_quoted() {
    let (v, w) = (str_of(printable(tier(8, 14))), str_of(printable(tier(8, 14))));
    let ty = words(["print { k : n , k : n } NL", "k : n NL k : n NL", "a (( b , { k : c } , k : n NL k : n ) NL"][pick(3)]);
    let mut ts = tokens(&ty);
    let mut k = 0;
    for i in 0..ts.len() - 1 {
        if ts[i].token_type == Identifier && ts[i + 1].token_type == Colon {
            ts[i].token_type = TokenType::String;
            ts[i].string_literal = Some(if k == 0 { v } else { w });
            k += 1;
        }
    }
    decide(ts, Rejects::Repeated)
}
#[no_mangle]
pub extern "C" fn h_c14_letters() {
    let ty = words(["a = b", "a . b = c", "a [ b ] = c", "( a ) = b", "a (( b ) = c", "a . b [ c ] = d = e", "super . a = b", "- a = b", "s = a", "a + b = c"][pick(10)]);
    let ts = one_named(&ty, pick(4), name(tier(14, 20)));
    let r = Ref { juxt: false, ..Ref::new(crate::c10::leak(&ts)) };
    decide_expr(ts, r, 1, Rejects::Target);
    end()
}
/// Definitions of every name: only init is an initializer, and only as a method.
#[no_mangle]
pub extern "C" fn h_c15_letters() {
    decide(forms(&[
        "class a { b (( ) { } c (( d ) { return d NL } }", "class a { class b (( ) { } c (( ) { } }", "class a < b NL IN c (( ) NL IN d NL OUT OUT", "fun a ( b ) { return c NL }",
        "print fun (( a , b ) { fun c ( d ) { } } NL", "class a { b (( ) { class c { d (( ) { } } } }", "class a { b (( c , d ) { } }", "class a { fun b ( ) { } }",
    ]), Rejects::No)
}
#[no_mangle]
pub extern "C" fn h_c21_letters() {
    warm();
    static T: [&str; 10] = ["W", "W\n", "W V", "W V\n", "W: 1", "W = V", "W(V)\n", "print W", "\"W\" + V", "(W)"];
    let b = filled(T[pick(10)], word(tier(10, 14)), "b");
    crate::c21::texts(&b)
}
#[no_mangle]
pub extern "C" fn h_c01_words() {
    warm();
    static T: [&str; 8] = ["W V\n", "W(V) b\n", "W V = 1\n", "V W { b\n}\n", "a\n  W V\n", "W: V\n", "{ W a\nV a\n}\n", "W.V(\"W\")"];
    let (w, v) = (word(tier(7, 10)), word(tier(7, 10)));
    let b = filled(T[pick(8)], w, v);
    crate::c01::answer(text(&b));
    end()
}

// ---- name resolution
static TEXTS: [&str; 14] = [
    "{ var W = 1\nvar W = 2\n}\n", "{ var W = W\n}\n", "fun f(W, W) { W\n}\n", "fun W(b) { return W(b)\n}\nW(1)\n", "class W { b(c) { return W\n}\n}\nW()\n", "class W < W { }\n", "class b { W(c) { return c\n}\n}\n",
    "class b < W { W() { this.W = super.W\n}\n}\n", "{ var b = W\n{ W = b\nvar W = 2\nW\n}\n}\n", "{ fun W() { }\nfun W() { }\n}\n", "for (var W = b; W; W = W + 1) { var W = fun(W) { W\n}\n}\n", "W = 1\nvar W = 2\nvar b = W\n", "W\nreturn W\n", "{ var W = 1\nfun b() { W = this\n}\n}\n",
];
fn named() -> String {
    // the reference compares names of up to eight characters without a branch
    let w = word(tier(5, 7));
    let mut t = [0u8; 1];
    // as it is, with a capital letter, with an underscore
    let how = pick(3);
    let mut n = String::with_capacity(16);
    if how == 1 { t[0] = b'A' + below8(26); } else if how == 2 { t[0] = b'_'; }
    if how > 0 { n.push_str(unsafe { std::str::from_utf8_unchecked(&t) }); }
    n.push_str(w);
    let b = filled(TEXTS[pick(TEXTS.len())], &n, "");
    unsafe { String::from_utf8_unchecked(b) }
}
#[no_mangle]
pub extern "C" fn h_c16_letters() { warm(); let s = named(); crate::c16::decide(crate::spell::tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c17_letters() { warm(); let s = named(); crate::c17::decide(crate::spell::tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c18_letters() { warm(); let s = named(); crate::c18::decide(crate::spell::tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c24_letters() { warm(); let s = named(); crate::c24::decide(crate::spell::tree(&s)) }
/// A line about any name, accepted or not, then lines about it and others.
#[no_mangle]
pub extern "C" fn h_c19_letters() {
    use crate::c19::*;
    budget(400_000_000);
    warm();
    static LINES: [&str; 12] = ["W\n", "var W = 1\n", "W = X\n", "{ var W = W\n}\n", "fun W(X) { return W\n}\n", "class W { init() { this.W = Y\n}\n}\n", "class W < W { }\n", "fun F(W, W) { }\n", "print fun(W) { this\n}\n", "W()\nreturn W\n", "{ var W = 1\nvar W = 2\n}\n", "class X { W() { super.W\n}\n}\n"];
    let w = word(tier(6, 10));
    assume(w != "this");
    let of = |s: &str| match whitespace::parser::parse_repl_line(s) { Ok(v) => v, Err(e) => { std::mem::forget(e); reach(2); end() } };
    let put = |t: &str| unsafe { String::from_utf8_unchecked(filled(t, w, "")) };
    let mut s = Session::new();
    for _ in 0..2 {
        let l = put(LINES[pick(LINES.len())]);
        if showing() { eprintln!("{:?}", l); }
        let ok = s.line(of(&l));
        check(ok == s.w.offences.is_empty(), 1);
    }
    for p in ["print X + Y\n", "{ var X = W\nprint X\n}\n", "fun F(W) { X = W\n}\n"] {
        let p = put(p);
        let mut f = Session::new();
        let got = s.line(of(&p));
        let fresh = f.line(of(&p));
        check(got && fresh, 2);
        check(s.w.locals.len() == f.w.locals.len(), 3);
        for i in 0..s.w.locals.len() { check(s.w.locals[i] == f.w.locals[i], 4); }
        std::mem::forget(f);
    }
    check(s.w.slots_ok && s.w.bindings_ok, 5);
    reach(1);
    std::mem::forget(s);
    end()
}

// ---- the programs
pub fn source() -> Vec<u8> {
    static T: [&str; 9] = ["W\n", "W b\n", "print W\n", "// W\na\n", "\"W\"\n", "a\nW", ":W\na\n", "W: 1\n", "b = 1\nW = b\n"];
    filled(T[pick(9)], word(tier(8, 12)), "")
}
#[no_mangle]
pub extern "C" fn h_c22_letters() {
    warm();
    let b = source();
    let s = text(&b);
    if pick(2) == 0 { crate::c22::on_file(s, 1 << 20) } else { crate::c22::on_lines(s, 1 << 20) }
}
/// A text about a word of any letters, before and after others; and the other way round.
#[no_mangle]
pub extern "C" fn h_c25_letters() {
    use crate::c25::*;
    warm();
    static T: [&str; 9] = ["W = V\n", "var W = V\nprint W\n", "fun W(V) { return V\n}\n", "class W < V { init() { W\n}\n}\n", "W V\n  \"W\"", "// W\nV W: 1\n", "while (W) break\n", "{ W: 1, V: 2, W: 3 }", "{ var W = W\n}\n"];
    let b = filled(T[pick(9)], word(tier(6, 9)), "v");
    let s = text(&b);
    let f = FIXED[pick(FIXED.len())];
    let w = pick(6);
    let x = [4, 5][pick(tier(1, 2))];
    if pick(2) == 0 { decide(s, w, &mut || other(f, x)) } else { decide(f, w, &mut || other(s, x)) }
}
