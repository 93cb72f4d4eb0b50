//! Long texts: of many lines, wide, deep, with long tokens.
use crate::refs::*;
use crate::scale::times;
use crate::sym::*;
use whitespace::scanner::Scanner;

/// Counts around those at which a byte or 16 bits overflow, and small ones.
fn count(big: bool) -> usize {
    static C: [usize; 22] = [1, 2, 3, 15, 16, 17, 127, 128, 255, 256, 257, 65534, 65535, 65536, 65537, 4, 5, 8, 31, 32, 33, 254];
    if big { C[pick(tier(15, 22))] } else { let k = pick(tier(11, 18)); C[if k > 10 { k + 4 } else { k }] }
}
fn put(b: &mut Vec<u8>, s: &str) { b.extend_from_slice(s.as_bytes()); }

/// A line changed many times: many blank lines or comments before it, many
/// blanks or a long comment behind it.
#[no_mangle]
pub extern "C" fn h_c05_scale() {
    use crate::c05::*;
    budget(4_000_000_000);
    warm();
    let how = 1 + pick(HOW - 1);
    let k = count(how == 1 || how == 3 || how == 7);
    assume(how != 10 || k == 1);
    let l = pick(LINES.len());
    // many: few kinds of line
    assume(k < 65534 || l < 2);
    let ind = pick(2);
    let mut a: Vec<u8> = Vec::with_capacity(64);
    let mut b: Vec<u8> = Vec::with_capacity(10 * k + 64);
    for v in [&mut a, &mut b] { put(v, "a\n"); }
    let (joined, slash) = (l == 6 || l == 11, false);
    if how < 7 { for _ in 0..k { before(how, &mut b); } }
    for v in [&mut a, &mut b] { for _ in 0..ind { v.push(b' '); } put(v, LINES[l]); }
    if how >= 7 { for _ in 0..k { after(how, joined, slash, &mut b); } }
    for v in [&mut a, &mut b] { put(v, "\n  c\nd\n"); }
    decide(&a, &b)
}
/// What a comment says does not matter: any characters, any length.
#[no_mangle]
pub extern "C" fn h_c05_comment() {
    use crate::c05::*;
    budget(4_000_000_000);
    warm();
    static WIDE: [&str; 8] = ["", "\u{e9}", "e\u{301}", "\u{4e2d}\u{6587}", "\u{1f469}\u{200d}\u{1f469}", "\u{2028}", "\u{85}", "\u{feff}"];
    let own = pick(2) == 1;
    let long = pick(8);
    let n = pick(tier(3, 4));
    let mut a: Vec<u8> = Vec::with_capacity(64);
    let mut b: Vec<u8> = Vec::with_capacity(66000);
    for v in [&mut a, &mut b] { put(v, "a\n  b"); }
    if own { for v in [&mut a, &mut b] { v.push(b'\n'); } }
    put(&mut b, if own { " //" } else { " // " });
    let c = [0, 0, 0, 1, 255, 256, 65533, 65536][long];
    for _ in 0..c { b.push(b'"'); }
    for _ in 0..n { let c = below8(128); assume(c != b'\n'); b.push(c); }
    if c < 2 { put(&mut b, WIDE[pick(8)]); }
    for v in [&mut a, &mut b] { put(v, if own { "\n" } else { "" }); put(v, "\n  c\nd\n"); }
    decide(&a, &b)
}
/// Many continued lines, or many lines between one and the next.
#[no_mangle]
pub extern "C" fn h_c06_scale() {
    budget(4_000_000_000);
    warm();
    static CONT: [&str; 9] = ["+\n", "a +\n", "a(\n", "b \\\n", " \\\n", "[ // c\n", "a,\r\n", "   a.\n\n", "    { \n"];
    static BETWEEN: [&str; 4] = ["\n", "  \n", " // c\n", "\r\n    // +\n"];
    let k = times(thorough());
    let mut b: Vec<u8> = Vec::with_capacity(16 * k + 64);
    put(&mut b, "a\n");
    if pick(2) == 0 {
        let c = pick(CONT.len());
        put(&mut b, " x ");
        for _ in 0..k { put(&mut b, CONT[c]); }
    } else {
        put(&mut b, [" +\n", " \\\n", " f(\n", " b\n"][pick(4)]);
        let c = pick(4);
        for _ in 0..k { put(&mut b, BETWEEN[c]); }
    }
    for _ in 0..pick(4) { b.push(b' '); }
    put(&mut b, "y\n");
    for _ in 0..pick(3) { b.push(b' '); }
    put(&mut b, "c\nd\n");
    crate::c06::decide(&b)
}
/// A run of one character, of any length, between any two others.
#[no_mangle]
pub extern "C" fn h_c07_long() {
    budget(4_000_000_000);
    warm();
    static RUN: [u8; 13] = *b"a_1=!</.>+ (Z";
    static PRE: [&str; 12] = ["", "i", "1", "_", "thi", ".", "=", "/", "\"", "1.", "cla", "// "];
    let p = pick(PRE.len());
    let r = pick(RUN.len());
    let n = count(p < 3 && r < 4);
    let mut b: Vec<u8> = Vec::with_capacity(n + 16);
    put(&mut b, PRE[p]);
    for _ in 0..n { b.push(RUN[r]); }
    // a number too large for a double is not spoken about
    if n < 1000 { b.push(below8(128)); if thorough() { b.push(below8(128)); } }
    let u = units_of_ascii(&b);
    crate::c07::decide(&b, &u)
}
/// Words and strings of any length, of characters of more bytes.
#[no_mangle]
pub extern "C" fn h_c07_wide() {
    budget(4_000_000_000);
    warm();
    static W: [(&str, Class); 6] = [("\u{e9}", Class::Letter), ("y\u{306}", Class::Letter), ("\u{4e2d}", Class::Letter), ("\u{1d4d0}", Class::Letter), ("\u{20ac}", Class::Other), ("\u{663}", Class::Mark)];
    static PRE: [&str; 5] = ["", "if", "_1", "\"", "// "];
    let p = pick(5);
    let w = pick(6);
    let n = [1, 2, 3, 63, 64, 85, 86, 127, 128, 255, 256][pick(11)];
    let (b, u) = wide_text(PRE[p], W[w], n, &[below8(128), below8(128)][..tier(1, 2)]);
    crate::c07::decide(&b, &u)
}
#[no_mangle]
pub extern "C" fn h_c08_wide() {
    budget(4_000_000_000);
    warm();
    static W: [(&str, Class); 6] = [("\u{e9}", Class::Letter), ("y\u{306}", Class::Letter), ("\u{1f469}\u{200d}\u{1f469}\u{200d}\u{1f466}", Class::Other), ("\u{1d4d0}", Class::Letter), ("\u{1f1e6}\u{1f1e7}", Class::Other), ("\u{663}", Class::Mark)];
    static PRE: [&str; 4] = ["a", "\"", "// ", "\"\n "];
    let p = pick(4);
    let w = pick(6);
    let n = [1, 2, 3, 64, 127, 128, 255, 256, 257][pick(9)];
    static ENDS: [&[u8]; 8] = [b"\" b\n c", b" b\n c", b"", b"\"", b"x", b" ", b"\n", b"\n//"];
    let end = ENDS[pick(8)];
    let (b, u) = wide_text(PRE[p], W[w], n, end);
    crate::c08::decide(&b, &u)
}
fn wide_text(pre: &str, w: (&str, Class), n: usize, end: &[u8]) -> (Vec<u8>, Vec<Unit>) {
    let mut b: Vec<u8> = Vec::with_capacity(n * w.0.len() + 32);
    let mut u: Vec<Unit> = Vec::with_capacity(n + 32);
    for c in pre.bytes() { u.push(Unit { at: b.len(), len: 1, class: Class::Ascii }); b.push(c); }
    for _ in 0..n { u.push(Unit { at: b.len(), len: w.0.len(), class: w.1 }); put(&mut b, w.0); }
    for c in end { u.push(Unit { at: b.len(), len: 1, class: Class::Ascii }); b.push(*c); }
    for i in 1..u.len() { if u[i].class == Class::Ascii && u[i - 1].class == Class::Ascii { assume(!(b[u[i].at] == b'\n' && b[u[i - 1].at] == b'\r')); } }
    (b, u)
}
/// Tokens after very many lines.
#[no_mangle]
pub extern "C" fn h_c08_lines() {
    budget(8_000_000_000);
    warm();
    static LINE: [&str; 8] = ["\n", "a\n", "// c\n", "\\\n", " \\\n", "  +\n", "\r\n", "\n\"\n\""];
    let l = pick(LINE.len() + 1);
    let n = count(true);
    let mut b: Vec<u8> = Vec::with_capacity(8 * n + 64);
    put(&mut b, "a\n");
    if l < LINE.len() { for _ in 0..n { put(&mut b, LINE[l]); } } else {
        // a string of many lines
        b.push(b'"');
        for _ in 0..n { b.push(b'\n'); }
        put(&mut b, " \"");
    }
    static REST: [&str; 3] = ["b = \"\n\" 1\nc", "  b\n c", "b(\n\n) d"];
    put(&mut b, REST[if n < 65534 || thorough() { pick(3) } else { l % 3 }]);
    let u = units_of_ascii(&b);
    crate::c08::decide(&b, &u)
}
/// Strings of any length.
#[no_mangle]
pub extern "C" fn h_c09_scale() {
    use whitespace::ast::Expr;
    budget(4_000_000_000);
    warm();
    static W: [&str; 6] = ["l", "\u{e9}", "\n", "\\", "\r\n", "\u{1f469}\u{200d}\u{1f469}"];
    let w = pick(6);
    let n = count(w < 3);
    let mut b: Vec<u8> = Vec::with_capacity(n * 12 + 16);
    b.push(b'"');
    let at = pick(3);
    for i in 0..n { if at == 0 && i == n / 2 { let c = below8(128); assume(c != b'"'); b.push(c); } put(&mut b, W[w]); }
    if at == 1 { let c = below8(128); assume(c != b'"'); b.push(c); }
    b.push(b'"');
    let s = text(&b);
    let e = whitespace::parser::parse_expression(s);
    match &e { Ok(Expr::LiteralString(x)) => { reach(1); check(x.len() + 2 == b.len(), 1); check(x.as_bytes() == &b[1..b.len() - 1], 2) } _ => check(false, 3) }
    std::mem::forget(e);
    end()
}
/// Numerals of many digits, before and after the dot.
#[no_mangle]
pub extern "C" fn h_c09_wide() {
    use crate::c09::*;
    budget(4_000_000_000);
    warm();
    let whole = [1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20, 21, 22, 38, 39, 40, 308][pick(19)];
    let frac = [0, 1, 2, 7, 8, 9, 17, 18, 19, 20, 39, 200, 330][pick(tier(10, 13))];
    let d = 1 + pick(9) as u8;
    let zeros = pick(3);
    let mut b: Vec<u8> = Vec::with_capacity(700);
    let mut n: Vec<u32> = vec![0];
    for i in 0..whole + frac {
        if i == whole { b.push(b'.'); }
        // all alike, one and zeros, zeros and one
        let c = match zeros { 0 => d, 1 => if i == 0 { d } else { 0 }, _ => if i + 1 == whole + frac || i + 1 == whole { d } else { 0 } };
        let c = if whole == 308 && i == 0 { c.min(1) } else { c };
        b.push(b'0' + c);
        mul_small(&mut n, 10, c as u32);
    }
    let x = number_of(&b);
    reach(1);
    check(nearest(x, &n, frac), 7);
    digest(x.to_bits());
    end()
}
/// Lines at indentations up to and over 16 bits.
#[no_mangle]
pub extern "C" fn h_c04_wide() {
    budget(8_000_000_000);
    warm();
    static I: [usize; 8] = [0, 65533, 32768, 1, 65534, 256, 32767, 255];
    let n = 2 + pick(2);
    let mut b: Vec<u8> = Vec::with_capacity(200_000);
    let mut inds = Vec::with_capacity(4);
    put(&mut b, "a\n");
    inds.push(0);
    for _ in 0..n { let i = I[pick(tier(5, 8))]; inds.push(i); for _ in 0..i { b.push(b' '); } put(&mut b, "a\n"); }
    let s = text(&b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    if b.len() < 500 { crate::c04::show_lines(s, &r); } else if showing() { eprintln!("lines of indentation {:?}", inds); }
    crate::c04::check_lines(&b, &inds, &r);
    std::mem::forget(r);
    end()
}
/// About as many blocks in one another as a byte counts.
#[no_mangle]
pub extern "C" fn h_c04_stack() {
    budget(8_000_000_000);
    warm();
    let n = [127, 128, 255, 256, 257, 300][pick(tier(5, 6))];
    let back = [0, 1, 2, n / 2, n - 2, n - 1, n, n + 1][pick(8)];
    let again = pick(3);
    let mut b: Vec<u8> = Vec::with_capacity(n * (n + 3) + 900);
    let mut inds = Vec::with_capacity(n + 4);
    let line = |i: usize, b: &mut Vec<u8>, inds: &mut Vec<usize>| { for _ in 0..i { b.push(b' '); } put(b, "a\n"); inds.push(i); };
    for k in 0..n { line(k, &mut b, &mut inds); }
    line(back, &mut b, &mut inds);
    if again > 0 { line(if again == 1 { back + 1 } else { 0 }, &mut b, &mut inds); }
    if pick(2) == 0 { b.pop(); }
    let s = text(&b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    crate::c04::show_lines(s, &r);
    crate::c04::check_lines(&b, &inds, &r);
    std::mem::forget(r);
    end()
}
/// Many faulty characters and lines, and one more.
#[no_mangle]
pub extern "C" fn h_c20_many() {
    budget(4_000_000_000);
    warm();
    static BAD: [&str; 9] = ["#", "#\n", "a #\n", "\"s\" @ b\n", "\t", "a\n   b\n  c\nd\n", "\n", "  ", "\"\n\" ~"];
    let (i, j) = (pick(BAD.len()), pick(BAD.len()));
    let n = times(thorough());
    let mut b: Vec<u8> = Vec::with_capacity(16 * n + 64);
    for _ in 0..n { put(&mut b, BAD[i]); }
    put(&mut b, BAD[j]);
    b.push(below8(128));
    let u = units_of_ascii(&b);
    crate::c20::scanner_errors(&b, &u)
}
/// Many faulty statements.
#[no_mangle]
pub extern "C" fn h_c20_errors() {
    use crate::refp::*;
    use crate::toks::*;
    static BAD: [&str; 10] = ["print ) NL", "n = n NL", "var NL", "x NL", "break NL", "} ", "print { k : n , k : n } NL", "( x NL", "if ( x NL", "fun f ( n ) { } NL"];
    let (i, j) = (pick(10), pick(10));
    let n = times(thorough());
    let mut ty = Vec::with_capacity(16 * n + 64);
    let (a, z) = (words(BAD[i]), words(BAD[j]));
    for _ in 0..n { ty.extend_from_slice(&a); }
    ty.extend_from_slice(&z);
    let mut ts = Vec::with_capacity(ty.len() + 1);
    for k in 0..ty.len() { ts.push(if i == 6 && ty[k] == whitespace::token::TokenType::Identifier { tok_named(ty[k], k, *b"keyk") } else { tok(ty[k], k) }); }
    ts.push(eof(ty.len()));
    let r = Ref::new(crate::c10::leak(&ts));
    crate::c20::decide(ts, r, true, false)
}
/// Pieces so many that 16 bits do not count them.
#[no_mangle]
pub extern "C" fn h_c01_many() {
    budget(20_000_000_000);
    warm();
    static F: [[&str; 3]; 12] = [
        ["", "a\n", ""], ["", "\n", "a"], ["[", "1,", "]\n"], ["", "#", ""], ["", "#\n", ""], ["", "print )\n", ""], ["", "{}\n", ""], ["print \"", "\n", "\"\n"],
        ["class c {", "m() {}\n", "}\n"], ["", "// c\n", "  a\n"], ["a", "+\n", "b\n"], ["", ")", "\n"],
    ];
    let f = &F[pick(tier(8, 12))];
    let n = [65535, 65537, 65534, 65536, 65538][pick(tier(2, 5))];
    let mut b: Vec<u8> = Vec::with_capacity(9 * n + 16);
    put(&mut b, f[0]);
    for _ in 0..n { put(&mut b, f[1]); }
    put(&mut b, f[2]);
    let s = text(&b);
    match whitespace::parser::parse(s) {
        Ok(p) => match whitespace::resolver::resolve(p) { Ok(c) => { reach(1); digest(c.statements.len() as u64); std::mem::forget(c) } Err(e) => { check(!e.causes.is_empty(), 2); std::mem::forget(e) } },
        Err(e) => { reach(2); check(!e.causes.is_empty(), 3); digest(e.causes.len() as u64); std::mem::forget(e) }
    }
    end()
}
/// A session of many lines of one kind, then a probe.
#[no_mangle]
pub extern "C" fn h_c19_many() {
    use crate::c19::*;
    budget(4_000_000_000);
    let i = pick(PROBES);
    let n = [1, 2, 3, 16, 17, 64, 127, 128, 255, 256, 257, 4, 5, 300, 511, 512, 513][pick(tier(11, 17))];
    let p = pick(PROBES);
    let mut s = Session::new();
    let mut f = Session::new();
    // what it was like the first time
    let mut first = false;
    for k in 0..n {
        let ok = s.line(probe_of(i, true));
        if k == 0 { first = ok; }
        check(ok == first, 1);
    }
    let got = s.line(probe_of(p, true));
    let fresh = f.line(probe_of(p, true));
    check(got == fresh, 2);
    check(s.w.slots_ok && s.w.bindings_ok, 3);
    check(s.w.locals.len() == f.w.locals.len(), 4);
    for i in 0..s.w.locals.len() { check(s.w.locals[i] == f.w.locals[i], 5); }
    if got { reach(1); } else { reach(2); }
    std::mem::forget(s);
    std::mem::forget(f);
    end()
}
/// The entry points on repeated forms.
#[no_mangle]
pub extern "C" fn h_c21_scale() {
    let mut ty = crate::scale::program(thorough());
    // without its end, or with
    if pick(2) == 0 { ty.pop(); }
    crate::c21::programs(crate::scale::tokens(&ty))
}
#[no_mangle]
pub extern "C" fn h_c21_alone() {
    let f = &crate::scale::EXPRS[pick(crate::scale::EXPRS.len())];
    let n = times(thorough());
    crate::c21::single(crate::scale::tokens(&crate::scale::repeat(f, n)))
}
/// Lines as wide as the buffers the program reads and writes with.
#[no_mangle]
pub extern "C" fn h_c22_wide() {
    budget(8_000_000_000);
    let n = [8190, 8191, 8192, 8193, 1023, 1024, 4095, 4096, 8185, 8189, 16383, 16384][pick(12)];
    let w = ["l", "\u{e9}", "\u{4e2d}"][pick(3)];
    let pre = ["", "a", "print \"", "#"][pick(4)];
    let post = if pre.len() > 2 { "\"\nb\n" } else { "\nb\n" };
    let mut s = std::string::String::with_capacity(n + 32);
    s.push_str(pre);
    while s.len() < n { s.push_str(w); }
    s.push_str(post);
    if pick(2) == 1 { crate::c22::on_file(&s, 1 << 20) } else { crate::c22::on_lines(&s, 1 << 20) }
}
/// Maps of as many entries as a byte counts.
#[no_mangle]
pub extern "C" fn h_c13_limit() {
    use crate::refp::*;
    use crate::toks::*;
    use whitespace::token::{Token, TokenType::*};
    budget(400_000_000);
    let n = [126, 127, 128, 129, 254, 255, 256, 257, 300][pick(9)];
    let form = pick(3);
    // the last key repeats the first, one in the middle, its neighbour, or none
    let i = [0, n / 2, n - 2, n][pick(4)];
    let mut ts: Vec<Token<'static>> = Vec::with_capacity(4 * n + 8);
    for t in match form { 0 => &[Print, LeftBrace][..], 1 => &[Var, Identifier, Equal][..], _ => &[Print, LeftBracket][..] } { ts.push(tok(*t, ts.len())); }
    let odd = pick(2);
    for k in 0..n {
        let t = if (k + odd) % 2 == 0 { Identifier } else { String };
        ts.push(tok_named(t, ts.len(), if k == i || k + 1 == n && i < n { *b"keyk" } else { unique(ts.len()) }));
        if form < 2 { for t in [Colon, Number] { ts.push(tok(t, ts.len())); } }
        if k + 1 < n { ts.push(tok(Comma, ts.len())); }
    }
    for t in match form { 0 => &[RightBrace, Terminator][..], 1 => &[Terminator][..], _ => &[RightBracket, Terminator][..] } { ts.push(tok(*t, ts.len())); }
    ts.push(eof(ts.len()));
    let r = Ref::new(crate::c10::leak(&ts));
    decide_program(ts, r, 1, Rejects::Repeated);
    end()
}

/// Texts of ASCII characters of every class and of characters of several bytes.
fn mixed() -> (Vec<u8>, Vec<Unit>) {
    warm();
    static W: [(&str, Class); 16] = [
        ("\u{e9}", Class::Letter), ("y\u{306}", Class::Letter), ("\u{1f600}", Class::Other), ("1\u{301}", Class::Mark), ("a", Class::Ascii), ("1", Class::Ascii), (" ", Class::Ascii), ("\n", Class::Ascii), ("\"", Class::Ascii), ("/", Class::Ascii),
        ("\\", Class::Ascii), ("=", Class::Ascii), ("(", Class::Ascii), (".", Class::Ascii), ("#", Class::Ascii), ("\t", Class::Ascii),
    ];
    let n = 1 + pick(tier(5, 6));
    let mut b: Vec<u8> = Vec::with_capacity(32);
    let mut u: Vec<Unit> = Vec::with_capacity(8);
    for _ in 0..n {
        let w = W[pick(tier(13, 16))];
        u.push(Unit { at: b.len(), len: w.0.len(), class: w.1 });
        put(&mut b, w.0);
    }
    (b, u)
}
#[no_mangle]
pub extern "C" fn h_c07_mixed() { let (b, u) = mixed(); crate::c07::decide(&b, &u) }
#[no_mangle]
pub extern "C" fn h_c08_mixed() { let (b, u) = mixed(); crate::c08::decide(&b, &u) }
#[no_mangle]
pub extern "C" fn h_c20_mixed() { let (b, u) = mixed(); crate::c20::scanner_errors(&b, &u) }
/// A line, another one many times, a third, then a line about all names.
#[no_mangle]
pub extern "C" fn h_c19_history() {
    use crate::c19::*;
    budget(4_000_000_000);
    warm();
    static LINES: [&str; 18] = [
        "x\ny\n", "y\n", "var x = 1\n", "print x + y + z\n", "return 1\n", "this\n", "super.a\n", "{ var a = a\n}\n", "{ var y = 1\nvar y = 2\n}\n", "class C < C { }\n",
        "class x { init() { return y\n}\n}\n", "var y = x\n", "z = x\n", "fun f(x) { return g\n}\n", "class D < x { m() { this.y = z\n}\n}\n", "for (var i = x; i < y; i = i + 1) { print i\n}\n", "print fun() { y = this\n}\n", "return z\n",
    ];
    let a = LINES[pick(tier(12, 18))];
    let b = LINES[pick(LINES.len())];
    let n = [2, 3, 4, 5, 9, 16, 33, 100, 0, 1, 255, 256, 257][pick(tier(8, 13))];
    let c = LINES[[3, 1, 0, 15][pick(tier(2, 4))]];
    if showing() { eprintln!("{:?}, {} times {:?}, {:?}", a, n, b, c); }
    let of = |s: &str| match whitespace::parser::parse_repl_line(s) { Ok(v) => v, Err(_) => { check(false, 1); Vec::new() } };
    let mut s = Session::new();
    let ok = s.line(of(a));
    check(ok == s.w.offences.is_empty(), 2);
    for _ in 0..n { let ok = s.line(of(b)); check(ok == s.w.offences.is_empty(), 3); }
    let ok = s.line(of(c));
    check(ok, 4);
    check(s.w.slots_ok && s.w.bindings_ok, 5);
    for p in ["print x + y + z\n", "{ var x = y\nprint x\n}\n", "fun f(z) { z = x\n}\n"] {
        let mut f = Session::new();
        let got = s.line(of(p));
        let fresh = f.line(of(p));
        check(got && fresh, 6);
        check(s.w.locals.len() == f.w.locals.len(), 7);
        for i in 0..s.w.locals.len() { check(s.w.locals[i] == f.w.locals[i], 8); }
        std::mem::forget(f);
    }
    check(s.w.slots_ok && s.w.bindings_ok, 9);
    reach(1);
    std::mem::forget(s);
    end()
}
