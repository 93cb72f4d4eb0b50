//! Names and strings that are long, nearly the same, or not ASCII.
use crate::nest::*;
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use std::string::String;
use whitespace::token::{Token, TokenType, TokenType::*};

fn leak(s: String) -> &'static str { s.leak() }
/// Names: alike up to case, up to the last character, up to composition.
pub const NAMES: usize = 33;
pub fn name(k: usize) -> &'static str {
    static N: [&str; 19] = [
        "a", "A", "aa", "a_", "_a", "a1", "thi", "This", "thiss", "Super", "superx", "init", "Init", "inits", "\u{e9}", "e\u{301}", "\u{c9}", "\u{4e2d}\u{6587}", "\u{fb01}x",
    ];
    if k < N.len() { return N[k]; }
    // long ones that differ at the end, one ends where the other goes on
    if k >= N.len() + 11 {
        // characters of several bytes at even, odd and other places
        let (a, c, n) = [("", '\u{e9}', 40), ("l", '\u{e9}', 140), ("", '\u{4e2d}', 100)][k - N.len() - 11];
        let mut s = String::with_capacity(320);
        s.push_str(a);
        for _ in 0..n { s.push(c); }
        return leak(s);
    }
    static L: [(usize, &str); 11] = [(7, "a"), (7, "b"), (15, "a"), (15, "b"), (16, ""), (31, "\u{e9}"), (32, "b"), (255, "a"), (255, "b"), (256, ""), (300, "\u{e9}\u{e8}")];
    let (n, e) = L[k - N.len()];
    let mut s = String::with_capacity(n + 8);
    for _ in 0..n { s.push('l'); }
    s.push_str(e);
    leak(s)
}
/// Strings: the names, and what is no name.
pub const STRINGS: usize = NAMES + 12;
pub fn string(k: usize) -> &'static str {
    static S: [&str; 12] = ["", " ", "a ", " a", "a b", "1", "1.0", "\\n", "\n", "a\u{a0}", "this", "\u{1f469}\u{200d}\u{1f469}"];
    if k < NAMES { name(k) } else { S[k - NAMES] }
}
fn is_name(k: usize) -> bool { k < NAMES }

/// Pairs of keys in a map: as names or as strings, accepted exactly when they differ.
#[no_mangle]
pub extern "C" fn h_c13_spelling() {
    let (i, j) = (pick(STRINGS), pick(STRINGS));
    let quoted = pick(4);
    let form = pick(tier(2, 4));
    // entries between the two
    let between = [0, 1, 20][pick(tier(2, 3))];
    assume((quoted & 1 == 1 || is_name(i)) && (quoted & 2 == 2 || is_name(j)));
    let mut ts: Vec<Token<'static>> = Vec::with_capacity(32);
    let put = |ts: &mut Vec<Token<'static>>, t: &[TokenType]| for x in t { ts.push(tok(*x, ts.len())); };
    put(&mut ts, match form { 0 => &[Print, LeftBrace], 1 => &[Var, Identifier, Equal, Terminator, Indent], 2 => &[], _ => &[Var, Identifier, Equal] });
    let n = between + 2;
    for e in 0..n {
        let (q, k) = if e == 0 { (quoted & 1 == 1, Some(i)) } else if e + 1 == n { (quoted & 2 == 2, Some(j)) } else { (false, None) };
        let mut t = tok(if q { String } else { Identifier }, ts.len());
        if let Some(k) = k { t.lexeme = string(k); t.string_literal = Some(string(k)); }
        ts.push(t);
        put(&mut ts, &[Colon, Number]);
        if e + 1 < n { put(&mut ts, &[if form == 1 { Terminator } else { Comma }]); }
    }
    put(&mut ts, match form { 0 => &[RightBrace, Terminator], 1 => &[Terminator, Outdent], _ => &[Terminator] });
    ts.push(eof(ts.len()));
    let r = Ref::new(crate::c10::leak(&ts));
    decide_program(ts, r, 1, Rejects::Repeated);
    end()
}
/// Keys of up to 20 letters, alike but for any one letter, which is symbolic in both.
#[no_mangle]
pub extern "C" fn h_c13_letters() {
    let n = 1 + pick(tier(10, 20));
    let at = pick(n);
    let mut ts: Vec<Token<'static>> = Vec::with_capacity(16);
    let quoted = pick(3);
    for t in [Print, LeftBrace] { ts.push(tok(t, ts.len())); }
    for e in 0..2 {
        let mut b: Vec<u8> = Vec::with_capacity(24);
        for i in 0..n { b.push(if i == at { below8(128) } else { b'l' }); }
        let s: &'static str = unsafe { std::str::from_utf8_unchecked(b.leak()) };
        let mut t = tok(if quoted & 1 << e != 0 { String } else { Identifier }, ts.len());
        t.lexeme = s;
        t.string_literal = Some(s);
        ts.push(t);
        for t in [Colon, Number, Comma] { ts.push(tok(t, ts.len())); }
    }
    for t in [RightBrace, Terminator] { ts.push(tok(t, ts.len())); }
    ts.push(eof(ts.len()));
    let r = Ref::new(crate::c10::leak(&ts));
    decide_program(ts, r, 1, Rejects::Repeated);
    end()
}

/// Every name and string of the tokens spelled in one of the ways, neighbours differently.
pub fn respell(ts: &mut [Token<'static>]) {
    let k = pick(STRINGS);
    let step = [0, 1, 7][pick(tier(2, 3))];
    let mut m = 0;
    for t in ts.iter_mut() {
        match t.token_type {
            Identifier => { t.lexeme = name((k + m * step) % NAMES); m += 1; }
            String => { t.string_literal = Some(string((k + m * step) % STRINGS)); m += 1; }
            _ => {}
        }
    }
}
fn spelled(ty: &[TokenType]) -> Vec<Token<'static>> { let mut ts = tokens(ty); respell(&mut ts); ts }
/// Trees carry the names and strings as they are.
#[no_mangle]
pub extern "C" fn h_c02_spelling() {
    let ty = compose(&[one(&SFORM), one(&ECTX), one(&LEAF[..tier(3, 12)])]);
    let ts = spelled(&ty);
    let r = Ref::new(crate::c10::leak(&ts));
    decide_program(ts, r, 1, Rejects::No);
    end()
}
/// Methods of every name: only init is an initializer.
#[no_mangle]
pub extern "C" fn h_c15_spelling() {
    let (i, j) = (pick(NAMES), pick(NAMES));
    static F: [&str; 5] = [
        "class c { m (( ) { } m (( a ) { return a NL } }",
        "class c { class m (( ) { } m (( ) { } }",
        "class m < m NL IN m (( ) NL IN x NL OUT class m (( a ) { } OUT",
        "class m { m (( ) { class m { m (( ) { } } } }",
        "fun m ( ) { } fun m ( m ) { return fun (( m ) { } NL }",
    ];
    let f = F[pick(5)];
    let ty = words(f);
    let mut ts = tokens(&ty);
    let mut k = 0;
    let mut w = f.split(' ').filter(|x| !x.is_empty());
    for t in ts.iter_mut() {
        if w.next() == Some("m") { t.lexeme = if k % 2 == 0 { name(i) } else { name(j) }; k += 1; }
    }
    let r = Ref::new(crate::c10::leak(&ts));
    decide_program(ts, r, 1, Rejects::No);
    end()
}
/// Errors at and near names and strings of every spelling.
#[no_mangle]
pub extern "C" fn h_c20_spelling() {
    let mut ts = wrong();
    respell(&mut ts);
    let r = Ref::new(crate::c10::leak(&ts));
    crate::c20::decide(ts, r, true, false)
}
#[no_mangle]
pub extern "C" fn h_c01_spelling() { let mut ts = wrong(); respell(&mut ts); crate::c01::parse(ts) }
/// Statements with a name, a string or a number where none belongs.
fn wrong() -> Vec<Token<'static>> {
    let ty = compose(&[one(&SFORM), one(&LEAF[..1])]);
    let at = pick(ty.len());
    let how = pick(2);
    let t = [Identifier, String, Number][pick(3)];
    let mut v: Vec<TokenType> = Vec::with_capacity(ty.len() + 2);
    for i in 0..ty.len() {
        if i == at { v.push(t); if how == 0 { continue; } }
        v.push(ty[i]);
    }
    tokens(&v)
}

// ---- name resolution
static TEXTS: [&str; 12] = [
    "var A = 1\n{ var B = A\nprint A\nprint B\n}\nB = A\n",
    "{ var A = 1\nvar B = 2\nA = B\n{ var C = A\nA\nB\nC\n}\n}\n",
    "fun A(B)\n  return A + B\nprint B\n",
    "fun f(A, B, C) { { A\nB\nC\n}\n}\n",
    "class A < B { m(C) { super.A\nthis.B\nreturn A + B + C\n}\n}\n",
    "{ class A { B() { A\nB\n}\n}\nvar B = A\n}\n",
    "var A = 1\nvar B = 2\nvar C = 3\nA\nB\nC\n",
    "{ var A = B\nvar B = A\n}\n",
    "for (var A = B; A; B = A) { var B = fun(C) { A = B\nB = C\n}\n}\n",
    "class A { init(B) { return B\n}\nA() { return B\n}\n}\n",
    "{ fun A() { return B\n}\nfun B() { return A\n}\nB()\n}\n",
    "if (A) { var B = A\nA = B\n} else { var A = B\nB\n}\nprint [A, B, { k: B, \"A\": C }]\n",
];
/// One of the texts, A, B and C any of the names.
pub fn named() -> String {
    let t = TEXTS[pick(TEXTS.len())];
    let (i, j) = (pick(NAMES), pick(NAMES));
    let n = [name(i), name(j), name((i + 1 + 6 * pick(tier(1, 4))) % NAMES)];
    let mut s = String::with_capacity(256);
    for c in t.chars() { if c >= 'A' && c <= 'C' { s.push_str(n[c as usize - 'A' as usize]); } else { s.push(c); } }
    s
}
pub fn tree(s: &str) -> Vec<whitespace::ast::Stmt> {
    if showing() { eprintln!("text: {:?}", s); }
    match whitespace::parser::parse(s) { Ok(v) => v, Err(e) => { std::mem::forget(e); reach(4); end() } }
}
#[no_mangle]
pub extern "C" fn h_c16_spelling() { let s = named(); crate::c16::decide(tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c17_spelling() { let s = named(); crate::c17::decide(tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c18_spelling() { let s = named(); crate::c18::decide(tree(&s)) }

/// Constructs in one another up to 300 deep, something to resolve inside.
pub fn far() -> String {
    static F: [(&str, &str); 8] = [
        ("{\nvar b = 1\n", "}\n"), ("fun f(b) {\n", "}\n"), ("print fun() {\nvar b = a\n", "}\n"), ("class c { m() {\n", "}\n}\n"), ("class c < a { init(b) {\n", "}\n}\n"),
        ("while (b) {\nvar b = a\n", "}\n"), ("if (b) { a\n", "} else { b = a\n}\n"), ("for (var b = 1; b; b = a) {\n", "}\n"),
    ];
    static IN: [&str; 10] = ["a\n", "b\n", "a = b\n", "d = fun(b) { return a + b\n}\n", "this.b = a\n", "super.b()\n", "return a\n", "var b = 1\nb\n", "fun b(b, b) { b\n}\n", "class b < b { }\n"];
    let i = pick(F.len());
    let j = if thorough() { pick(F.len()) } else { (i + 1 + pick(2)) % F.len() };
    let n = if thorough() { crate::scale::times(false) } else { [1, 2, 3, 126, 127, 255, 256][pick(7)] };
    let k = pick(IN.len());
    let mut s = String::with_capacity(n * 40 + 256);
    // the outermost or the innermost is of another kind
    let inner = thorough() && pick(2) == 1;
    s.push_str("{ var a = 1\n");
    if !inner { s.push_str(F[j].0); }
    for _ in 0..n { s.push_str(F[i].0); }
    if inner { s.push_str(F[j].0); }
    s.push_str(IN[k]);
    if inner { s.push_str(F[j].1); }
    for m in 0..n { s.push_str(F[i].1); if m + 1 == n / 2 { s.push_str(IN[k % 3]); } }
    if !inner { s.push_str(F[j].1); }
    s.push_str("a\n}\nb\n");
    s
}
#[no_mangle]
pub extern "C" fn h_c16_far() { budget(400_000_000); let s = far(); crate::c16::decide(tree(&s)) }
#[no_mangle]
pub extern "C" fn h_c18_far() { budget(400_000_000); let s = far(); crate::c18::decide(tree(&s)) }
/// Many errors of name resolution, or many that are none, one after the other.
#[no_mangle]
pub extern "C" fn h_c18_many() {
    budget(400_000_000);
    static L: [&str; 9] = ["{ var a = a\n}\n", "this\n", "super.a\n", "return a\n", "{ var a\nvar a\n}\n", "class c < c { }\n", "class c { init() { return 1\n} }\n", "fun f(a, a) { }\n", "{ fun f(a) { return a\n}\nvar a = f\n}\n"];
    let n = crate::scale::times(true);
    let (i, j) = (pick(L.len()), pick(L.len()));
    let mut s = String::with_capacity(n * 40 + 256);
    for _ in 0..n { s.push_str(L[i]); }
    s.push_str(L[j]);
    crate::c18::decide(tree(&s))
}
