//! C13: map and array literals.
use crate::c10::leak;
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType, TokenType::*};

static MAPS: [TokenType; 10] = [Identifier, String, Number, Colon, Comma, Terminator, LeftBrace, RightBrace, LeftBracket, RightBracket];
static BARE: [TokenType; 8] = [Identifier, String, Number, Colon, Comma, Terminator, Indent, Outdent];
static ARR: [TokenType; 9] = [Identifier, Number, Comma, LeftBracket, RightBracket, LeftBrace, RightBrace, Colon, Minus];

/// Names and strings that may be equal: each is "keyk" or its own.
fn shared(t: TokenType, i: usize) -> Token<'static> {
    let same = below(2);
    let u = unique(i);
    let mut n = [0u8; 4];
    for j in 0..4 { let row = [u[j], b"keyk"[j]]; n[j] = row[same]; }
    tok_named(t, i, n)
}
fn run(pre: &[TokenType], set: &[TokenType], n: usize, post: &[TokenType]) {
    let mut ts = Vec::with_capacity(32);
    for t in pre { ts.push(tok(*t, ts.len())); }
    for _ in 0..n { ts.push(shared(type_of(set), ts.len())); }
    for t in post { ts.push(tok(*t, ts.len())); }
    ts.push(eof(ts.len()));
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::Repeated);
    end()
}
/// Braced maps and arrays as values.
#[no_mangle]
pub extern "C" fn h_c13_braced() { let n = pick(tier(9, 11)); run(&[Print, LeftBrace], &MAPS, n, &[RightBrace, Terminator]) }
/// Bare maps, alone and as an initializer, and indented ones.
#[no_mangle]
pub extern "C" fn h_c13_bare() {
    let n = 3 + pick(tier(6, 8));
    match pick(3) {
        0 => run(&[], &BARE, n, &[Terminator]),
        1 => run(&[Var, Identifier, Equal], &BARE, n, &[Terminator]),
        _ => run(&[Var, Identifier, Equal, Terminator, Indent], &BARE, n, &[Outdent]),
    }
}
/// Arrays.
#[no_mangle]
pub extern "C" fn h_c13_array() { let n = pick(tier(8, 10)); run(&[Print, LeftBracket], &ARR, n, &[RightBracket, Terminator]) }
/// Many entries; one key may repeat an earlier one.
#[no_mangle]
pub extern "C" fn h_c13_many() {
    let n = 2 + pick(tier(19, 59));
    let form = pick(4);
    let seps = pick(3);
    let j = pick(n + 1);
    // n: no repeated key
    let i = if j < n { pick(n) } else { n };
    if j < n { assume(i < j); }
    let mut ts: Vec<Token<'static>> = Vec::with_capacity(8 * n);
    let put = |ts: &mut Vec<Token<'static>>, t: &[TokenType]| for x in t { ts.push(tok(*x, ts.len())); };
    put(&mut ts, match form { 0 => &[Print, LeftBrace], 1 => &[Var, Identifier, Equal], 2 => &[Var, Identifier, Equal, Terminator, Indent], _ => &[] });
    for k in 0..n {
        // one key of each pair may be a string
        let t = if (k + j) % 2 == 0 { Identifier } else { String };
        let name = if k == i || (k == j && j < n) { *b"keyk" } else { unique(ts.len()) };
        ts.push(tok_named(t, ts.len(), name));
        put(&mut ts, &[Colon, if k % 3 == 1 { Identifier } else { Number }]);
        let line = form == 2 && k + 1 == n || form != 2 && seps == 1 || seps == 2 && k % 2 == 0 || form == 2 && seps > 0;
        if k + 1 < n || form == 2 { put(&mut ts, &[if line { Terminator } else { Comma }]); }
    }
    put(&mut ts, match form { 0 => &[RightBrace, Terminator], 1 => &[Terminator], 2 => &[Outdent], _ => &[Terminator] });
    ts.push(eof(ts.len()));
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::Repeated);
    end()
}
/// Literals in every place, with anything as an entry.
#[no_mangle]
pub extern "C" fn h_c13_nest() {
    use crate::nest::*;
    static LITS: [&[TokenType]; 8] = [
        &[LeftBracket, Eof, RightBracket],
        &[LeftBracket, Number, Comma, Eof, Comma, RightBracket],
        &[LeftBracket, Eof, Comma, Number, Comma, Identifier, RightBracket],
        &[LeftBrace, Identifier, Colon, Eof, RightBrace],
        &[LeftBrace, String, Colon, Eof, Comma, Identifier, Colon, Number, Comma, RightBrace],
        &[LeftBrace, Identifier, Colon, Number, Terminator, String, Colon, Eof, Terminator, RightBrace],
        &[LeftBrace, Identifier, Colon, Number, Comma, Identifier, Colon, Eof, Terminator, Identifier, Colon, Nil, RightBrace],
        &[LeftBrace, String, Colon, Eof, Terminator, String, Colon, LeftBracket, RightBracket, RightBrace],
    ];
    let ty = match pick(3) {
        0 => compose(&[one(&SFORM), one(&LITS), one(&ECTX), one(&LEAF)]),
        1 => compose(&[one(&SFORM), one(&ECTX), one(&LITS), one(&LEAF)]),
        _ => compose(&[one(&SCTX), one(&SFORM), one(&LITS), one(&LITS), one(&LEAF[..tier(2, 12)])]),
    };
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::Repeated);
    end()
}
