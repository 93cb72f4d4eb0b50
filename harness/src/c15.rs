//! C15: function and class definitions.
use crate::c10::leak;
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType, TokenType::*};

static SET: [TokenType; 13] = [
    Fun, Class, Identifier, LeftParen, LeftParenAbutting, RightParen, Comma, LeftBrace, RightBrace, Less, Terminator, Indent, Outdent,
];
static BODY: [TokenType; 10] = [Class, Identifier, LeftParenAbutting, RightParen, LeftBrace, RightBrace, Terminator, Indent, Outdent, Comma];
/// A name that may be init.
fn named(t: TokenType, i: usize) -> Token<'static> {
    let init = below(2);
    let u = unique(i);
    let mut n = [0u8; 4];
    for j in 0..4 { let row = [u[j], b"init"[j]]; n[j] = row[init]; }
    tok_named(t, i, n)
}
fn run(pre: &[TokenType], set: &[TokenType], n: usize, post: &[TokenType]) {
    let mut ts = Vec::with_capacity(32);
    for t in pre { ts.push(tok(*t, ts.len())); }
    for _ in 0..n { ts.push(named(type_of(set), ts.len())); }
    for t in post { ts.push(tok(*t, ts.len())); }
    ts.push(eof(ts.len()));
    let r = Ref { juxt: false, maps: false, ..Ref::new(leak(&ts)) };
    decide_program(ts, r, 1, if n <= 7 { Rejects::All } else { Rejects::No });
    end()
}
/// Definitions from their first token on.
#[no_mangle]
pub extern "C" fn h_c15_seq() { let n = 1 + pick(tier(12, 14)); run(&[], &SET, n, &[]) }
/// Bodies of a class.
#[no_mangle]
pub extern "C" fn h_c15_class() { let n = pick(tier(14, 16)); run(&[Class, Identifier, LeftBrace], &BODY, n, &[RightBrace]) }
/// Functions as values.
#[no_mangle]
pub extern "C" fn h_c15_value() { let n = pick(tier(11, 13)); run(&[Print, Fun], &SET, n, &[Terminator]) }

/// Classes of several methods of every kind.
#[no_mangle]
pub extern "C" fn h_c15_methods() {
    let mut ts: Vec<Token<'static>> = Vec::with_capacity(96);
    let put = |ts: &mut Vec<Token<'static>>, t: &[TokenType]| for x in t { ts.push(tok(*x, ts.len())); };
    let sub = pick(2) == 1;
    let indented = pick(2) == 1;
    put(&mut ts, &[Class, Identifier]);
    if sub { put(&mut ts, &[Less, Identifier]); }
    put(&mut ts, if indented { &[Terminator, Indent] } else { &[LeftBrace] });
    let n = pick(tier(4, 5));
    for k in 0..n {
        if pick(2) == 1 { put(&mut ts, &[Class]); }
        // init is symbolic
        ts.push(named(Identifier, ts.len()));
        put(&mut ts, if k == 1 { &[LeftParen] } else { &[LeftParenAbutting] });
        let params = pick(3);
        if params > 0 { put(&mut ts, &[Identifier]); }
        if params > 1 { put(&mut ts, &[Comma, Identifier]); }
        put(&mut ts, &[RightParen]);
        let body: &[TokenType] = match pick(4) {
            0 => &[LeftBrace, RightBrace],
            1 => &[LeftBrace, Return, Identifier, Terminator, RightBrace, Terminator],
            2 => &[Terminator, Indent, Fun, Identifier, LeftParen, Identifier, RightParen, LeftBrace, RightBrace, Outdent],
            _ => &[LeftBrace, Class, Identifier, LeftBrace, Identifier, LeftParenAbutting, RightParen, LeftBrace, RightBrace, RightBrace, RightBrace],
        };
        put(&mut ts, body);
    }
    put(&mut ts, if indented { &[Outdent] } else { &[RightBrace] });
    if pick(2) == 1 { put(&mut ts, &[Identifier, Terminator]); }
    ts.push(eof(ts.len()));
    let r = Ref { juxt: false, maps: false, ..Ref::new(leak(&ts)) };
    decide_program(ts, r, 1, Rejects::All);
    end()
}
/// Composed programs around definitions, intact and with one token changed.
#[no_mangle]
pub extern "C" fn h_c15_nest() {
    use crate::nest::*;
    static DEFS: [&[TokenType]; 6] = [
        &[Fun, Identifier, LeftParen, Identifier, Comma, Identifier, RightParen, LeftBrace, Eof, RightBrace],
        &[Print, Fun, LeftParenAbutting, Identifier, RightParen, Terminator, Indent, Eof, Outdent, Terminator],
        &[Class, Identifier, LeftBrace, Class, Identifier, LeftParenAbutting, RightParen, LeftBrace, Eof, RightBrace, Identifier, LeftParen, Identifier, RightParen, LeftBrace, RightBrace, RightBrace],
        &[Class, Identifier, Less, Identifier, Terminator, Indent, Identifier, LeftParenAbutting, RightParen, Terminator, Indent, Eof, Outdent, Class, Identifier, LeftParenAbutting, RightParen, LeftBrace, RightBrace, Outdent],
        &[Identifier, Fun, LeftParen, RightParen, LeftBrace, Eof, RightBrace, Comma, Number, Terminator],
        &[Var, Identifier, Equal, LeftBrace, Identifier, Colon, Fun, LeftParen, RightParen, LeftBrace, Eof, RightBrace, RightBrace, Terminator],
    ];
    let ts = if pick(2) == 0 {
        tokens(&compose(&[one(&SCTX), one(&DEFS), one(&DEFS), one(&SFORM), one(&LEAF[..1])]))
    } else {
        let inner: &[&'static [TokenType]] = &[&[Identifier, Terminator], DEFS[0], DEFS[2], DEFS[4]];
        let ty = compose(&[one(&DEFS), inner[pick(4)], &[Identifier, Terminator]]);
        disturbed(&ty)
    };
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::No);
    end()
}
