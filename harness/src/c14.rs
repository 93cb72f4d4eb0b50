//! C14: assignment targets.
use crate::c10::{leak, seq};
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{TokenType, TokenType::*};

static SET: [TokenType; 15] = [
    Identifier, This, Number, Super, Dot, LeftBracket, RightBracket, LeftParen, LeftParenAbutting, RightParen, Equal, Minus, Or, Bang, EqualEqual,
];
static LEFT: [TokenType; 24] = [
    Identifier, This, Number, String, True, False, Nil, Super, Dot, LeftBracket, RightBracket, LeftParen, LeftParenAbutting, RightParen, Minus, Bang,
    And, Less, Star, LeftBrace, RightBrace, Comma, Fun, Colon,
];
#[no_mangle]
pub extern "C" fn h_c14_seq() {
    let n = 1 + pick(tier(8, 9));
    let ts = seq(&SET, n);
    let r = Ref { maps: false, juxt: false, ..Ref::new(leak(&ts)) };
    decide_expr(ts, r, 1, Rejects::Target);
    end()
}
/// Any expression of up to n tokens as the left side.
#[no_mangle]
pub extern "C" fn h_c14_left() {
    let n = 1 + pick(tier(5, 7));
    let mut ts = Vec::with_capacity(16);
    for i in 0..n { ts.push(tok(type_of(&LEFT), i)); }
    for t in [Equal, Identifier] { ts.push(tok(t, ts.len())); }
    ts.push(eof(ts.len()));
    let r = Ref::new(leak(&ts));
    decide_expr(ts, r, 1, Rejects::Target);
    end()
}
/// Every kind of expression as the left and the right side, in every place.
#[no_mangle]
pub extern "C" fn h_c14_nest() {
    use crate::nest::*;
    static SET: [&[TokenType]; 3] = [&[Eof, Equal, Number], &[Eof, Equal, Identifier, Equal, Number], &[Identifier, Equal, Eof, Equal, Number]];
    let ty = match pick(2) {
        0 => compose(&[one(&SFORM), one(&ECTX), one(&SET), one(&LEAF)]),
        _ => compose(&[one(&SFORM[..tier(14, 21)]), one(&SET), one(&ECTX), one(&LEAF)]),
    };
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    crate::refp::decide_program(ts, r, 1, Rejects::Target);
    end()
}
