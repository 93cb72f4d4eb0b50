//! C03: operator precedence and associativity.
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{TokenType, TokenType::*};

static FULL: [TokenType; 26] = [
    Identifier, Number, String, True, Nil, This, Minus, Plus, Slash, Star, Bang, BangEqual, EqualEqual, Greater, GreaterEqual, Less,
    LessEqual, And, Or, Equal, LeftParen, LeftParenAbutting, RightParen, Dot, LeftBracket, RightBracket,
];
/// One operator per level.
static LEVELS: [TokenType; 11] = [Identifier, Or, And, EqualEqual, Less, Minus, Star, Bang, Equal, LeftParen, RightParen];
static POST: [TokenType; 12] = [Identifier, Or, And, EqualEqual, Less, Minus, Star, Equal, LeftParenAbutting, RightParen, Dot, LeftBracket];

fn run(set: &[TokenType], n: usize, must_reject: Rejects) {
    let mut ts = Vec::with_capacity(16);
    for i in 0..n { ts.push(tok(type_of(set), i)); }
    ts.push(eof(n));
    let r = Ref { juxt: false, maps: false, ..Ref::new(&ts.clone().leak()[..]) };
    decide_expr(ts, r, 1, must_reject);
    end()
}
/// Every sequence over all operators.
#[no_mangle]
pub extern "C" fn h_c03_full() { let n = 1 + pick(tier(6, 7)); run(&FULL, n, Rejects::All) }
/// Longer sequences, one operator per level.
#[no_mangle]
pub extern "C" fn h_c03_levels() { let n = 7 + pick(tier(3, 5)); run(&LEVELS, n, Rejects::No) }
/// With calls, properties and elements.
#[no_mangle]
pub extern "C" fn h_c03_postfix() { let n = 6 + pick(tier(3, 4)); run(&POST, n, Rejects::No) }
/// Three expressions nested in one another, every composition.
#[no_mangle]
pub extern "C" fn h_c03_nest() {
    use crate::nest::*;
    let ty = compose(&[one(&ECTX), one(&ECTX), one(&ECTX), one(if thorough() { &LEAF } else { &LEAF[..3] })]);
    let ts = tokens(&ty);
    let r = Ref::new(crate::c10::leak(&ts));
    decide_expr(ts, r, 1, Rejects::All);
    end()
}
