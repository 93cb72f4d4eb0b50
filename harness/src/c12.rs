//! C12: calls.
use crate::c10::{leak, seq};
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType, TokenType::*};

static SET: [TokenType; 12] = [Identifier, Number, LeftParen, LeftParenAbutting, RightParen, Comma, Minus, Star, Dot, Equal, LeftBracket, RightBracket];
static KINDS: [TokenType; 20] = [
    Identifier, Number, String, True, False, Nil, Super, This, Fun, LeftParen, LeftParenAbutting, RightParen, LeftBrace, RightBrace, Comma, Dot, Minus,
    Or, Terminator, Bang,
];
/// Every expression over calls of both forms.
#[no_mangle]
pub extern "C" fn h_c12_expr() {
    let n = 1 + pick(tier(7, 9));
    let ts = seq(&SET, n);
    let r = Ref { maps: false, ..Ref::new(leak(&ts)) };
    decide_expr(ts, r, 1, Rejects::No);
    end()
}
/// Every kind of token that can start an argument.
#[no_mangle]
pub extern "C" fn h_c12_kinds() {
    let n = 1 + pick(tier(7, 8));
    let ts = seq(&KINDS, n);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::No);
    end()
}
/// The tokens of n arguments or parameters, in one of five forms.
pub fn listing(n: usize, form: usize, extra: bool) -> Vec<Token<'static>> {
    let item = type_of(&[Identifier, Number]);
    let mut ty: Vec<TokenType> = Vec::with_capacity(600);
    let head: &[TokenType] = match form {
        0 => &[Identifier, LeftParenAbutting],
        1 => &[Identifier],
        2 => &[Fun, Identifier, LeftParen],
        3 => &[Class, Identifier, LeftBrace, Identifier, LeftParenAbutting],
        _ => &[Print, Fun, LeftParen],
    };
    ty.extend_from_slice(head);
    // the last item is symbolic in calls
    for i in 0..n {
        if i > 0 { ty.push(Comma); }
        ty.push(if form < 2 && i + 1 == n { item } else { Identifier });
    }
    // any token behind the last item
    if extra { ty.push(any_type()); }
    let tail: &[TokenType] = match form {
        0 => &[RightParen, Terminator],
        1 => &[Terminator],
        2 => &[RightParen, LeftBrace, RightBrace],
        3 => &[RightParen, LeftBrace, RightBrace, RightBrace],
        _ => &[RightParen, LeftBrace, RightBrace, Terminator],
    };
    ty.extend_from_slice(tail);
    let mut ts = Vec::with_capacity(600);
    for i in 0..ty.len() { ts.push(tok(ty[i], i)); }
    ts.push(eof(ty.len()));
    ts
}
/// Every number of arguments or parameters up to beyond the limit, in every
/// form.
#[no_mangle]
pub extern "C" fn h_c12_limit() {
    let n = pick(2) * 130 + pick(130);
    let form = pick(5);
    let ts = listing(n, form, false);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::TooMany);
    end()
}
/// Calls within calls and among everything else.
#[no_mangle]
pub extern "C" fn h_c12_nest() {
    use crate::nest::*;
    static CALLS: [&[TokenType]; 7] = [
        &[Identifier, LeftParenAbutting, Eof, RightParen],
        &[Identifier, LeftParenAbutting, Number, Comma, Eof, Comma, Identifier, RightParen],
        &[Identifier, Eof, Comma, Number],
        &[Identifier, Number, Comma, Eof],
        &[Identifier, LeftParen, Eof, RightParen, Comma, Number],
        &[Identifier, LeftParenAbutting, RightParen, LeftParenAbutting, Eof, RightParen],
        &[Identifier, Dot, Identifier, Eof],
    ];
    let ty = match pick(3) {
        0 => compose(&[one(&SFORM), one(&CALLS), one(&ECTX), one(&LEAF)]),
        1 => compose(&[one(&SFORM), one(&ECTX), one(&CALLS), one(&LEAF)]),
        _ => compose(&[one(&SCTX), one(&SFORM), one(&CALLS), one(&CALLS), one(&LEAF[..3])]),
    };
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::No);
    end()
}
