//! C10: statement forms.
use crate::refp::*;
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType, TokenType::*};

static STMT: [TokenType; 18] = [
    Identifier, Number, Print, Return, Var, If, Else, While, For, Semicolon, LeftBrace, RightBrace, Indent, Outdent, Terminator,
    LeftParen, RightParen, Equal,
];
pub fn seq(set: &[TokenType], n: usize) -> Vec<Token<'static>> {
    let mut ts = Vec::with_capacity(32);
    for i in 0..n { ts.push(tok(type_of(set), i)); }
    ts.push(eof(n));
    ts
}
pub fn leak(ts: &[Token<'static>]) -> &'static [Token<'static>] { ts.to_vec().leak() }

/// Every sequence over the statement tokens.
#[no_mangle]
pub extern "C" fn h_c10_seq() {
    let n = pick(tier(10, 12) + 1);
    let ts = seq(&STMT, n);
    let r = Ref { juxt: false, maps: false, ..Ref::new(leak(&ts)) };
    decide_program(ts, r, 1, Rejects::No);
    end()
}
/// Neighbourhoods of whole programs.
#[no_mangle]
pub extern "C" fn h_c10_near() {
    let ts = crate::corpus::neighbour(crate::corpus::PROGRAMS, 2, tier(2, 3));
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::All);
    end()
}
/// Statements nested in one another, every composition.
#[no_mangle]
pub extern "C" fn h_c10_nest() {
    use crate::nest::*;
    let ty = compose(&[one(&SCTX), one(&SCTX), one(if thorough() { &SCTX } else { &SCTX[..1] }), one(&SFORM), one(&LEAF[..1])]);
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::All);
    end()
}
/// Three statements, each within the one before, around another.
#[no_mangle]
pub extern "C" fn h_c10_deep() {
    use crate::nest::*;
    static WITHIN: [usize; 6] = [0, 3, 9, 14, 16, 17];
    let ty = compose(&[one(&SCTX), one(&SCTX), one(&SCTX), SFORM[WITHIN[pick(6)]], LEAF[pick(tier(1, 3))]]);
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::All);
    end()
}
