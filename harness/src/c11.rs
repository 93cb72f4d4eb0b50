//! C11: break and continue exactly inside a loop of their function.
use crate::c10::{leak, seq};
use crate::refp::*;
use crate::sym::*;
use whitespace::token::{TokenType, TokenType::*};

static SET: [TokenType; 12] = [While, If, Else, Fun, Identifier, LeftParen, RightParen, LeftBrace, RightBrace, Break, Continue, Terminator];
static SET2: [TokenType; 14] = [While, For, Semicolon, Class, Fun, Identifier, LeftParen, RightParen, LeftBrace, RightBrace, Indent, Outdent, Break, Terminator];

/// Every sequence over braced statements, loops, functions.
#[no_mangle]
pub extern "C" fn h_c11_seq() {
    let n = 2 + pick(tier(12, 14));
    let ts = seq(&SET, n);
    let r = Ref { juxt: false, maps: false, ..Ref::new(leak(&ts)) };
    decide_program(ts, r, 1, Rejects::Stray);
    end()
}
/// With for loops, classes and indented blocks.
#[no_mangle]
pub extern "C" fn h_c11_seq2() {
    let n = 2 + pick(tier(12, 14));
    let ts = seq(&SET2, n);
    let r = Ref { juxt: false, maps: false, ..Ref::new(leak(&ts)) };
    decide_program(ts, r, 1, Rejects::Stray);
    end()
}
/// A break or continue within, or after, up to three nested statements.
#[no_mangle]
pub extern "C" fn h_c11_nest() {
    use crate::nest::*;
    let ty = compose(&[of(&SCTX, &AFTER), of(&SCTX, &AFTER), of(&SCTX, &AFTER), if thorough() { of(&SCTX, &AFTER) } else { &SCTX[0] }, one(&SFORM[14..17])]);
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::Stray);
    end()
}
/// A function in the expression of a statement, in loops and functions with a
/// break or continue behind.
#[no_mangle]
pub extern "C" fn h_c11_heads() {
    use crate::nest::*;
    static OUTER: [usize; 8] = [0, 1, 4, 12, 16, 19, 21, 24];
    let outer = if thorough() { of(&SCTX, &AFTER) } else { SCTX[OUTER[pick(8)]] };
    let ty = compose(&[outer, one(&AFTER), one(&SFORM[..14]), one(&FEXPR), one(&DOES)]);
    let ts = tokens(&ty);
    let r = Ref::new(leak(&ts));
    decide_program(ts, r, 1, Rejects::Stray);
    end()
}
