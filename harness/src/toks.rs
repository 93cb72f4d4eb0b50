//! Token sequences built from symbolic token types.
use crate::sym::*;
use whitespace::token::{Token, TokenType, TokenType::*};

pub const ALLTT: [TokenType; 47] = [
    Indent, Outdent, Terminator, LeftParen, LeftParenAbutting, RightParen, LeftBrace, RightBrace,
    LeftBracket, RightBracket, Colon, Comma, Dot, Minus, Plus, Semicolon, Slash, Star, Bang, BangEqual,
    Equal, EqualEqual, Greater, GreaterEqual, Less, LessEqual, Identifier, String, Number, And, Break,
    Class, Continue, Else, False, Fun, For, If, Nil, Or, Print, Return, Super, This, True, Var, While,
];
pub const NTT: usize = ALLTT.len();

/// The token type as a symbolic value: one table lookup, no branch.
pub fn any_type() -> TokenType { ALLTT[below(NTT)] }
pub fn type_of(set: &[TokenType]) -> TokenType { set[below(set.len())] }

static THIS: [[u8; 2]; 4] = [[0, b't'], [0, b'h'], [0, b'i'], [0, b's']];

/// The text of token i: "this" for the keyword, else a name of its own
/// (three letters and an x), so that every token can be told from every other.
pub fn unique(i: usize) -> [u8; 4] {
    if i < 676 { return [b'n', b'a' + (i / 26) as u8, b'a' + (i % 26) as u8, b'x']; }
    [b'o' + (i / 17576) as u8, b'a' + (i / 676 % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8]
}
/// A token of the given (possibly symbolic) type at place i of the sequence.
/// Its text, literals and position identify it.
pub fn tok(t: TokenType, i: usize) -> Token<'static> { tok_named(t, i, unique(i)) }
pub fn tok_named(t: TokenType, i: usize, name: [u8; 4]) -> Token<'static> {
    let is_this = (t == This) as usize;
    let mut b = Vec::with_capacity(4);
    for j in 0..4 {
        let row = [name[j], THIS[j][1]];
        b.push(row[is_this]);
    }
    let lex: &'static str = unsafe { std::str::from_utf8_unchecked(Vec::leak(b)) };
    let mut s = Vec::with_capacity(4);
    for j in 0..4 { s.push(name[j]); }
    let st: &'static str = unsafe { std::str::from_utf8_unchecked(Vec::leak(s)) };
    Token { token_type: t, lexeme: lex, string_literal: Some(st), float_literal: Some(i as f64 + 0.5), line: line_of(i), column: col_of(i) }
}
pub fn line_of(i: usize) -> u32 { 10 + i as u32 }
pub fn col_of(i: usize) -> u16 { 300 - 7 * (i as u16 % 40) }
pub fn eof(i: usize) -> Token<'static> {
    Token { token_type: Eof, lexeme: "", string_literal: None, float_literal: None, line: line_of(i), column: col_of(i) }
}
pub fn show(ts: &[Token]) {
    if showing() {
        for t in ts { eprint!("{:?}({}) ", t.token_type, t.lexeme); }
        eprintln!();
    }
}
/// Which token stands at this position.
pub fn at(line: u32, col: u16, i: usize) -> bool { line == line_of(i) && col == col_of(i) }

/// Words separated by blanks -> token types.  NL, IN, OUT are the layout
/// tokens, `f(` style abutting parentheses are written `((`; n is a number,
/// s a string, any other unknown word an identifier.
pub fn words(s: &str) -> Vec<TokenType> {
    let mut v = Vec::with_capacity(64);
    for w in s.split(' ') {
        if w.is_empty() { continue; }
        v.push(word(w));
    }
    v
}
pub fn word(w: &str) -> TokenType {
    match w {
        "NL" => Terminator, "IN" => Indent, "OUT" => Outdent,
        "(" => LeftParen, "((" => LeftParenAbutting, ")" => RightParen, "{" => LeftBrace, "}" => RightBrace,
        "[" => LeftBracket, "]" => RightBracket, ":" => Colon, "," => Comma, "." => Dot, "-" => Minus, "+" => Plus,
        ";" => Semicolon, "/" => Slash, "*" => Star, "!" => Bang, "!=" => BangEqual, "=" => Equal, "==" => EqualEqual,
        ">" => Greater, ">=" => GreaterEqual, "<" => Less, "<=" => LessEqual, "n" => Number, "s" => String,
        "and" => And, "break" => Break, "class" => Class, "continue" => Continue, "else" => Else, "false" => False,
        "fun" => Fun, "for" => For, "if" => If, "nil" => Nil, "or" => Or, "print" => Print, "return" => Return,
        "super" => Super, "this" => This, "true" => True, "var" => Var, "while" => While,
        _ => Identifier,
    }
}
