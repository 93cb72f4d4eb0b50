//! Programs composed of nested templates.  Eof marks the hole of a template.
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType, TokenType::*};

/// Statements around a statement.
pub static SCTX: [&[TokenType]; 25] = [
    // @
    &[Eof],
    // { @ }
    &[LeftBrace, Eof, RightBrace],
    // @ a NL
    &[Eof, Identifier, Terminator],
    // a NL @
    &[Identifier, Terminator, Eof],
    // if ( n ) { @ }
    &[If, LeftParen, Number, RightParen, LeftBrace, Eof, RightBrace],
    // if ( n ) NL IN @ OUT
    &[If, LeftParen, Number, RightParen, Terminator, Indent, Eof, Outdent],
    // if ( n ) @
    &[If, LeftParen, Number, RightParen, Eof],
    // if ( n ) { } else { @ }
    &[If, LeftParen, Number, RightParen, LeftBrace, RightBrace, Else, LeftBrace, Eof, RightBrace],
    // if ( n ) NL IN a NL OUT else NL IN @ OUT
    &[If, LeftParen, Number, RightParen, Terminator, Indent, Identifier, Terminator, Outdent, Else, Terminator, Indent, Eof, Outdent],
    // if ( n ) a NL else @
    &[If, LeftParen, Number, RightParen, Identifier, Terminator, Else, Eof],
    // if ( n ) { } else if ( n ) { @ }
    &[If, LeftParen, Number, RightParen, LeftBrace, RightBrace, Else, If, LeftParen, Number, RightParen, LeftBrace, Eof, RightBrace],
    // if ( n ) { @ } else a NL
    &[If, LeftParen, Number, RightParen, LeftBrace, Eof, RightBrace, Else, Identifier, Terminator],
    // while ( n ) { @ }
    &[While, LeftParen, Number, RightParen, LeftBrace, Eof, RightBrace],
    // while ( n ) NL IN @ OUT
    &[While, LeftParen, Number, RightParen, Terminator, Indent, Eof, Outdent],
    // while ( n ) @
    &[While, LeftParen, Number, RightParen, Eof],
    // for ( ; ; ) { @ }
    &[For, LeftParen, Semicolon, Semicolon, RightParen, LeftBrace, Eof, RightBrace],
    // for ( var i = n ; i ; i = n ) NL IN @ OUT
    &[For, LeftParen, Var, Identifier, Equal, Number, Semicolon, Identifier, Semicolon, Identifier, Equal, Number, RightParen, Terminator, Indent, Eof, Outdent],
    // for ( i ; ; i ) @
    &[For, LeftParen, Identifier, Semicolon, Semicolon, Identifier, RightParen, Eof],
    // for ( ; n ; i ) { a NL @ }
    &[For, LeftParen, Semicolon, Number, Semicolon, Identifier, RightParen, LeftBrace, Identifier, Terminator, Eof, RightBrace],
    // fun f ( a ) { @ }
    &[Fun, Identifier, LeftParen, Identifier, RightParen, LeftBrace, Eof, RightBrace],
    // fun f (( ) NL IN @ OUT
    &[Fun, Identifier, LeftParenAbutting, RightParen, Terminator, Indent, Eof, Outdent],
    // class c { m (( ) { @ } }
    &[Class, Identifier, LeftBrace, Identifier, LeftParenAbutting, RightParen, LeftBrace, Eof, RightBrace, RightBrace],
    // class c < d NL IN class m (( ) NL IN @ OUT k (( a ) { } OUT
    &[Class, Identifier, Less, Identifier, Terminator, Indent, Class, Identifier, LeftParenAbutting, RightParen, Terminator, Indent, Eof, Outdent, Identifier, LeftParenAbutting, Identifier, RightParen, LeftBrace, RightBrace, Outdent],
    // print fun ( ) { @ } NL
    &[Print, Fun, LeftParen, RightParen, LeftBrace, Eof, RightBrace, Terminator],
    // f fun ( a , b ) { @ } , a NL
    &[Identifier, Fun, LeftParen, Identifier, Comma, Identifier, RightParen, LeftBrace, Eof, RightBrace, Comma, Identifier, Terminator],
];
/// Statements around an expression, and some without.
pub static SFORM: [&[TokenType]; 21] = [
    // @ NL
    &[Eof, Terminator],
    // print @ NL
    &[Print, Eof, Terminator],
    // return @ NL
    &[Return, Eof, Terminator],
    // var x = @ NL
    &[Var, Identifier, Equal, Eof, Terminator],
    // if ( @ ) a NL
    &[If, LeftParen, Eof, RightParen, Identifier, Terminator],
    // while ( @ ) a NL
    &[While, LeftParen, Eof, RightParen, Identifier, Terminator],
    // for ( @ ; a ; b ) c NL
    &[For, LeftParen, Eof, Semicolon, Identifier, Semicolon, Identifier, RightParen, Identifier, Terminator],
    // for ( a ; @ ; b ) c NL
    &[For, LeftParen, Identifier, Semicolon, Eof, Semicolon, Identifier, RightParen, Identifier, Terminator],
    // for ( a ; b ; @ ) c NL
    &[For, LeftParen, Identifier, Semicolon, Identifier, Semicolon, Eof, RightParen, Identifier, Terminator],
    // for ( var i = @ ; ; ) { }
    &[For, LeftParen, Var, Identifier, Equal, Eof, Semicolon, Semicolon, RightParen, LeftBrace, RightBrace],
    // var x = NL IN k : @ NL OUT
    &[Var, Identifier, Equal, Terminator, Indent, Identifier, Colon, Eof, Terminator, Outdent],
    // f @ NL
    &[Identifier, Eof, Terminator],
    // k : @ NL
    &[Identifier, Colon, Eof, Terminator],
    // k : n NL m : @ NL
    &[Identifier, Colon, Number, Terminator, Identifier, Colon, Eof, Terminator],
    // break NL
    &[Break, Terminator],
    // continue NL
    &[Continue, Terminator],
    // return NL
    &[Return, Terminator],
    // { }
    &[LeftBrace, RightBrace],
    // fun f ( ) { }
    &[Fun, Identifier, LeftParen, RightParen, LeftBrace, RightBrace],
    // class c { }
    &[Class, Identifier, LeftBrace, RightBrace],
    // var x NL
    &[Var, Identifier, Terminator],
];
/// Expressions around an expression.
pub static ECTX: [&[TokenType]; 38] = [
    // @
    &[Eof],
    // - @
    &[Minus, Eof],
    // ! @
    &[Bang, Eof],
    // @ + n
    &[Eof, Plus, Number],
    // n - @
    &[Number, Minus, Eof],
    // @ * n
    &[Eof, Star, Number],
    // n / @
    &[Number, Slash, Eof],
    // @ < n
    &[Eof, Less, Number],
    // n >= @
    &[Number, GreaterEqual, Eof],
    // @ == n
    &[Eof, EqualEqual, Number],
    // n != @
    &[Number, BangEqual, Eof],
    // @ and n
    &[Eof, And, Number],
    // n and @
    &[Number, And, Eof],
    // @ or n
    &[Eof, Or, Number],
    // n or @
    &[Number, Or, Eof],
    // x = @
    &[Identifier, Equal, Eof],
    // x . p = @
    &[Identifier, Dot, Identifier, Equal, Eof],
    // x [ n ] = @
    &[Identifier, LeftBracket, Number, RightBracket, Equal, Eof],
    // x [ @ ] = n
    &[Identifier, LeftBracket, Eof, RightBracket, Equal, Number],
    // @ = n
    &[Eof, Equal, Number],
    // ( @ )
    &[LeftParen, Eof, RightParen],
    // f (( @ )
    &[Identifier, LeftParenAbutting, Eof, RightParen],
    // f (( n , @ )
    &[Identifier, LeftParenAbutting, Number, Comma, Eof, RightParen],
    // f (( @ , n )
    &[Identifier, LeftParenAbutting, Eof, Comma, Number, RightParen],
    // f @ , n
    &[Identifier, Eof, Comma, Number],
    // f n , @
    &[Identifier, Number, Comma, Eof],
    // @ . p
    &[Eof, Dot, Identifier],
    // @ [ n ]
    &[Eof, LeftBracket, Number, RightBracket],
    // x [ @ ]
    &[Identifier, LeftBracket, Eof, RightBracket],
    // @ (( n )
    &[Eof, LeftParenAbutting, Number, RightParen],
    // @ (( )
    &[Eof, LeftParenAbutting, RightParen],
    // [ @ ]
    &[LeftBracket, Eof, RightBracket],
    // [ n , @ , ]
    &[LeftBracket, Number, Comma, Eof, Comma, RightBracket],
    // { k : @ }
    &[LeftBrace, Identifier, Colon, Eof, RightBrace],
    // { k : n , m : @ }
    &[LeftBrace, Identifier, Colon, Number, Comma, Identifier, Colon, Eof, RightBrace],
    // { k : @ NL m : n , }
    &[LeftBrace, Identifier, Colon, Eof, Terminator, Identifier, Colon, Number, Comma, RightBrace],
    // fun ( ) { @ NL }
    &[Fun, LeftParen, RightParen, LeftBrace, Eof, Terminator, RightBrace],
    // fun (( a , b ) NL IN return @ NL OUT
    &[Fun, LeftParenAbutting, Identifier, Comma, Identifier, RightParen, Terminator, Indent, Return, Eof, Terminator, Outdent],
];
/// Expressions.
pub static LEAF: [&[TokenType]; 12] = [
    // x
    &[Identifier],
    // n
    &[Number],
    // s
    &[String],
    // true
    &[True],
    // nil
    &[Nil],
    // this
    &[This],
    // super . m
    &[Super, Dot, Identifier],
    // ( x )
    &[LeftParen, Identifier, RightParen],
    // { }
    &[LeftBrace, RightBrace],
    // [ ]
    &[LeftBracket, RightBracket],
    // fun ( ) { }
    &[Fun, LeftParen, RightParen, LeftBrace, RightBrace],
    // f x
    &[Identifier, Identifier],
];
/// Loops and functions with something after the hole.
pub static AFTER: [&[TokenType]; 5] = [
    // while ( n ) { @ break NL }
    &[While, LeftParen, Number, RightParen, LeftBrace, Eof, Break, Terminator, RightBrace],
    // for ( ; ; ) NL IN @ continue NL OUT
    &[For, LeftParen, Semicolon, Semicolon, RightParen, Terminator, Indent, Eof, Continue, Terminator, Outdent],
    // @ break NL
    &[Eof, Break, Terminator],
    // fun f (( ) { @ continue NL }
    &[Fun, Identifier, LeftParenAbutting, RightParen, LeftBrace, Eof, Continue, Terminator, RightBrace],
    // while ( n ) { if ( n ) @ break NL }
    &[While, LeftParen, Number, RightParen, LeftBrace, If, LeftParen, Number, RightParen, Eof, Break, Terminator, RightBrace],
];

fn put(v: &mut Vec<TokenType>, parts: &[&[TokenType]]) {
    if parts.is_empty() { return; }
    for t in parts[0] { if *t == Eof { put(v, &parts[1..]) } else { v.push(*t) } }
}
/// The templates, each put into the hole of the one before.
pub fn compose(parts: &[&[TokenType]]) -> Vec<TokenType> {
    let mut v = Vec::with_capacity(96);
    put(&mut v, parts);
    v
}
pub fn tokens(ty: &[TokenType]) -> Vec<Token<'static>> {
    let mut ts = Vec::with_capacity(ty.len() + 1);
    for i in 0..ty.len() { ts.push(tok(ty[i], i)); }
    ts.push(eof(ty.len()));
    ts
}
pub fn one(set: &[&'static [TokenType]]) -> &'static [TokenType] { set[pick(set.len())] }
/// One of several sets, by place.
pub fn of(a: &[&'static [TokenType]], b: &[&'static [TokenType]]) -> &'static [TokenType] {
    let k = pick(a.len() + b.len());
    if k < a.len() { a[k] } else { b[k - a.len()] }
}
/// The composed tokens, one of them replaced by any token, or removed, or any
/// token put before it.
pub fn disturbed(ty: &[TokenType]) -> Vec<Token<'static>> {
    let at = pick(ty.len());
    let how = pick(3);
    let mut ts = Vec::with_capacity(ty.len() + 2);
    for i in 0..ty.len() {
        if i == at {
            if how < 2 { let t = any_type(); ts.push(tok(t, ts.len())); }
            if how == 0 { continue; }
            if how == 2 { continue; }
        }
        ts.push(tok(ty[i], ts.len()));
    }
    ts.push(eof(ts.len()));
    ts
}

/// A composed program whose identifiers are two names, in one of several
/// patterns.
pub fn named() -> Vec<Token<'static>> {
    static PATTERNS: [u32; 8] = [0, 0xaaaa_aaaa, 0xcccc_cccc, 0x9249_2492, 0x7777_7776, 0x1111_1110, 0xf0f0_f0f0, 0x2492_4924];
    let ty = if pick(2) == 0 {
        compose(&[one(&SCTX), one(&SCTX), one(&SFORM), one(&LEAF[..tier(1, 12)])])
    } else {
        compose(&[one(if thorough() { &SCTX } else { &SCTX[..12] }), one(&SFORM), one(&ECTX), one(&LEAF)])
    };
    let p = PATTERNS[pick(tier(4, 8))];
    let mut ts = Vec::with_capacity(ty.len() + 1);
    let mut k = 0;
    for i in 0..ty.len() {
        if ty[i] == Identifier {
            ts.push(tok_named(ty[i], i, if p >> (k % 32) & 1 == 1 { *b"bbbx" } else { *b"aaax" }));
            k += 1;
        } else { ts.push(tok(ty[i], i)); }
    }
    ts.push(eof(ty.len()));
    ts
}

/// Functions as expressions, around statements.
pub static FEXPR: [&[TokenType]; 4] = [
    // fun ( ) { @ }
    &[Fun, LeftParen, RightParen, LeftBrace, Eof, RightBrace],
    // f (( fun (( a ) NL IN @ OUT , n )
    &[Identifier, LeftParenAbutting, Fun, LeftParenAbutting, Identifier, RightParen, Terminator, Indent, Eof, Outdent, Comma, Number, RightParen],
    // ( fun ( ) { @ } )
    &[LeftParen, Fun, LeftParen, RightParen, LeftBrace, Eof, RightBrace, RightParen],
    // [ fun ( a , b ) { @ } , n ]
    &[LeftBracket, Fun, LeftParen, Identifier, Comma, Identifier, RightParen, LeftBrace, Eof, RightBrace, Comma, Number, RightBracket],
];
/// What such a function does.
pub static DOES: [&[TokenType]; 8] = [
    &[],
    &[Identifier, Terminator],
    &[Break, Terminator],
    &[Continue, Terminator],
    &[Return, Terminator],
    // while ( n ) { break NL }
    &[While, LeftParen, Number, RightParen, LeftBrace, Break, Terminator, RightBrace],
    // for ( ; ; ) NL IN continue NL OUT break NL
    &[For, LeftParen, Semicolon, Semicolon, RightParen, Terminator, Indent, Continue, Terminator, Outdent, Break, Terminator],
    // while ( n ) a NL continue NL
    &[While, LeftParen, Number, RightParen, Identifier, Terminator, Continue, Terminator],
];
