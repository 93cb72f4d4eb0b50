//! Program shapes covering the whole grammar, as token words (see toks::words),
//! and their symbolic neighbourhoods.
use crate::sym::*;
use crate::toks::*;
use whitespace::token::{Token, TokenType};

pub static PROGRAMS: &[&str] = &[
    "var a = n + b NL print a NL",
    "var a NL var b = { k : n , s : m NL } NL",
    "var a = NL IN k : n NL m : s NL OUT",
    "print f (( a , n ) . b [ i ] NL",
    "f a , b , fun ( x ) { } NL",
    "a . b = c [ n ] = d = n NL",
    "if ( a ) print n NL else print s NL",
    "if ( a ) NL IN print n NL OUT else NL IN b NL OUT",
    "if ( a ) { b NL } else if ( c ) { d NL } else { }",
    "while ( a ) NL IN break NL continue NL OUT",
    "while ( a ) { if ( b ) break NL }",
    "for ( var i = n ; i < n ; i = i + n ) print i NL",
    "for ( ; ; ) { continue NL }",
    "for ( var i ; i ; ) NL IN print i NL OUT",
    "fun f ( a , b ) NL IN return a NL OUT f (( n , n ) NL",
    "fun f (( ) { return NL }",
    "class c < d NL IN init (( a ) NL IN this . a = a NL OUT class m (( ) { return n NL } OUT",
    "class c { m (( x ) { return super . m NL } }",
    "{ var a = n NL { a NL } }",
    "print - - a * ( b + n ) / ! c NL",
    "print a or b and c == d != e < g NL",
    "print [ n , [ ] , a ] NL",
    "var f = fun (( x , y ) NL IN return x - y NL OUT",
    "print { a : fun (( ) { } , s : { } } NL",
    "class c { m (( ) { } NL k (( ) { } NL } NL if ( a ) { } NL else { } NL a NL",
    "while ( a ) { if ( b ) { } NL break NL } NL fun f (( ) { } NL",
    "while ( a ) fun f (( ) { while ( b ) { break NL } return NL }",
];

/// One of the programs with `del` tokens from some place on replaced by `ins`
/// symbolic tokens.
pub fn neighbour(progs: &[&str], maxdel: usize, ins: usize) -> Vec<Token<'static>> {
    let p = words(progs[pick(progs.len())]);
    let del = pick(maxdel + 1);
    assume(del <= p.len());
    let at = pick(p.len() - del + 1);
    let mut ts = Vec::with_capacity(64);
    for k in 0..at { ts.push(tok(p[k], ts.len())); }
    for _ in 0..ins { let t: TokenType = any_type(); ts.push(tok(t, ts.len())); }
    for k in at + del..p.len() { ts.push(tok(p[k], ts.len())); }
    ts.push(eof(ts.len()));
    ts
}
