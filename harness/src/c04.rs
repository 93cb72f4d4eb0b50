//! C04: indentation and blocks.
use crate::refs::*;
use crate::sym::*;
use whitespace::error::ParseError;
use whitespace::scanner::Scanner;
use whitespace::token::{Token, TokenType as T};

/// What the indentation of the lines asks for; None when a line goes back to
/// an indentation no open block has.
pub struct Blocks { pub open: Vec<usize>, pub ok: bool, pub bad_line: usize }
impl Blocks {
    pub fn new() -> Blocks { Blocks { open: Vec::with_capacity(8), ok: true, bad_line: 0 } }
    /// (closed, opened) before a line of this indentation.
    pub fn line(&mut self, ind: usize, no: usize) -> (usize, usize) {
        let mut closed = 0;
        let mut any = false;
        loop {
            match self.open.last() { Some(x) if *x > ind => { self.open.pop(); closed += 1; any = true; } _ => break }
        }
        let top = self.open.last().copied().unwrap_or(0);
        if ind > top {
            if any { if self.ok { self.bad_line = no; } self.ok = false; (closed, 0) } else { self.open.push(ind); (closed, 1) }
        } else { (closed, 0) }
    }
}
/// Each line is `width` characters, the first `ind` of which are blank; the
/// rest is one word.
pub fn check_lines(b: &[u8], inds: &[usize], r: &Result<Vec<Token>, ParseError>) {
    let mut bl = Blocks::new();
    let mut want: Vec<T> = Vec::with_capacity(64);
    for (k, i) in inds.iter().enumerate() {
        let (c, o) = bl.line(*i, k + 1);
        for _ in 0..c { want.push(T::Outdent); }
        for _ in 0..o { want.push(T::Indent); }
        want.push(T::Identifier);
        if k + 1 < inds.len() || b[b.len() - 1] == b'\n' { want.push(T::Terminator); }
    }
    for _ in 0..bl.open.len() { want.push(T::Outdent); }
    want.push(T::Eof);
    match r {
        Ok(v) => {
            reach(1);
            check(bl.ok, 1);
            check(v.len() == want.len(), 2);
            for i in 0..v.len() { check(v[i].token_type == want[i], 3); }
            digest(v.len() as u64);
        }
        Err(e) => {
            reach(2);
            check(!bl.ok, 4);
            check(!e.causes.is_empty() && e.causes[0].source_loc.line as usize == bl.bad_line, 5);
            digest(e.causes.len() as u64);
        }
    }
}
pub fn show_lines(s: &str, r: &Result<Vec<Token>, ParseError>) {
    if showing() {
        eprintln!("source:\n{}", s);
        match r { Ok(v) => for t in v { eprint!("{:?} ", t.token_type) }, Err(e) => eprint!("{:?}", e) }
        eprintln!();
    }
}
fn run(prefix: usize, lines: usize, maxind: usize, newline_at_end: bool) {
    let mut b: Vec<u8> = Vec::with_capacity((prefix + maxind + 2) * lines + 1);
    let mut inds = Vec::with_capacity(lines);
    for k in 0..lines {
        // the first line stays outside of all blocks
        let i = if k == 0 && prefix > 0 { b.push(b'a'); b.push(b'\n'); inds.push(0); continue } else { below(maxind + 1) };
        for _ in 0..prefix { b.push(b' '); }
        for j in 0..maxind { b.push(if j < i { b' ' } else { b'a' }); }
        b.push(b'a');
        if k + 1 < lines || newline_at_end { b.push(b'\n'); }
        inds.push(prefix + i);
    }
    let s = text(&b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    show_lines(s, &r);
    check_lines(&b, &inds, &r);
    std::mem::forget(r);
    end()
}
#[no_mangle]
pub extern "C" fn h_c04_lines() {
    warm();
    let n = 1 + pick(tier(6, 7));
    let end = pick(2) == 1;
    run(0, n, 5, end)
}
/// Indentations around the size of a byte.
#[no_mangle]
pub extern "C" fn h_c04_deep() {
    warm();
    let p = [126, 253, 254, 255][pick(4)];
    let n = 2 + pick(tier(3, 3));
    run(p, n, 3, true)
}
/// Blank lines, comments and continued lines between.
#[no_mangle]
pub extern "C" fn h_c04_mixed() {
    warm();
    let n = 2 + pick(tier(3, 4));
    let mut b: Vec<u8> = Vec::with_capacity(64);
    let mut want: Vec<T> = Vec::with_capacity(32);
    let mut bl = Blocks::new();
    let mut cont = false;
    let mut last = 0;
    for k in 0..n {
        let i = below(4);
        let kind = pick(5);
        for j in 0..3 { if kind == 1 { b.push(b' ') } else { b.push(if j < i { b' ' } else if kind == 2 { b'/' } else { b'a' }); } }
        match kind {
            // a line of blanks
            1 => b.push(b'\n'),
            // a comment
            2 => b.extend_from_slice(b"// c\n"),
            // plain, joined, outside of brackets
            _ => {
                if cont { assume(i >= last_indent(&bl)); } else {
                    let (c, o) = bl.line(i, k + 1);
                    for _ in 0..c { want.push(T::Outdent); }
                    for _ in 0..o { want.push(T::Indent); }
                }
                want.push(T::Identifier);
                match kind {
                    3 => { b.extend_from_slice(b"a+\n"); want.push(T::Plus); cont = true; }
                    4 => { b.extend_from_slice(b"a \\\n"); cont = true; }
                    _ => { b.extend_from_slice(b"a\n"); want.push(T::Terminator); cont = false; }
                }
                last = k;
            }
        }
    }
    let _ = last;
    for _ in 0..bl.open.len() { want.push(T::Outdent); }
    want.push(T::Eof);
    let s = text(&b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    show_lines(s, &r);
    match &r {
        Ok(v) => {
            reach(1);
            check(bl.ok, 1);
            check(v.len() == want.len(), 2);
            for i in 0..v.len() { check(v[i].token_type == want[i], 3); }
            digest(v.len() as u64);
        }
        Err(e) => { reach(2); check(!bl.ok, 4); check(!e.causes.is_empty() && e.causes[0].source_loc.line as usize == bl.bad_line, 5); }
    }
    std::mem::forget(r);
    end()
}
fn last_indent(b: &Blocks) -> usize { b.open.last().copied().unwrap_or(0) }
/// Many blocks in one another, then a line at any indentation, then another.
#[no_mangle]
pub extern "C" fn h_c04_levels() {
    warm();
    let n = 1 + pick(tier(40, 130));
    let step = 1 + pick(2);
    let back = pick(n * step + 2);
    let again = pick(3);
    let mut b: Vec<u8> = Vec::with_capacity(n * (n * step + 3) + 64);
    let mut inds = Vec::with_capacity(n + 4);
    let line = |i: usize, b: &mut Vec<u8>, inds: &mut Vec<usize>| { for _ in 0..i { b.push(b' '); } b.extend_from_slice(b"a\n"); inds.push(i); };
    for k in 0..n { line(k * step, &mut b, &mut inds); }
    line(back, &mut b, &mut inds);
    if again > 0 { line(if again == 1 { back + 1 } else { 0 }, &mut b, &mut inds); }
    let s = text(&b);
    let mut sc = Scanner::new(s);
    let r = sc.scan_tokens();
    show_lines(s, &r);
    check_lines(&b, &inds, &r);
    std::mem::forget(r);
    end()
}
