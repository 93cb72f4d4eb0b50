//! A reference scanner in three passes: characters, words, layout.  Written
//! from the language rules; works on (possibly symbolic) bytes.
use crate::sym::*;
use whitespace::error::ParseError;
use whitespace::scanner::Scanner;
use whitespace::token::{Token, TokenType, TokenType as T};

/// What a user-perceived character is for the scanner.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Class {
    /// one byte of ASCII; look at the byte
    Ascii,
    /// a carriage return and line feed
    CrLf,
    /// a letter outside ASCII (or with marks)
    Letter,
    /// continues a word but does not start one
    Mark,
    /// no token at all
    Other,
}
#[derive(Copy, Clone, Debug)]
pub struct Unit { pub at: usize, pub len: usize, pub class: Class }

/// The characters of an ASCII text.
pub fn units_of_ascii(b: &[u8]) -> Vec<Unit> {
    let mut v = Vec::with_capacity(b.len() + 1);
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
            v.push(Unit { at: i, len: 2, class: Class::CrLf });
            i += 2;
        } else {
            v.push(Unit { at: i, len: 1, class: Class::Ascii });
            i += 1;
        }
    }
    v
}

#[derive(Copy, Clone, Debug)]
pub struct RT { pub t: TokenType, pub s: usize, pub e: usize, pub line: u32, pub col: u32 }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Kind { Tok(TokenType), Space, Cr, Newline, Comment, Join, Wrong }
#[derive(Copy, Clone, Debug)]
struct Item { k: Kind, u0: usize, u1: usize, line: u32, col: u32 }

pub struct Scan {
    pub toks: Vec<RT>,
    /// places of the errors
    pub errs: Vec<(u32, u32)>,
    /// the text does something the properties do not speak about
    pub skip: bool,
    /// an error of the layout (not of a character) happened
    pub bad_layout: bool,
}

static WORDS: [(&str, TokenType); 18] = [
    ("and", T::And), ("break", T::Break), ("class", T::Class), ("continue", T::Continue), ("else", T::Else), ("false", T::False),
    ("for", T::For), ("fun", T::Fun), ("if", T::If), ("nil", T::Nil), ("or", T::Or), ("print", T::Print), ("return", T::Return),
    ("super", T::Super), ("this", T::This), ("true", T::True), ("var", T::Var), ("while", T::While),
];
pub fn word_type(w: &[u8]) -> TokenType {
    for (k, t) in WORDS.iter() {
        let k = k.as_bytes();
        if k.len() != w.len() { continue; }
        let mut same = true;
        for j in 0..k.len() { if k[j] != w[j] { same = false; break; } }
        if same { return *t; }
    }
    T::Identifier
}
pub fn joins(t: TokenType) -> bool {
    matches!(t, T::LeftParen | T::LeftParenAbutting | T::LeftBrace | T::LeftBracket | T::Comma | T::Colon | T::Dot | T::Plus | T::Minus
        | T::Star | T::Slash | T::Less | T::LessEqual | T::Greater | T::GreaterEqual)
}

struct Lex<'a> { b: &'a [u8], u: &'a [Unit], i: usize, line: u32, col: u32, items: Vec<Item>, odd: bool, unclosed: Option<(u32, u32)> }
impl<'a> Lex<'a> {
    /// The byte of the k-th character from here; 0 for anything not ASCII.
    fn at(&self, k: usize) -> u8 {
        match self.u.get(self.i + k) { Some(u) if u.class == Class::Ascii => self.b[u.at], Some(u) if u.class == Class::CrLf => b'\n', _ => 0 }
    }
    fn class(&self, k: usize) -> Option<Class> { self.u.get(self.i + k).map(|u| u.class) }
    fn in_word(&self, k: usize) -> bool {
        match self.class(k) {
            Some(Class::Ascii) => { let c = self.at(k); c.is_ascii_alphanumeric() || c == b'_' }
            Some(Class::Letter) | Some(Class::Mark) => true,
            _ => false,
        }
    }
    fn digit(&self, k: usize) -> bool { self.class(k) == Some(Class::Ascii) && self.at(k).is_ascii_digit() }
    fn emit(&mut self, k: Kind, n: usize) {
        self.items.push(Item { k, u0: self.i, u1: self.i + n, line: self.line, col: self.col });
        self.i += n;
        self.col += n as u32;
    }
    fn run(&mut self) {
        while self.i < self.u.len() {
            let cl = self.u[self.i].class;
            if cl == Class::Ascii || cl == Class::CrLf { self.ascii(); continue; }
            if cl == Class::Letter { self.word(); } else { self.emit(Kind::Wrong, 1); }
        }
    }
    fn word(&mut self) {
        let mut n = 1;
        while self.in_word(n) { n += 1; }
        let s = self.u[self.i].at;
        let l = self.u[self.i + n - 1];
        self.emit(Kind::Tok(word_type(&self.b[s..l.at + l.len])), n);
    }
    fn ascii(&mut self) {
        let eq = self.at(1) == b'=';
        match self.at(0) {
            b' ' => self.emit(Kind::Space, 1),
            b'\n' => { self.emit(Kind::Newline, 1); self.line += 1; self.col = 1; }
            b'\r' => self.emit(Kind::Cr, 1),
            b'(' => self.emit(Kind::Tok(T::LeftParen), 1),
            b')' => self.emit(Kind::Tok(T::RightParen), 1),
            b'{' => self.emit(Kind::Tok(T::LeftBrace), 1),
            b'}' => self.emit(Kind::Tok(T::RightBrace), 1),
            b'[' => self.emit(Kind::Tok(T::LeftBracket), 1),
            b']' => self.emit(Kind::Tok(T::RightBracket), 1),
            b':' => self.emit(Kind::Tok(T::Colon), 1),
            b',' => self.emit(Kind::Tok(T::Comma), 1),
            b'.' => self.emit(Kind::Tok(T::Dot), 1),
            b'-' => self.emit(Kind::Tok(T::Minus), 1),
            b'+' => self.emit(Kind::Tok(T::Plus), 1),
            b';' => self.emit(Kind::Tok(T::Semicolon), 1),
            b'*' => self.emit(Kind::Tok(T::Star), 1),
            b'!' => if eq { self.emit(Kind::Tok(T::BangEqual), 2) } else { self.emit(Kind::Tok(T::Bang), 1) },
            b'=' => if eq { self.emit(Kind::Tok(T::EqualEqual), 2) } else { self.emit(Kind::Tok(T::Equal), 1) },
            b'<' => if eq { self.emit(Kind::Tok(T::LessEqual), 2) } else { self.emit(Kind::Tok(T::Less), 1) },
            b'>' => if eq { self.emit(Kind::Tok(T::GreaterEqual), 2) } else { self.emit(Kind::Tok(T::Greater), 1) },
            b'/' => {
                if self.at(1) == b'/' {
                    let mut n = 2;
                    while self.i + n < self.u.len() && self.at(n) != b'\n' { n += 1; }
                    self.emit(Kind::Comment, n);
                } else { self.emit(Kind::Tok(T::Slash), 1) }
            }
            b'\\' => {
                let mut n = 1;
                while self.at(n) == b' ' { n += 1; }
                if self.at(n) == b'\n' {
                    self.emit(Kind::Join, n + 1);
                    self.line += 1;
                    self.col = 1;
                } else {
                    if self.at(n) == b'\r' { self.odd = true; }
                    self.emit(Kind::Wrong, 1);
                }
            }
            b'"' => {
                let (l0, c0, i0) = (self.line, self.col, self.i);
                self.i += 1;
                self.col += 1;
                loop {
                    if self.i >= self.u.len() {
                        // no closing quote: an error at the end of the text
                        self.unclosed = Some((self.line, self.col));
                        self.items.push(Item { k: Kind::Wrong, u0: i0, u1: self.i, line: self.line, col: self.col });
                        return;
                    }
                    let c = self.at(0);
                    self.i += 1;
                    self.col += 1;
                    if c == b'\n' { self.line += 1; self.col = 1; }
                    if c == b'"' { break; }
                }
                self.items.push(Item { k: Kind::Tok(T::String), u0: i0, u1: self.i, line: l0, col: c0 });
            }
            c => {
                if c.is_ascii_digit() {
                    let mut n = 1;
                    while self.digit(n) { n += 1; }
                    if self.at(n) == b'.' && self.digit(n + 1) {
                        n += 2;
                        while self.digit(n) { n += 1; }
                    }
                    self.emit(Kind::Tok(T::Number), n);
                } else if c.is_ascii_alphabetic() || c == b'_' { self.word(); }
                else { self.emit(Kind::Wrong, 1); }
            }
        }
    }
}

/// Scans by the rules.
pub fn scan(b: &[u8], u: &[Unit]) -> Scan {
    let mut lx = Lex { b, u, i: 0, line: 1, col: 1, items: Vec::with_capacity(b.len() + 1), odd: false, unclosed: None };
    lx.run();
    let (eline, ecol) = (lx.line, lx.col);
    let mut o = Scan { toks: Vec::with_capacity(b.len() + 4), errs: Vec::with_capacity(2), skip: lx.odd, bad_layout: false };
    let byte = |k: usize| if k < u.len() { u[k].at } else { b.len() };
    let mut open: Vec<u32> = Vec::with_capacity(4);
    // state of the current line and of the last line that had tokens
    let mut spaces = 0u32;
    let mut last: Option<TokenType> = None;
    let mut joined = false;
    let mut touching = false;
    for it in lx.items.iter() {
        let (s, e) = (byte(it.u0), byte(it.u1));
        match it.k {
            Kind::Space => { if last.is_none() { spaces += 1; } touching = false; }
            Kind::Cr | Kind::Comment => touching = false,
            Kind::Newline => {
                if let Some(t) = last {
                    if joins(t) { joined = true; } else {
                        o.toks.push(RT { t: T::Terminator, s, e, line: it.line, col: it.col });
                        joined = false;
                    }
                }
                last = None;
                spaces = 0;
                touching = false;
            }
            Kind::Join => { joined = true; last = None; spaces = 0; touching = false; }
            Kind::Wrong => {
                // a tab is white space as far as the layout is concerned
                let is_tab = u[it.u0].class == Class::Ascii && b[u[it.u0].at] == b'\t';
                o.errs.push((it.line, it.col));
                if !is_tab { o.skip |= last.is_none() && spaces != open.last().copied().unwrap_or(0); if last.is_none() { last = Some(T::Eof); } }
                touching = !is_tab;
            }
            Kind::Tok(t) => {
                if last.is_none() {
                    let cur = open.last().copied().unwrap_or(0);
                    if spaces > cur {
                        if !joined { open.push(spaces); o.toks.push(RT { t: T::Indent, s, e: s, line: it.line, col: it.col }); }
                    } else if spaces < cur {
                        if joined { o.skip = true; }
                        while let Some(x) = open.last() {
                            if *x <= spaces { break; }
                            open.pop();
                            o.toks.push(RT { t: T::Outdent, s, e: s, line: it.line, col: it.col });
                        }
                        if open.last().copied().unwrap_or(0) != spaces { o.errs.push((it.line, it.col)); o.bad_layout = true; }
                    }
                }
                let t = if t == T::LeftParen && touching { T::LeftParenAbutting } else { t };
                o.toks.push(RT { t, s, e, line: it.line, col: it.col });
                last = Some(t);
                touching = true;
            }
        }
    }
    for _ in open.iter() { o.toks.push(RT { t: T::Outdent, s: b.len(), e: b.len(), line: eline, col: ecol }); }
    o.toks.push(RT { t: T::Eof, s: b.len(), e: b.len(), line: eline, col: ecol });
    o
}
pub fn layout(t: TokenType) -> bool { matches!(t, T::Indent | T::Outdent | T::Terminator) }

/// Kinds of all tokens, layout included.
pub fn same_types(a: &Scan, b: &[Token]) -> bool {
    if a.toks.len() != b.len() { return false; }
    for i in 0..b.len() { if a.toks[i].t != b[i].token_type { return false; } }
    true
}
/// Kinds of the tokens that are not layout, and the text each one covers.
pub fn same_words(src: &str, a: &Scan, b: &[Token]) -> bool {
    let base = src.as_ptr() as usize;
    let mut j = 0;
    for r in a.toks.iter() {
        if layout(r.t) { continue; }
        while j < b.len() && layout(b[j].token_type) { j += 1; }
        if j == b.len() { return false; }
        let k = &b[j];
        if k.token_type != r.t { return false; }
        if r.t != T::Eof && (k.lexeme.as_ptr() as usize != base + r.s || k.lexeme.len() != r.e - r.s) { return false; }
        j += 1;
    }
    while j < b.len() && layout(b[j].token_type) { j += 1; }
    j == b.len()
}
/// Positions of all tokens (the kinds agree); texts of those not layout.
pub fn same_places(src: &str, a: &Scan, b: &[Token]) -> bool {
    if !same_types(a, b) { return false; }
    let base = src.as_ptr() as usize;
    for i in 0..b.len() {
        let (r, k) = (&a.toks[i], &b[i]);
        if k.line != r.line || k.column as u32 != r.col.min(65535) { return false; }
        if !layout(r.t) || r.t == T::Terminator {
            if k.lexeme.len() != r.e - r.s { return false; }
            if k.lexeme.as_ptr() as usize != base + r.s { return false; }
        }
    }
    true
}
pub fn show_text(s: &str, a: &Scan, r: &Result<Vec<Token>, ParseError>) {
    if showing() {
        eprintln!("source: {:?}", s);
        eprint!("rules:  ");
        for t in &a.toks { eprint!("{:?}@{}:{} ", t.t, t.line, t.col); }
        eprintln!(" errors {:?}", a.errs);
        eprint!("scanner: ");
        match r { Ok(v) => for t in v { eprint!("{:?}@{}:{} ", t.token_type, t.line, t.column) }, Err(e) => eprint!("{:?}", e) }
        eprintln!();
    }
}
/// Makes the keyword table, so that later runs only read it.
pub fn warm() { std::mem::forget(Scanner::new("a").scan_tokens()); }
pub fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
