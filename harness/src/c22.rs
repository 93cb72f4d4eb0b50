//! C22: the command line program.
use crate::sym::*;
use whitespace::error::ParseError;
use whitespace::parser;
use whitespace::resolver::Resolver;

/// What the program must print: for a file or for a session.
struct Want { out: Vec<u8>, err: Vec<(std::string::String, Option<std::string::String>, std::string::String)>, code: i32 }
static mut WANT: Option<Want> = None;
fn want() -> &'static Want { unsafe { (*std::ptr::addr_of!(WANT)).as_ref().unwrap() } }

fn causes(e: ParseError, w: &mut Want) {
    for c in e.causes { w.err.push((format!("{}:{}", c.source_loc.line, c.source_loc.column), c.token, c.message)); }
}
fn find(h: &[u8], from: usize, n: &[u8]) -> Option<usize> {
    let mut i = from;
    while i + n.len() <= h.len() { if &h[i..i + n.len()] == n { return Some(i + n.len()); } i += 1; }
    None
}
/// Compares what the program did.
fn judge(code: i32, out: &[u8], err: &[u8]) -> ! {
    let w = want();
    if showing() { eprintln!("expected: exit {} stdout {:?} stderr {:?}", w.code, text(&w.out), w.err); }
    if showing() { eprintln!("got: exit {} stdout {:?} stderr {:?}", code, text(out), text(err)); }
    check(code == w.code, 1);
    check(out.len() == w.out.len(), 2);
    check(out == &w.out[..], 3);
    // every cause with its place, in order, one line for each
    let mut at = 0;
    for (place, token, message) in &w.err {
        let mut end = at;
        while end < err.len() && err[end] != b'\n' { end += 1; }
        // a message may have line ends of its own
        let mut stop = end;
        while find(&err[at..stop], 0, message.as_bytes()).is_none() && stop < err.len() { stop += 1; while stop < err.len() && err[stop] != b'\n' { stop += 1; } }
        let line = &err[at..stop];
        check(find(line, 0, place.as_bytes()).is_some(), 4);
        check(find(line, 0, message.as_bytes()).is_some(), 5);
        if let Some(t) = token { check(find(line, 0, t.as_bytes()).is_some(), 6); }
        at = stop + 1;
    }
    check(at >= err.len(), 7);
    if w.err.is_empty() { reach(1); } else { reach(2); }
    digest(out.len() as u64);
    digest(w.err.len() as u64);
    end()
}
fn text(b: &[u8]) -> std::borrow::Cow<'_, str> { std::string::String::from_utf8_lossy(b) }

/// Runs the program on a file, or without one on lines.
#[cfg(symex)]
fn start(file: Option<&[u8]>, lines: &[u8], chunk: usize) -> ! {
    extern "C" {
        fn sym_io_setup(f: *const u8, fl: usize, i: *const u8, il: usize, exit: extern "C" fn(i32) -> !, chunk: usize);
        fn sym_io_out(which: u32, p: *mut u8, cap: usize) -> usize;
        fn main(argc: i32, argv: *const *const u8) -> i32;
    }
    extern "C" fn on_exit(code: i32) -> ! {
        let get = |k| unsafe {
            let n = sym_io_out(k, std::ptr::null_mut(), 0);
            let mut v: Vec<u8> = Vec::with_capacity(n + 1);
            sym_io_out(k, v.as_mut_ptr(), n);
            v.set_len(n);
            v
        };
        let (o, e) = (get(0), get(1));
        judge(code & 255, &o, &e)
    }
    let f = file.unwrap_or(b"");
    static A0: [u8; 11] = *b"whitespace\0";
    static A1: [u8; 5] = *b"file\0";
    let argv = [A0.as_ptr(), if file.is_some() { A1.as_ptr() } else { std::ptr::null() }, std::ptr::null()];
    unsafe {
        sym_io_setup(f.as_ptr(), f.len(), lines.as_ptr(), lines.len(), on_exit, chunk);
        let c = main(1 + file.is_some() as i32, argv.as_ptr());
        on_exit(c)
    }
}
/// The same with the real program.
#[cfg(not(symex))]
fn start(file: Option<&[u8]>, lines: &[u8], _chunk: usize) -> ! {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let prog = std::env::current_exe().unwrap().with_file_name("whitespace");
    // ended after a while if it hangs
    let mut c = Command::new("timeout");
    c.arg("12").arg(prog);
    let dir = std::env::current_dir().unwrap().join(format!("scratch.{}", std::process::id()));
    if let Some(f) = file {
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("file");
        std::fs::write(&p, f).unwrap();
        c.arg(&p);
    }
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let _ = ch.stdin.take().unwrap().write_all(lines);
    let o = ch.wait_with_output().unwrap();
    if file.is_some() { let _ = std::fs::remove_file(dir.join("file")); let _ = std::fs::remove_dir(&dir); }
    judge(o.status.code().unwrap_or(-1), &o.stdout, &o.stderr)
}

/// A file with this source.
pub fn on_file(s: &str, chunk: usize) -> ! {
    if showing() { eprintln!("file: {:?}", s); }
    let mut w = Want { out: Vec::new(), err: Vec::new(), code: 0 };
    let r = match parser::parse(s) { Ok(p) => { let mut rs = Resolver::new(); let r = rs.resolve(p); std::mem::forget(rs); r } Err(e) => Err(e) };
    match r {
        Ok(c) => { w.out = format!("{:#?}\n", c.statements).into_bytes(); std::mem::forget(c); }
        Err(e) => { causes(e, &mut w); w.code = 65; }
    }
    unsafe { WANT = Some(w); }
    start(Some(s.as_bytes()), b"", chunk)
}
/// A session of lines.
pub fn on_lines(lines: &str, chunk: usize) -> ! {
    if showing() { eprintln!("lines: {:?}", lines); }
    let mut w = Want { out: b"> ".to_vec(), err: Vec::new(), code: 0 };
    let mut rs = Resolver::new();
    let mut rest = lines;
    while !rest.is_empty() {
        let n = match rest.as_bytes().iter().position(|b| *b == b'\n') { Some(k) => k + 1, None => rest.len() };
        let (line, r) = rest.split_at(n);
        rest = r;
        let r = match parser::parse_repl_line(line) { Ok(p) => rs.resolve(p), Err(e) => Err(e) };
        match r {
            Ok(c) => { w.out.extend_from_slice(format!("{:#?}\n", c.statements).as_bytes()); std::mem::forget(c); }
            Err(e) => causes(e, &mut w),
        }
        w.out.extend_from_slice(b"> ");
    }
    std::mem::forget(rs);
    unsafe { WANT = Some(w); }
    start(None, lines.as_bytes(), chunk)
}
fn chunk() -> usize { [1 << 20, 1, 3][pick(3)] }

/// Files of any few characters.
#[no_mangle]
pub extern "C" fn h_c22_bytes() {
    let n = pick(tier(3, 4));
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    on_file(unsafe { std::str::from_utf8_unchecked(&b) }, 1 << 20)
}
/// Sources of every kind: accepted, with syntax errors, with errors of name
/// resolution, with several errors.
pub static SOURCES: [&str; 40] = [
    "", "\n", "// only a comment\n", "print 1\n", "print \"a\u{e9}\\b\n\"\n", "var a = 1.5\nprint a + b\n", "a", "a\n  b\n",
    "if (a)\n  print b\nelse\n  print c\n", "while (a) { break\n}\n", "for (var i = 0; i < 3; i = i + 1) print i\n",
    "fun f(a, b)\n  return a\nf(1, 2)\nf 1, 2\n", "class C < D\n  init(a)\n    this.a = a\n  class m() { return super.m\n  }\n",
    "var m = { a: 1, \"b\": [1, 2, nil, true, false] }\n", "a: 1\n", "var m =\n  a: 1\n  b: 2\n", "a.b = c[1] = -d or !e and f\n",
    "print fun(a) { return a\n}\n", "break\n", "return 1\n", "this\n", "super.a\n", "class C < C { }\n", "{ var a = a\n}\n",
    "{ var a = 1\nvar a = 2\n}\n", "print )\nprint (\n", "1 = 2\n3 = 4\n", "var\nvar\nvar 1\n", "\"abc", "#\n", "a\n   b\n  c\n", "print 1;\n",
    "fun f() { return\n}\nreturn\nthis\n", "x = y\r\nprint x\r\n", "print \u{e9}\n", "\tprint 1\n", "continue\nprint\n}\n", "class C { init() { return 1\n}\n}\n", "{ a: 1, a: 2 }\nprint { a: 1, a: 2 }\n",
    "print a +\n  b\nprint \\\n  c\n",
];
/// One of the sources, one of its characters replaced, or one put before it.
#[no_mangle]
pub extern "C" fn h_c22_sources() {
    let src = SOURCES[pick(SOURCES.len())];
    let s = edited(src);
    let c = if s.len() == src.len() { chunk() } else { 1 << 20 };
    on_file(&s, c)
}
static CHARS: [char; 12] = ['a', '1', ' ', '\n', '"', '(', ')', '{', '}', '=', '#', '+'];
fn edited(s: &str) -> std::string::String {
    let n = s.chars().count();
    let at = pick(n + 1);
    if at == n { return s.to_owned(); }
    let insert = thorough() && pick(2) == 1;
    let c = CHARS[pick(tier(6, 12)) * tier(2, 1)];
    let mut t = std::string::String::with_capacity(s.len() + 4);
    for (i, x) in s.chars().enumerate() {
        if i == at { t.push(c); if !insert { continue; } }
        t.push(x);
    }
    t
}
/// Two sources in one file.
#[no_mangle]
pub extern "C" fn h_c22_two() {
    let mut s = SOURCES[pick(SOURCES.len())].to_owned();
    s.push_str(SOURCES[pick(SOURCES.len())]);
    if thorough() { s.push_str(SOURCES[pick(SOURCES.len())]); }
    on_file(&s, 1 << 20)
}
/// Lines of a session.
static LINES: [&str; 28] = [
    "\n", "   \n", "// c\n", "a\n", "a", "print 1\n", "var a = 1\n", "var a = a\n", "fun f(a) { return a }\n", "class C { m() { this.a } }\n", "class D < D { }\n",
    "{ var a = 1; }\n", "{ var a = a }\n", "return 1\n", "this\n", "super.a\n", "print )\n", "1 = 2\n", "\"abc\n", "#\n", "break\n", "  a\n", "a: 1, b: 2\n", "\u{e9} + 1\r\n",
    "fun g() { { return this } }\n", "{ fun h(a, a) { } }\n", "print 2\r\n", "\r\n",
];
#[no_mangle]
pub extern "C" fn h_c22_session() {
    let n = pick(tier(4, 5));
    let mut s = std::string::String::with_capacity(128);
    for _ in 0..n { s.push_str(LINES[pick(if n > 2 { tier(14, 28) } else { LINES.len() }) * if n > 2 { tier(2, 1) } else { 1 } % LINES.len()]); }
    let c = if n < 3 { chunk() } else { 1 << 20 };
    on_lines(&s, c)
}
/// A line of any few characters between two others.
#[no_mangle]
pub extern "C" fn h_c22_typed() {
    let n = pick(tier(3, 4));
    let mut b: Vec<u8> = Vec::with_capacity(32);
    b.extend_from_slice(b"var a = 1\n");
    for _ in 0..n { b.push(below8(128)); }
    if pick(2) == 1 { b.extend_from_slice(b"\na = 2\n"); }
    on_lines(unsafe { std::str::from_utf8_unchecked(&b) }, 1 << 20)
}
/// Many lines.
#[no_mangle]
pub extern "C" fn h_c22_long() {
    let n = 20 + pick(tier(40, 300));
    let bad = pick(3);
    let file = pick(2) == 1;
    let c = chunk();
    let mut s = std::string::String::with_capacity(8192);
    for i in 0..n { s.push_str(if bad == 1 && i % 3 == 1 || bad == 2 && i + 1 == n { "print )\n" } else if i % 2 == 0 { "f(1, a.b)\n" } else { "var a = \"some text\"\n" }); }
    if file { on_file(&s, c) } else { on_lines(&s, c) }
}
/// Sizes around a power of two: comment lines, and a statement at the end.
#[no_mangle]
pub extern "C" fn h_c22_big() {
    budget(1 << 30);
    let size = [65535, 65536, 65537, 131071, 131072, 131073][pick(tier(3, 6))];
    let wide = pick(2) == 1;
    let good = pick(2) == 1;
    let file = pick(2) == 1;
    let end = if good { "print 12345\n" } else { "print )\n" };
    let mut s = std::string::String::with_capacity(size + 64);
    let n = if file { 509 } else { 16381 };
    while s.len() + 2 < size {
        let k = n.min(size - s.len() - 3);
        s.push_str("//");
        if wide && k > 3 && k % 2 == 1 { for _ in 0..k / 2 { s.push('\u{e9}'); } s.push('.') } else { for _ in 0..k { s.push('x'); } }
        s.push('\n');
    }
    s.push_str(end);
    on_file_or_lines(&s, file)
}
fn on_file_or_lines(s: &str, file: bool) -> ! { if file { on_file(s, 1 << 20) } else { on_lines(s, 1 << 20) } }
