//! C23: the value given to JavaScript mirrors the library's tree.
use std::string::String;
use wasm_bindgen::{Js, JsValue};
use wsharness::nest::*;
use wsharness::sym::*;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::error::ParseError;
use whitespace::source_loc::SourceLoc;
use whitespace::token::TokenType::{self, *};

// ---- the oracle: is this JavaScript value this part of the tree?
fn prop<'a>(v: &'a JsValue, n: usize, name: &str) -> &'a JsValue {
    if let Js::Object(o) = &v.0 {
        check(o.len() == n, 10);
        for (k, x) in o { if k == name { return x; } }
    }
    check(false, 11);
    v
}
fn is_str(v: &JsValue, s: &str) { if let Js::Str(t) = &v.0 { check(t == s, 12) } else { check(false, 13) } }
fn is_num(v: &JsValue, n: f64) { if let Js::Number(m) = &v.0 { check(m.to_bits() == n.to_bits(), 14) } else { check(false, 15) } }
fn is_loc(v: &JsValue, l: &SourceLoc) {
    is_num(prop(v, 2, "line"), l.line as f64);
    is_num(prop(v, 2, "column"), l.column as f64);
}
fn is_var(v: &JsValue, l: VarLoc) {
    let mut d = 0u16;
    while VarLoc::new(d, l.index()) != l { d += 1; }
    is_num(prop(v, 2, "distance"), d as f64);
    is_num(prop(v, 2, "index"), l.index() as f64);
}
fn is_slot(v: &JsValue, l: SlotIndex) { is_num(v, l.index() as f64) }
fn elems(v: &JsValue, n: usize) -> &[JsValue] {
    if let Js::Array(a) = &v.0 { check(a.len() == n, 16); a } else { check(false, 17); &[] }
}
/// {type: name, args: ...}
fn node<'a>(v: &'a JsValue, name: &str) -> &'a JsValue {
    is_str(prop(v, 2, "type"), name);
    prop(v, 2, "args")
}
fn tuple<'a>(v: &'a JsValue, name: &str, n: usize) -> &'a [JsValue] { elems(node(v, name), n) }
fn is_stmts(v: &JsValue, ss: &[Stmt]) {
    let a = elems(v, ss.len());
    for i in 0..ss.len() { is_stmt(&a[i], &ss[i]); }
}
fn is_exprs(v: &JsValue, es: &[Expr]) {
    let a = elems(v, es.len());
    for i in 0..es.len() { is_expr(&a[i], &es[i]); }
}
fn is_fun(v: &JsValue, f: &FunctionDefinition) {
    let ps = elems(prop(v, 4, "parameters"), f.parameters.len());
    for (p, q) in ps.iter().zip(&f.parameters) {
        is_str(prop(p, 2, "name"), &q.name);
        is_loc(prop(p, 2, "source_loc"), &q.source_loc);
    }
    is_stmts(prop(v, 4, "body"), &f.body);
    is_str(prop(v, 4, "fun_type"), match f.fun_type {
        FunctionType::PlainFunction => "PlainFunction",
        FunctionType::Method => "Method",
        FunctionType::Initializer => "Initializer",
        FunctionType::ClassMethod => "ClassMethod",
    });
    is_loc(prop(v, 4, "source_loc"), &f.source_loc);
}
fn is_named(v: &JsValue, f: &NamedFunctionDefinition) {
    is_str(prop(v, 2, "name"), &f.name);
    is_fun(prop(v, 2, "fun_def"), &f.fun_def);
}
fn is_stmt(v: &JsValue, s: &Stmt) {
    match s {
        Stmt::Block(b) => { is_stmts(node(v, "Block"), b); reach(101) }
        Stmt::Break(l) => { is_loc(node(v, "Break"), l); reach(102) }
        Stmt::Class(c) => {
            let o = node(v, "Class");
            // an absent property is undefined as well
            let n = match &o.0 { Js::Object(f) if c.superclass.is_none() && !f.iter().any(|x| x.0 == "superclass") => 3, _ => 4 };
            is_str(prop(o, n, "name"), &c.name);
            match &c.superclass { Some(e) => is_expr(prop(o, 4, "superclass"), e), None => check(n == 3 || matches!(prop(o, 4, "superclass").0, Js::Undefined), 18) }
            let ms = elems(prop(o, n, "methods"), c.methods.len());
            for (m, n) in ms.iter().zip(&c.methods) { is_named(m, n); }
            is_loc(prop(o, n, "source_loc"), &c.source_loc);
            reach(103)
        }
        Stmt::Continue(l) => { is_loc(node(v, "Continue"), l); reach(104) }
        Stmt::Expression(e) => { is_expr(node(v, "Expression"), e); reach(105) }
        Stmt::Fun(f) => { is_named(node(v, "Fun"), f); reach(106) }
        Stmt::If(c, a, b) => {
            let t = tuple(v, "If", 3);
            is_expr(&t[0], c);
            is_stmt(&t[1], a);
            match b { Some(b) => { is_stmt(&t[2], b); reach(107) } None => { check(matches!(t[2].0, Js::Undefined), 19); reach(108) } }
        }
        Stmt::Print(e) => { is_expr(node(v, "Print"), e); reach(109) }
        Stmt::Return(e, l) => { let t = tuple(v, "Return", 2); is_expr(&t[0], e); is_loc(&t[1], l); reach(110) }
        Stmt::Var(n, c, e, l) => { let t = tuple(v, "Var", 4); is_str(&t[0], n); is_slot(&t[1], c.get()); is_expr(&t[2], e); is_loc(&t[3], l); reach(111) }
        Stmt::While(c, b) => { let t = tuple(v, "While", 2); is_expr(&t[0], c); is_stmt(&t[1], b); reach(112) }
        Stmt::WhileIncrement(c, b, i) => { let t = tuple(v, "WhileIncrement", 3); is_expr(&t[0], c); is_stmt(&t[1], b); is_expr(&t[2], i); reach(113) }
    }
}
fn is_expr(v: &JsValue, e: &Expr) {
    match e {
        Expr::Assign(n, c, x, l) => { let t = tuple(v, "Assign", 4); is_str(&t[0], n); is_var(&t[1], c.get()); is_expr(&t[2], x); is_loc(&t[3], l); reach(121) }
        Expr::Call(f, a, l) => { let t = tuple(v, "Call", 3); is_expr(&t[0], f); is_exprs(&t[1], a); is_loc(&t[2], l); reach(122) }
        Expr::Binary(a, o, b, l) => {
            let t = tuple(v, "Binary", 4);
            is_expr(&t[0], a);
            is_str(&t[1], match o {
                BinaryOperator::Plus => "Plus", BinaryOperator::Minus => "Minus", BinaryOperator::Multiply => "Multiply", BinaryOperator::Divide => "Divide",
                BinaryOperator::Equal => "Equal", BinaryOperator::NotEqual => "NotEqual", BinaryOperator::Less => "Less", BinaryOperator::LessEqual => "LessEqual",
                BinaryOperator::Greater => "Greater", BinaryOperator::GreaterEqual => "GreaterEqual",
            });
            is_expr(&t[2], b);
            is_loc(&t[3], l);
            reach(140 + *o as u32)
        }
        Expr::Function(f) => { is_fun(node(v, "Function"), f); reach(124) }
        Expr::Get(o, n, l) => { let t = tuple(v, "Get", 3); is_expr(&t[0], o); is_str(&t[1], n); is_loc(&t[2], l); reach(125) }
        Expr::GetIndex(o, i, l) => { let t = tuple(v, "GetIndex", 3); is_expr(&t[0], o); is_expr(&t[1], i); is_loc(&t[2], l); reach(126) }
        Expr::Grouping(x) => { is_expr(node(v, "Grouping"), x); reach(127) }
        Expr::LiteralArray(a) => { is_exprs(node(v, "LiteralArray"), a); reach(128) }
        Expr::LiteralBool(b) => { if let Js::Bool(c) = node(v, "LiteralBool").0 { check(c == *b, 20) } else { check(false, 21) } reach(129) }
        Expr::LiteralMap(m) => {
            let a = node(v, "LiteralMap");
            if let Js::Map(es) = &a.0 {
                check(es.len() == m.len(), 22);
                for ((k, x), (l, y)) in es.iter().zip(m.iter()) { is_str(k, l); is_expr(x, y); }
            } else { check(false, 23) }
            reach(130)
        }
        Expr::LiteralNumber(n) => { is_num(node(v, "LiteralNumber"), *n); reach(131) }
        Expr::LiteralNil => { is_str(prop(v, 1, "type"), "LiteralNil"); reach(132) }
        Expr::LiteralString(s) => { is_str(node(v, "LiteralString"), s); reach(133) }
        Expr::Logical(a, o, b) => {
            let t = tuple(v, "Logical", 3);
            is_expr(&t[0], a);
            is_str(&t[1], match o { LogicalOperator::And => "And", LogicalOperator::Or => "Or" });
            is_expr(&t[2], b);
            reach(134)
        }
        Expr::Set(o, n, x, l) => { let t = tuple(v, "Set", 4); is_expr(&t[0], o); is_str(&t[1], n); is_expr(&t[2], x); is_loc(&t[3], l); reach(135) }
        Expr::SetIndex(o, i, x, l) => { let t = tuple(v, "SetIndex", 4); is_expr(&t[0], o); is_expr(&t[1], i); is_expr(&t[2], x); is_loc(&t[3], l); reach(136) }
        Expr::Super(c, n, l) => { let t = tuple(v, "Super", 3); is_var(&t[0], c.get()); is_str(&t[1], n); is_loc(&t[2], l); reach(137) }
        Expr::Variable(n, c, l) => { let t = tuple(v, "Variable", 3); is_str(&t[0], n); is_var(&t[1], c.get()); is_loc(&t[2], l); reach(138) }
        Expr::Unary(o, x, l) => {
            let t = tuple(v, "Unary", 3);
            is_str(&t[0], match o { UnaryOperator::Minus => "Minus", UnaryOperator::Not => "Not" });
            is_expr(&t[1], x);
            is_loc(&t[2], l);
            reach(139)
        }
    }
}
fn find(h: &[u8], from: usize, n: &[u8]) -> Option<usize> {
    let mut i = from;
    while i + n.len() <= h.len() { if &h[i..i + n.len()] == n { return Some(i + n.len()); } i += 1; }
    None
}
fn is_error(v: &JsValue, e: &ParseError) {
    let m = if let Js::Error(m) = &v.0 { m.as_bytes() } else { check(false, 30); return };
    // every cause with its place, in order
    let mut at = 0;
    for c in &e.causes {
        let place = format!("{}:{}", c.source_loc.line, c.source_loc.column);
        for w in [Some(place), c.token.as_ref().map(|t| { let d = format!("{:?}", t); d[1..d.len() - 1].to_owned() }), Some(c.message.clone())] {
            let Some(w) = w else { continue };
            match find(m, at, w.as_bytes()) { Some(k) => at = k, None => { check(false, 31); return } }
        }
    }
    reach(if e.causes.len() > 1 { 2 } else { 1 });

}
fn decide(s: &str) -> ! {
    if showing() { eprintln!("source: {:?}", s); }
    let want = match whitespace::parser::parse(s) { Ok(p) => whitespace::resolver::resolve(p), Err(e) => Err(e) };
    let got: Result<JsValue, JsValue> = wsjs::wasm_parse_string(s).map_err(JsValue::from);
    if showing() { eprintln!("library: {:?}\nbrowser: {:?}", want, got); }
    match (&got, &want) {
        (Ok(v), Ok(c)) => { is_stmts(v, &c.statements); reach(3); digest(c.statements.len() as u64) }
        (Err(v), Err(e)) => { is_error(v, e); digest(e.causes.len() as u64) }
        _ => check(false, 1),
    }
    end()
}

/// Any few characters.
#[no_mangle]
pub extern "C" fn h_c23_bytes() {
    let n = pick(tier(3, 4));
    let mut b = Vec::with_capacity(8);
    for _ in 0..n { b.push(below8(128)); }
    decide(unsafe { std::str::from_utf8_unchecked(&b) })
}
static MORE: [&str; 8] = [
    "fun f(a)\n  var b = a\n  fun g() { return a + b - c\n  }\n  b = 1\n",
    "class C < D\n  class m(x, y) { print super.m\n  }\n  n() { x = this\n  }\n",
    "while (a <= b) { continue\n}\nfor (;;) { break\n}\nfor (i = 0;; i = i / 2) { }\n",
    "print [true, false, nil, -1, !x, a and b, a != b, a >= 1, a == 2]\n",
    "a.b = 1\na[1] = 2\nprint a[0].c[\"k\"]\n",
    "var m =\n  a: 1\n  \"b c\":\n    d: nil\n  e: []\n",
    "print fun(a, b) { return { x: a, y: { z: b } }\n}\n",
    "if (a) { } else if (b) { print (c) > d }\n",
];
/// One of the sources, one of its characters removed, replaced, or one put before it.
#[no_mangle]
pub extern "C" fn h_c23_sources() {
    let src = of2(&wsharness::c22::SOURCES, &MORE);
    let n = src.chars().count();
    let at = pick(n + 1);
    if at == n { decide(src); }
    static CHARS: [char; 12] = ['a', ' ', '"', '1', '\n', '(', ')', '{', '}', '=', '#', '+'];
    let how = pick(tier(2, 3));
    let c = if how == 0 { ' ' } else { CHARS[pick(tier(5, 12))] };
    let mut t = String::with_capacity(src.len() + 4);
    for (i, x) in src.chars().enumerate() {
        if i == at { if how > 0 { t.push(c); } if how < 2 { continue; } }
        t.push(x);
    }
    decide(&t)
}
fn of2(a: &[&'static str], b: &[&'static str]) -> &'static str { let k = pick(a.len() + b.len()); if k < a.len() { a[k] } else { b[k - a.len()] } }
/// Two sources in one text.
#[no_mangle]
pub extern "C" fn h_c23_two() {
    let mut s = of2(&wsharness::c22::SOURCES, &MORE).to_owned();
    s.push_str(of2(&wsharness::c22::SOURCES, &MORE));
    decide(&s)
}
/// The text of a sequence of tokens.
fn text_of(ty: &[TokenType]) -> String {
    let mut s = String::with_capacity(256);
    let mut depth = 0;
    let mut id = 0;
    let mut start = true;
    let mut i = 0;
    while i < ty.len() {
        match ty[i] {
            Terminator | Indent | Outdent => {
                while i < ty.len() && matches!(ty[i], Terminator | Indent | Outdent) {
                    if ty[i] == Indent { depth += 1; }
                    if ty[i] == Outdent { depth -= 1; }
                    i += 1;
                }
                s.push('\n');
                start = true;
                continue;
            }
            _ => {}
        }
        if start { for _ in 0..2 * depth { s.push(' '); } } else if !matches!(ty[i], LeftParenAbutting) { s.push(' '); }
        start = false;
        s.push_str(match ty[i] {
            LeftParen | LeftParenAbutting => "(", RightParen => ")", LeftBrace => "{", RightBrace => "}", LeftBracket => "[", RightBracket => "]",
            Comma => ",", Dot => ".", Minus => "-", Plus => "+", Semicolon => ";", Slash => "/", Star => "*", Bang => "!", BangEqual => "!=", Equal => "=",
            EqualEqual => "==", Greater => ">", GreaterEqual => ">=", Less => "<", LessEqual => "<=", Colon => ":", Number => "1.5", String => "\"s\"",
            Identifier => { id += 1; ["x", "y", "z", "u", "v", "w"][id % 6] }
            And => "and", Class => "class", Else => "else", False => "false", Fun => "fun", For => "for", If => "if", Nil => "nil", Or => "or", Print => "print",
            Return => "return", Super => "super", This => "this", True => "true", Var => "var", While => "while", Break => "break", Continue => "continue",
            _ => "",
        });
        i += 1;
    }
    if !start { s.push('\n'); }
    s
}
/// Programs composed of templates, as text.
#[no_mangle]
pub extern "C" fn h_c23_nest() {
    let ty = match pick(3) {
        0 => compose(&[one(&SCTX), one(&SCTX), one(&SFORM), one(&LEAF[..tier(1, 6)])]),
        1 => compose(&[one(&SCTX[..tier(8, 25)]), one(&SFORM), one(&ECTX), one(&LEAF[..tier(4, 12)])]),
        _ => compose(&[one(&SFORM), one(&ECTX), one(&ECTX), one(&LEAF[..tier(1, 12)])]),
    };
    decide(&text_of(&ty))
}
/// A map of many entries, in any order of keys.
#[no_mangle]
pub extern "C" fn h_c23_map() {
    let n = pick(tier(24, 80));
    let step = 1 + pick(tier(5, 12));
    let dup = pick(3);
    let mut s = String::with_capacity(2048);
    s.push_str("print {");
    for i in 0..n {
        if i > 0 { s.push_str(", "); }
        let k = if dup == 1 && i + 1 == n { 0 } else { (i * step * 7) % 97 };
        s.push(if dup == 2 { 'k' } else { 'a' });
        s.push((b'a' + (k / 10) as u8) as char);
        s.push((b'a' + (k % 10) as u8) as char);
        s.push_str(": ");
        s.push((b'0' + (i % 10) as u8) as char);
    }
    s.push_str("}\n");
    decide(&s)
}
/// Numbers and strings.
#[no_mangle]
pub extern "C" fn h_c23_literals() {
    let mut s = String::with_capacity(64);
    s.push_str("print ");
    if pick(2) == 0 {
        let zeros = [0, 20, 300, 320][pick(4)];
        s.push((b'0' + pick(10) as u8) as char);
        for _ in 0..pick(tier(2, 3)) { s.push((b'0' + pick(10) as u8) as char); }
        if pick(2) == 1 { s.push('.'); for _ in 0..1 + pick(tier(1, 2)) { s.push((b'0' + pick(10) as u8) as char); } }
        for _ in 0..zeros { s.push('0'); }
    } else {
        s.push('"');
        let n = pick(tier(4, 5));
        for _ in 0..n {
            static C: [char; 14] = ['a', ' ', '\\', 'n', 't', '"', '\n', '\u{e9}', '\u{1f600}', '\u{0}', '/', '\'', '\u{2028}', '\u{7f}'];
            s.push(C[pick(C.len())]);
        }
        s.push('"');
    }
    s.push('\n');
    decide(&s)
}
/// Uses at many distances and slots.
#[no_mangle]
pub extern "C" fn h_c23_scopes() {
    let depth = pick(tier(12, 40));
    let slots = 1 + pick(tier(12, 40));
    let at = pick(4);
    let mut s = String::with_capacity(4096);
    s.push_str("{\n");
    for i in 0..slots { s.push_str("var a"); s.push((b'a' + (i / 10) as u8) as char); s.push((b'a' + (i % 10) as u8) as char); s.push_str(" = 1\n"); }
    for _ in 0..depth { s.push_str("{\n"); }
    let i = [0, slots - 1, slots / 2, slots][at];
    s.push_str("print a");
    s.push((b'a' + (i / 10) as u8) as char);
    s.push((b'a' + (i % 10) as u8) as char);
    s.push('\n');
    for _ in 0..depth { s.push_str("}\n"); }
    s.push_str("}\n");
    decide(&s)
}
/// One form repeated many times, side by side or in itself.
#[no_mangle]
pub extern "C" fn h_c23_scale() {
    budget(400_000_000);
    let ty = wsharness::scale::program(false);
    decide(&text_of(&ty))
}
/// Names long, nearly the same, or not ASCII.
#[no_mangle]
pub extern "C" fn h_c23_spelling() {
    budget(400_000_000);
    let s = wsharness::spell::named();
    decide(&s)
}
/// Strings and keys of every spelling, and errors at them.
#[no_mangle]
pub extern "C" fn h_c23_strings() {
    use wsharness::spell::{string, STRINGS};
    let (a, b) = (string(pick(STRINGS)), string(pick(STRINGS)));
    static T: [&str; 6] = ["print \"A\" + \"B\"\n", "print { \"A\": \"B\", \"B\": 1 }\n", "var \"A\"\nprint \"B\" \"A\"\n", "m: \"A\"\n", "x[\"A\"] = \"B\"\nclass \"A\"\n", "\"A\": [\"B\"], \"B\": x\n"];
    let t = T[pick(6)];
    let mut s = String::with_capacity(1024);
    for c in t.chars() { match c { 'A' => s.push_str(a), 'B' => s.push_str(b), _ => s.push(c) } }
    decide(&s)
}
#[no_mangle]
pub extern "C" fn h_c23_odd() { let (s, _) = wsharness::odd::odd(12); decide(&s) }
/// Many causes in one text.
#[no_mangle]
pub extern "C" fn h_c23_many() {
    let n = 1 + pick(tier(40, 300));
    let kind = pick(6);
    let mut s = String::with_capacity(4096);
    for i in 0..n {
        s.push_str(match kind { 0 => "print )\n", 1 => "return\n", 2 => "#\n", 3 => if i % 3 == 0 { "this\n" } else { "{ var a = a\n}\n" }, 4 => if i % 2 == 0 { "1 = 2\n" } else { "print 1\n" }, _ => "\t" });
    }
    decide(&s)
}
#[no_mangle]
pub extern "C" fn h_c23_letters() { let b = wsharness::letters::source(); decide(wsharness::refs::text(&b)) }
