//! Parser for textual LLVM IR (LLVM 23 syntax) into a compact executable form.
//! Only what rustc emits for x86-64 is supported; anything unknown becomes
//! `I::Unsupported`, which the executor reports (never silently skips).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            Ty::Struct(p, ts) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (o, sz) = self.struct_layout();
                let _ = o;
                sz
            }
            Ty::Void | Ty::Other => 0,
            _ => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
        }
    }
    pub fn struct_layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(p, ts) => {
                let mut off = 0u64;
                let mut offs = vec![];
                let mut al = 1;
                for t in ts.iter() {
                    let a = if *p { 1 } else { t.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    offs.push(off);
                    off += t.size();
                }
                off = (off + al - 1) / al * al;
                (offs, off)
            }
            _ => (vec![], 0),
        }
    }
    pub fn elem(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(_, ts) => (self.struct_layout().0[i as usize], ts[i as usize].clone()),
            _ => panic!("elem of {:?}", self),
        }
    }
}

/// Runtime value: concrete (<=64 bits, masked), symbolic expression, wide concrete, aggregate/vector.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    W(Box<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Copy, Debug)]
pub struct Op(pub u32); // top bit: constant pool index
impl Op {
    #[inline(always)]
    pub fn is_const(self) -> bool {
        self.0 & 0x8000_0000 != 0
    }
    #[inline(always)]
    pub fn idx(self) -> usize {
        (self.0 & 0x7fff_ffff) as usize
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc, ZExt, SExt, BitCast, UiToFp, SiToFp, FpToUi, FpToSi, FpTrunc, FpExt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    Add, Sub, Mul, Div, Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Add, Sub, Xchg, And, Or, Xor, UMax, UMin, Max, Min,
}

#[derive(Debug)]
pub enum Callee {
    Func(u32),
    Intrinsic(u16),
    Ind(Op),
}

#[derive(Debug)]
pub enum I {
    Bin(B, u32, u32, Op, Op),          // op bits dst a b
    VBin(B, u32, u32, Op, Op),
    Cmp(P, u32, u32, Op, Op),
    VCmp(P, u32, u32, Op, Op),
    FBin(F, u32, u32, Op, Op),
    FNeg(u32, u32, Op),
    FCmp(String, u32, u32, Op, Op),
    Cast(Cast, Ty, Ty, u32, Op),
    Select(u32, Op, Op, Op, u32),      // dst c a b bits(0 = aggregate, 1000 = pointer)
    Load(u32, Op, Ty),
    Store(Op, Op, Ty),
    Alloca(u32, u64, Op),
    Gep(u32, Op, i64, Vec<(Op, u64, u32)>),
    Call(u32, Callee, Vec<Op>, Vec<u32>),  // dst callee args argbits
    Extract(u32, Op, Vec<u32>),
    Insert(u32, Op, Op, Vec<u32>),
    ExtractEl(u32, Op, Op),
    InsertEl(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i32>, usize),
    Copy(u32, Op),
    AtomicRmw(Rmw, u32, Op, Op, u32),
    CmpXchg(u32, Op, Op, Op, u32),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u64, u32)>), // op bits default cases
    Ret(Op),
    RetVoid,
    Unreachable,
    Invoke(u32, Callee, Vec<Op>, Vec<u32>, u32), // normal label
    Unsupported(String),
}

pub const NODST: u32 = 0x7fff_ffff;

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub from: Vec<(u32, Op)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub consts: Vec<V>,
    pub target: bool, // belongs to the crate under verification
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the text (header line start, end)
    pub weak: bool,
}

pub struct GlobalInfo {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub bytes: Vec<u8>,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub gaddr: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
    pub intr: HashMap<String, u16>,
    pub intr_names: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str), // bare word or number
    L(&'a str), // %local
    G(&'a str), // @global
    S(&'a str), // "string"
    Cs(&'a str), // c"string"
    P(u8),
    M(&'a str), // metadata
    End,
}

pub struct Lex<'a> {
    s: &'a [u8],
    t: &'a str,
    pub i: usize,
}

impl<'a> Lex<'a> {
    pub fn new(t: &'a str) -> Self {
        Lex { s: t.as_bytes(), t, i: 0 }
    }
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
    }
    pub fn next(&mut self) -> T<'a> {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
        if self.i >= self.s.len() {
            return T::End;
        }
        let c = self.s[self.i];
        match c {
            b';' => {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                self.next()
            }
            b'%' | b'@' => {
                self.i += 1;
                let st = self.i;
                let r;
                if self.s[self.i] == b'"' {
                    self.i += 1;
                    let st = self.i;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    r = &self.t[st..self.i];
                    self.i += 1;
                } else {
                    while self.i < self.s.len() && Self::is_id(self.s[self.i]) {
                        self.i += 1;
                    }
                    r = &self.t[st..self.i];
                }
                if c == b'%' { T::L(r) } else { T::G(r) }
            }
            b'"' => {
                self.i += 1;
                let st = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                let r = &self.t[st..self.i];
                self.i += 1;
                T::S(r)
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let st = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                let r = &self.t[st..self.i];
                self.i += 1;
                T::Cs(r)
            }
            b'!' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (Self::is_id(self.s[self.i])) {
                    self.i += 1;
                }
                T::M(&self.t[st..self.i])
            }
            b'#' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (Self::is_id(self.s[self.i])) {
                    self.i += 1;
                }
                T::M(&self.t[st..self.i])
            }
            _ if Self::is_id(c) || c == b'+' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (Self::is_id(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                T::W(&self.t[st..self.i])
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> T<'a> {
        let i = self.i;
        let r = self.next();
        self.i = i;
        r
    }
    fn eat(&mut self, p: u8) -> bool {
        let i = self.i;
        if self.next() == T::P(p) {
            true
        } else {
            self.i = i;
            false
        }
    }
    fn expect(&mut self, p: u8) {
        let i = self.i;
        let r = self.next();
        if r != T::P(p) {
            let e = (i + 120).min(self.t.len());
            panic!("expected '{}' got {:?} near {:?}", p as char, r, &self.t[i..e]);
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.next() == T::W(w) {
            true
        } else {
            self.i = i;
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

fn mask(v: u128, bits: u32) -> u128 {
    if bits >= 128 { v } else { v & ((1u128 << bits) - 1) }
}
pub fn mk_int(v: u128, bits: u32) -> V {
    let m = mask(v, bits);
    if bits <= 64 { V::C(m as u64) } else { V::W(Box::new(m)) }
}

impl Module {
    pub fn intr_id(&mut self, n: &str) -> u16 {
        if let Some(i) = self.intr.get(n) {
            return *i;
        }
        let i = self.intr_names.len() as u16;
        self.intr_names.push(n.to_string());
        self.intr.insert(n.to_string(), i);
        i
    }

    pub fn parse_ty(&self, l: &mut Lex) -> Ty {
        let save = l.i;
        let t = match l.next() {
            T::W("void") => Ty::Void,
            T::W("ptr") => Ty::Ptr,
            T::W("double") => Ty::F64,
            T::W("float") => Ty::F32,
            T::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            T::W("label") | T::W("metadata") | T::W("token") | T::W("half") | T::W("fp128") | T::W("x86_fp80") => Ty::Other,
            T::L(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            T::P(b'[') => {
                let n: u64 = match l.next() { T::W(w) => w.parse().unwrap(), x => panic!("{:?}", x) };
                l.next(); // x
                let t = self.parse_ty(l);
                l.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'<') => {
                if l.eat(b'{') {
                    let mut v = vec![];
                    if !l.eat(b'}') {
                        loop {
                            v.push(self.parse_ty(l));
                            if !l.eat(b',') { break; }
                        }
                        l.expect(b'}');
                    }
                    l.expect(b'>');
                    Ty::Struct(true, Rc::new(v))
                } else {
                    let n: u64 = match l.next() { T::W(w) => w.parse().unwrap(), x => panic!("{:?}", x) };
                    l.next();
                    let t = self.parse_ty(l);
                    l.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::P(b'{') => {
                let mut v = vec![];
                if !l.eat(b'}') {
                    loop {
                        v.push(self.parse_ty(l));
                        if !l.eat(b',') { break; }
                    }
                    l.expect(b'}');
                }
                Ty::Struct(false, Rc::new(v))
            }
            x => {
                let e = (save + 150).min(l.t.len());
                panic!("type expected, got {:?} near {:?}", x, &l.t[save..e])
            }
        };
        // function type "void (ptr, ...)": skip
        t
    }

    pub fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Int(n) if *n > 64 => V::W(Box::new(0)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero(t);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(_, ts) => V::A(Rc::new(ts.iter().map(|t| self.zero(t)).collect())),
            _ => V::C(0),
        }
    }

    fn fp_const(&self, w: &str, ty: &Ty) -> V {
        if let Some(h) = w.strip_prefix("f0x") {
            return V::C(u64::from_str_radix(h, 16).unwrap());
        }
        let d: f64 = if w == "+qnan" || w == "-qnan" {
            if w.starts_with('-') { -f64::NAN.abs() } else { f64::NAN.abs() }
        } else if w == "+inf" {
            f64::INFINITY
        } else if w == "-inf" {
            f64::NEG_INFINITY
        } else if let Some(h) = w.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else {
            w.parse().unwrap_or_else(|_| panic!("bad fp const {}", w))
        };
        if *ty == Ty::F32 { V::C((d as f32).to_bits() as u64) } else { V::C(d.to_bits()) }
    }

    pub fn parse_const(&self, l: &mut Lex, ty: &Ty) -> V {
        let save = l.i;
        match l.next() {
            T::W("true") => V::C(1),
            T::W("false") => V::C(0),
            T::W("null") => V::C(0),
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") | T::W("none") => self.zero(ty),
            T::W("splat") => {
                l.expect(b'(');
                let t = self.parse_ty(l);
                let v = self.parse_const(l, &t);
                l.expect(b')');
                match ty {
                    Ty::Vec(n, _) => V::A(Rc::new(vec![v; *n as usize])),
                    _ => panic!("splat of non vector"),
                }
            }
            T::W("inttoptr") | T::W("ptrtoint") | T::W("bitcast") | T::W("trunc") | T::W("ptrtoaddr") | T::W("addrspacecast") => {
                l.expect(b'(');
                let t = self.parse_ty(l);
                let v = self.parse_const(l, &t);
                l.eat_w("to");
                let t2 = self.parse_ty(l);
                l.expect(b')');
                match v {
                    V::C(x) => mk_int(x as u128, t2.bits()),
                    v => v,
                }
            }
            T::W("getelementptr") => {
                loop {
                    match l.peek() {
                        T::W("inbounds") | T::W("nuw") | T::W("nusw") => { l.next(); }
                        T::W(w) if w == "inrange" => { l.next(); l.skip_parens(); }
                        _ => break,
                    }
                }
                l.expect(b'(');
                let t = self.parse_ty(l);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let base = match self.parse_const(l, &pt) { V::C(x) => x, _ => panic!() };
                let mut off = 0u64;
                let mut cur = t.clone();
                let mut first = true;
                while l.eat(b',') {
                    let it = self.parse_ty(l);
                    let iv = match self.parse_const(l, &it) { V::C(x) => sext(x, it.bits()) as i64, _ => panic!() };
                    if first {
                        off = off.wrapping_add((iv as u64).wrapping_mul(t.size()));
                        first = false;
                    } else {
                        let (o, n) = cur.elem(0);
                        let _ = o;
                        match &cur {
                            Ty::Struct(..) => {
                                let (o, n) = cur.elem(iv as u64);
                                off = off.wrapping_add(o);
                                cur = n;
                            }
                            _ => {
                                off = off.wrapping_add((iv as u64).wrapping_mul(n.size()));
                                cur = n;
                            }
                        }
                    }
                }
                l.expect(b')');
                V::C(base.wrapping_add(off))
            }
            T::W(w @ ("sub" | "add" | "xor" | "mul" | "shl" | "and")) => {
                while let T::W("nuw") | T::W("nsw") = l.peek() { l.next(); }
                l.expect(b'(');
                let t = self.parse_ty(l);
                let a = match self.parse_const(l, &t) { V::C(x) => x, _ => panic!() };
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let b = match self.parse_const(l, &t2) { V::C(x) => x, _ => panic!() };
                l.expect(b')');
                let r = match w {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "xor" => a ^ b,
                    "mul" => a.wrapping_mul(b),
                    "and" => a & b,
                    _ => a.wrapping_shl(b as u32),
                };
                mk_int(r as u128, t.bits())
            }
            T::W("blockaddress") => panic!("blockaddress"),
            T::W(w) => match ty {
                Ty::F32 | Ty::F64 => self.fp_const(w, ty),
                Ty::Int(b) => {
                    if let Ok(x) = w.parse::<i128>() { mk_int(x as u128, *b) }
                    else if let Ok(x) = w.parse::<u128>() { mk_int(x, *b) }
                    else {
                        let e = (save + 100).min(l.t.len());
                        panic!("bad int const {:?} near {:?}", w, &l.t[save..e])
                    }
                }
                _ => {
                    let e = (save + 100).min(l.t.len());
                    panic!("bad const {:?} for {:?} near {:?}", w, ty, &l.t[save..e])
                }
            },
            T::G(n) => {
                if let Some(a) = self.gaddr.get(n) {
                    V::C(*a)
                } else if let Some(f) = self.fidx.get(n) {
                    V::C(func_addr(*f))
                } else {
                    V::C(0)
                }
            }
            T::Cs(s) => {
                let b = unescape(s);
                V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect()))
            }
            T::P(b'<') | T::P(b'{') | T::P(b'[') => {
                // aggregate: list of "ty const"
                l.i = save;
                let first = l.next();
                let packed = first == T::P(b'<') && l.eat(b'{');
                let mut v = vec![];
                let close = match first {
                    T::P(b'<') => if packed { b'}' } else { b'>' },
                    T::P(b'{') => b'}',
                    _ => b']',
                };
                if !l.eat(close) {
                    loop {
                        let t = self.parse_ty(l);
                        v.push(self.parse_const(l, &t));
                        if !l.eat(b',') { break; }
                    }
                    l.expect(close);
                }
                if packed { l.expect(b'>'); }
                V::A(Rc::new(v))
            }
            x => {
                let e = (save + 100).min(l.t.len());
                panic!("const expected, got {:?} near {:?}", x, &l.t[save..e])
            }
        }
    }

    pub fn write_val(&self, out: &mut [u8], ty: &Ty, v: &V) {
        match (ty, v) {
            (Ty::Arr(_, t), V::A(vs)) => {
                let sz = t.size() as usize;
                if **t == Ty::Int(8) {
                    for (i, x) in vs.iter().enumerate() {
                        if let V::C(c) = x { out[i] = *c as u8; }
                    }
                } else {
                    for (i, x) in vs.iter().enumerate() {
                        self.write_val(&mut out[i * sz..], t, x);
                    }
                }
            }
            (Ty::Vec(_, t), V::A(vs)) => {
                let sz = t.store_size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.write_val(&mut out[i * sz..], t, x);
                }
            }
            (Ty::Struct(_, ts), V::A(vs)) => {
                let (offs, _) = ty.struct_layout();
                for (i, x) in vs.iter().enumerate() {
                    self.write_val(&mut out[offs[i] as usize..], &ts[i], x);
                }
            }
            (_, V::C(c)) => {
                let n = ty.store_size() as usize;
                for k in 0..n { out[k] = if k < 8 { (c >> (8 * k)) as u8 } else { 0 }; }
            }
            (_, V::W(c)) => {
                let n = ty.store_size() as usize;
                for k in 0..n { out[k] = (**c >> (8 * k)) as u8; }
            }
            _ => panic!("write_val {:?}", ty),
        }
    }

    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gaddr: HashMap::new(),
            types: HashMap::new(),
            intr: HashMap::new(),
            intr_names: vec![],
        };
        // pass 1: index
        let bytes = text.as_bytes();
        let mut i = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        while i < bytes.len() {
            let e = text[i..].find('\n').map_or(bytes.len(), |x| i + x);
            let line = &text[i..e];
            if line.starts_with("define ") {
                let end = text[e..].find("\n}").map(|x| e + x + 1).unwrap();
                let name = fname(line);
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body: Some((i, end)), weak: false });
                i = end + 2;
                continue;
            } else if line.starts_with("declare ") {
                let name = fname(line);
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body: None, weak: line.contains("extern_weak") });
            } else if line.starts_with('@') {
                if line.contains(" alias ") {
                    let mut l = Lex::new(line);
                    let n = match l.next() { T::G(n) => n.to_string(), _ => panic!() };
                    let mut last = String::new();
                    loop {
                        match l.next() { T::G(x) => last = x.to_string(), T::End => break, _ => {} }
                    }
                    aliases.push((n, last));
                } else {
                    glines.push((i, e));
                }
            } else if line.starts_with('%') && line.contains("= type ") {
                let mut l = Lex::new(line);
                let n = match l.next() { T::L(n) => n.to_string(), _ => panic!() };
                l.next();
                l.next();
                if l.peek() != T::W("opaque") {
                    let t = m.parse_ty(&mut l);
                    m.types.insert(n, t);
                }
            }
            i = e + 1;
        }
        // pass 2: global addresses
        let mut starts = vec![];
        for (k, (s, e)) in glines.iter().enumerate() {
            let line = &text[*s..*e];
            let mut l = Lex::new(line);
            let name = match l.next() { T::G(n) => n.to_string(), x => panic!("{:?}", x) };
            l.next(); // =
            let mut constant = false;
            let mut external = false;
            loop {
                match l.next() {
                    T::W("global") => break,
                    T::W("constant") => { constant = true; break; }
                    T::W("external") | T::W("extern_weak") => external = true,
                    T::W(_) => { if l.peek() == T::P(b'(') { l.skip_parens(); } }
                    x => panic!("global: {:?} in {}", x, &line[..line.len().min(200)]),
                }
            }
            let ty = m.parse_ty(&mut l);
            let size = ty.size();
            m.gaddr.insert(name.clone(), global_addr(k as u32));
            m.globals.push(GlobalInfo { name, size, constant, bytes: vec![0; size as usize] });
            starts.push((*s + l.i, external, ty));
        }
        for (a, t) in aliases {
            if let Some(f) = m.fidx.get(&t).copied() { m.fidx.insert(a, f); }
            else if let Some(g) = m.gaddr.get(&t).copied() { m.gaddr.insert(a, g); }
        }
        // pass 3: initializers
        for (k, (pos, external, ty)) in starts.iter().enumerate() {
            if *external { continue; }
            let (_, e) = glines[k];
            let mut l = Lex::new(&text[*pos..e]);
            let v = m.parse_const(&mut l, ty);
            let mut b = std::mem::take(&mut m.globals[k].bytes);
            m.write_val(&mut b, ty, &v);
            m.globals[k].bytes = b;
        }
        m.text = text;
        m
    }

    pub fn parse_func(&mut self, id: u32) -> Func {
        let (s, e) = self.funcs[id as usize].body.expect("parse_func on declaration");
        let name = self.funcs[id as usize].name.clone();
        let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(&self.text[s..e]) };
        let mut fp = FP { m: self, regs: HashMap::new(), consts: vec![], nregs: 0 };
        let f = fp.parse(text, &name, id);
        f
    }
}

pub fn func_addr(f: u32) -> u64 {
    (1u64 << 32) + (f as u64) * 16 + 16
}
pub fn addr_func(a: u64) -> Option<u32> {
    if a >> 32 == 1 && (a & 15) == 0 && (a & 0xffff_ffff) >= 16 { Some((((a & 0xffff_ffff) - 16) / 16) as u32) } else { None }
}
pub const FIRST_GLOBAL: u32 = 2;
pub fn global_addr(k: u32) -> u64 {
    ((FIRST_GLOBAL + k) as u64) << 32
}

pub fn sext(x: u64, bits: u32) -> u64 {
    if bits == 0 || bits >= 64 { return x; }
    let s = 64 - bits;
    (((x << s) as i64) >> s) as u64
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn fname(line: &str) -> String {
    let p = line.find('@').unwrap();
    let mut l = Lex::new(&line[p..]);
    match l.next() { T::G(n) => n.to_string(), _ => panic!() }
}

struct FP<'m> {
    m: &'m mut Module,
    regs: HashMap<String, u32>,
    consts: Vec<V>,
    nregs: u32,
}

const ATTR_VALUES: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat", "inttoptr", "ptrtoint", "bitcast", "trunc", "getelementptr", "sub", "add", "xor", "mul", "shl", "and", "asm", "ptrtoaddr", "addrspacecast", "blockaddress"];

impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn kst(&mut self, v: V) -> Op {
        if let V::C(c) = v {
            for (i, x) in self.consts.iter().enumerate().rev().take(8) {
                if let V::C(d) = x { if *d == c { return Op(i as u32 | 0x8000_0000); } }
            }
        }
        self.consts.push(v);
        Op((self.consts.len() - 1) as u32 | 0x8000_0000)
    }
    fn val(&mut self, l: &mut Lex, ty: &Ty) -> Op {
        if let T::L(n) = l.peek() {
            l.next();
            return Op(self.reg(n));
        }
        if *ty == Ty::Other {
            // metadata operand: skip one token (and nested parens)
            l.next();
            if l.peek() == T::P(b'(') { l.skip_parens(); }
            return self.kst(V::C(0));
        }
        let v = self.m.parse_const(l, ty);
        self.kst(v)
    }
    fn tyval(&mut self, l: &mut Lex) -> (Ty, Op) {
        let t = self.m.parse_ty(l);
        let v = self.val(l, &t);
        (t, v)
    }
    fn skip_attrs(&mut self, l: &mut Lex) {
        loop {
            let save = l.i;
            match l.next() {
                T::W(w) => {
                    let isnum = w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-';
                    if ATTR_VALUES.contains(&w) || isnum { l.i = save; return; }
                    if w == "align" || w == "dereferenceable" {
                        if let T::W(x) = l.peek() {
                            if x.as_bytes()[0].is_ascii_digit() { l.next(); continue; }
                        }
                    }
                    if l.peek() == T::P(b'(') { l.skip_parens(); }
                }
                T::S(_) => {
                    if l.eat(b'=') { l.next(); }
                }
                _ => { l.i = save; return; }
            }
        }
    }
    fn flags(&mut self, l: &mut Lex) {
        loop {
            match l.peek() {
                T::W("nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "weak" | "atomic") => { l.next(); }
                _ => return,
            }
        }
    }

    fn parse(&mut self, text: &'static str, name: &str, id: u32) -> Func {
        let mut lines = text.split('\n');
        let head = lines.next().unwrap();
        // parameters
        let p = head.find('@').unwrap();
        let mut l = Lex::new(&head[p..]);
        l.next();
        l.expect(b'(');
        let mut nparams = 0;
        if !l.eat(b')') {
            loop {
                if l.eat(b'.') { l.next(); l.next(); break; }
                if let T::W("...") = l.peek() { l.next(); break; }
                let t = self.m.parse_ty(&mut l);
                let _ = t;
                self.skip_attrs(&mut l);
                match l.next() {
                    T::L(n) => { self.reg(n); }
                    x => panic!("param {:?} in {}", x, name),
                }
                nparams += 1;
                if !l.eat(b',') { break; }
            }
        }
        // join lines into instructions; collect blocks
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut cur: Option<(String, Vec<String>)> = None;
        for line in lines {
            if line.is_empty() || line.starts_with('}') { continue; }
            if !line.starts_with(' ') {
                // label
                if line.starts_with(';') { continue; }
                if let Some(c) = cur.take() { blocks.push(c); }
                let lab = line.split(':').next().unwrap();
                let lab = if let Some(x) = lab.strip_prefix('"') { x.trim_end_matches('"') } else { lab };
                cur = Some((lab.to_string(), vec![]));
                continue;
            }
            if cur.is_none() {
                // implicit entry label: number after params
                cur = Some((format!("{}", nparams), vec![]));
            }
            let c = &mut cur.as_mut().unwrap().1;
            if line.starts_with("    ") || line.starts_with("  ]") {
                let last = c.last_mut().unwrap();
                last.push(' ');
                last.push_str(line.trim());
            } else {
                c.push(line[2..].to_string());
            }
        }
        if let Some(c) = cur.take() { blocks.push(c); }
        let mut labels: HashMap<String, u32> = HashMap::new();
        for (i, (n, _)) in blocks.iter().enumerate() { labels.insert(n.clone(), i as u32); }
        let mut out = vec![];
        for (_, ins) in blocks.iter() {
            let mut b = Block { phis: vec![], ins: vec![] };
            for line in ins {
                self.ins(line, &labels, &mut b, name);
            }
            out.push(b);
        }
        Func {
            id,
            name: name.to_string(),
            nparams,
            nregs: self.nregs as usize,
            blocks: out,
            consts: std::mem::take(&mut self.consts),
            target: false,
        }
    }

    fn label(&self, l: &mut Lex, labels: &HashMap<String, u32>) -> u32 {
        l.eat_w("label");
        match l.next() {
            T::L(n) => *labels.get(n).unwrap_or_else(|| panic!("label {}", n)),
            x => panic!("label {:?}", x),
        }
    }

    fn call_args(&mut self, l: &mut Lex) -> (Vec<Op>, Vec<u32>) {
        l.expect(b'(');
        let mut args = vec![];
        let mut bits = vec![];
        if !l.eat(b')') {
            loop {
                let t = self.m.parse_ty(l);
                self.skip_attrs(l);
                let v = self.val(l, &t);
                args.push(v);
                bits.push(t.bits());
                if !l.eat(b',') { break; }
            }
            l.expect(b')');
        }
        (args, bits)
    }

    fn ins(&mut self, line: &str, labels: &HashMap<String, u32>, b: &mut Block, fname: &str) {
        let mut lx = Lex::new(line);
        let l = &mut lx;
        let mut dst = NODST;
        if let T::L(n) = l.peek() {
            let n = n.to_string();
            l.next();
            l.expect(b'=');
            dst = self.reg(&n);
        }
        let w = match l.next() { T::W(w) => w, x => panic!("ins {:?} in {}", x, line) };
        let w = if w == "tail" || w == "musttail" || w == "notail" { match l.next() { T::W(w) => w, _ => panic!() } } else { w };
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(l);
                let (t, a) = self.tyval(l);
                l.expect(b',');
                let c = self.val(l, &t);
                let op = match w {
                    "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "urem" => B::URem,
                    "sdiv" => B::SDiv, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor,
                    "shl" => B::Shl, "lshr" => B::LShr, _ => B::AShr,
                };
                match &t {
                    Ty::Vec(_, e) => I::VBin(op, e.bits(), dst, a, c),
                    _ => I::Bin(op, t.bits(), dst, a, c),
                }
            }
            "icmp" => {
                self.flags(l);
                let p = match l.next() {
                    T::W("eq") => P::Eq, T::W("ne") => P::Ne, T::W("ult") => P::Ult, T::W("ule") => P::Ule,
                    T::W("ugt") => P::Ugt, T::W("uge") => P::Uge, T::W("slt") => P::Slt, T::W("sle") => P::Sle,
                    T::W("sgt") => P::Sgt, T::W("sge") => P::Sge, x => panic!("icmp {:?}", x),
                };
                let (t, a) = self.tyval(l);
                l.expect(b',');
                let c = self.val(l, &t);
                match &t {
                    Ty::Vec(_, e) => I::VCmp(p, e.bits(), dst, a, c),
                    _ => I::Cmp(p, t.bits(), dst, a, c),
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(l);
                let (t, a) = self.tyval(l);
                l.expect(b',');
                let c = self.val(l, &t);
                let op = match w { "fadd" => F::Add, "fsub" => F::Sub, "fmul" => F::Mul, "fdiv" => F::Div, _ => F::Rem };
                I::FBin(op, t.bits(), dst, a, c)
            }
            "fneg" => {
                self.flags(l);
                let (t, a) = self.tyval(l);
                I::FNeg(t.bits(), dst, a)
            }
            "fcmp" => {
                self.flags(l);
                let p = match l.next() { T::W(x) => x.to_string(), _ => panic!() };
                let (t, a) = self.tyval(l);
                l.expect(b',');
                let c = self.val(l, &t);
                I::FCmp(p, t.bits(), dst, a, c)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" | "ptrtoaddr" | "addrspacecast" => {
                self.flags(l);
                let (t, a) = self.tyval(l);
                l.eat_w("to");
                let t2 = self.m.parse_ty(l);
                match w {
                    "trunc" => I::Cast(Cast::Trunc, t, t2, dst, a),
                    "zext" => I::Cast(Cast::ZExt, t, t2, dst, a),
                    "sext" => I::Cast(Cast::SExt, t, t2, dst, a),
                    "bitcast" => I::Cast(Cast::BitCast, t, t2, dst, a),
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                        if t.bits() == t2.bits() { I::Copy(dst, a) }
                        else if t.bits() > t2.bits() { I::Cast(Cast::Trunc, Ty::Int(t.bits()), Ty::Int(t2.bits()), dst, a) }
                        else { I::Cast(Cast::ZExt, Ty::Int(t.bits()), Ty::Int(t2.bits()), dst, a) }
                    }
                    "uitofp" => I::Cast(Cast::UiToFp, t, t2, dst, a),
                    "sitofp" => I::Cast(Cast::SiToFp, t, t2, dst, a),
                    "fptoui" => I::Cast(Cast::FpToUi, t, t2, dst, a),
                    "fptosi" => I::Cast(Cast::FpToSi, t, t2, dst, a),
                    "fptrunc" => I::Cast(Cast::FpTrunc, t, t2, dst, a),
                    _ => I::Cast(Cast::FpExt, t, t2, dst, a),
                }
            }
            "select" => {
                self.flags(l);
                let (ct, c) = self.tyval(l);
                l.expect(b',');
                let (t, a) = self.tyval(l);
                l.expect(b',');
                let (_, d) = self.tyval(l);
                let bits = match (&ct, &t) {
                    (Ty::Vec(..), _) => 2000,
                    (_, Ty::Ptr) => 1000,
                    (_, Ty::Int(n)) if *n <= 64 => *n,
                    _ => 0,
                };
                I::Select(dst, c, a, d, bits)
            }
            "load" => {
                self.flags(l);
                let t = self.m.parse_ty(l);
                l.expect(b',');
                let (_, p) = self.tyval(l);
                I::Load(dst, p, t)
            }
            "store" => {
                self.flags(l);
                let (t, v) = self.tyval(l);
                l.expect(b',');
                let (_, p) = self.tyval(l);
                I::Store(v, p, t)
            }
            "alloca" => {
                let t = self.m.parse_ty(l);
                let mut n = self.kst(V::C(1));
                if l.eat(b',') {
                    if let T::W("align") = l.peek() {} else {
                        let (_, c) = self.tyval(l);
                        n = c;
                    }
                }
                I::Alloca(dst, t.size(), n)
            }
            "getelementptr" => {
                self.flags(l);
                let t = self.m.parse_ty(l);
                l.expect(b',');
                let (_, base) = self.tyval(l);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while l.eat(b',') {
                    if let T::M(_) = l.peek() { break; }
                    let (it, iv) = self.tyval(l);
                    let scale;
                    if first {
                        scale = t.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &self.consts[iv.idx()] { V::C(c) => *c, _ => panic!() };
                                let (o, n) = cur.elem(k);
                                off += o as i64;
                                cur = n;
                                continue;
                            }
                            _ => {
                                let (_, n) = cur.elem(0);
                                scale = n.size();
                                cur = n;
                            }
                        }
                    }
                    if iv.is_const() {
                        if let V::C(c) = &self.consts[iv.idx()] {
                            off = off.wrapping_add((sext(*c, it.bits()) as i64).wrapping_mul(scale as i64));
                        }
                    } else {
                        idx.push((iv, scale, it.bits()));
                    }
                }
                I::Gep(dst, base, off, idx)
            }
            "call" | "invoke" => {
                // [fastcc/cc] [ret attrs] type [fnty] callee(args) [attrs]
                self.flags(l);
                loop {
                    match l.peek() {
                        T::W("fastcc" | "coldcc" | "ccc" | "nnan" | "ninf" | "nsz") => { l.next(); }
                        T::W("range" | "dereferenceable" | "align" | "captures" | "nofpclass" | "dereferenceable_or_null") => {
                            l.next();
                            if l.peek() == T::P(b'(') { l.skip_parens(); } else { l.next(); }
                        }
                        T::W("noundef" | "zeroext" | "signext" | "nonnull" | "noalias" | "inreg") => { l.next(); }
                        _ => break,
                    }
                }
                let _rt = self.m.parse_ty(l);
                if l.peek() == T::P(b'(') { l.skip_parens(); } // function type
                let callee = match l.next() {
                    T::G(n) => {
                        if n.starts_with("llvm.") {
                            Callee::Intrinsic(self.m.intr_id(n))
                        } else if let Some(f) = self.m.fidx.get(n) {
                            Callee::Func(*f)
                        } else {
                            panic!("unknown callee {}", n)
                        }
                    }
                    T::L(n) => Callee::Ind(Op(self.reg(n))),
                    T::W("asm") => {
                        let mut tpl = String::new();
                        loop {
                            match l.next() {
                                T::S(s) => { tpl.push_str(s); if l.eat(b',') { l.next(); } break; }
                                T::W(_) => {}
                                x => panic!("asm {:?}", x),
                            }
                        }
                        Callee::Intrinsic(self.m.intr_id(if tpl.is_empty() { "asm.empty" } else { "asm.other" }))
                    }
                    T::W("inttoptr") => {
                        l.skip_parens();
                        Callee::Intrinsic(self.m.intr_id("call.const"))
                    }
                    x => panic!("callee {:?} in {}", x, line),
                };
                let (args, bits) = self.call_args(l);
                if w == "call" {
                    I::Call(dst, callee, args, bits)
                } else {
                    // skip attrs until "to"
                    loop {
                        match l.next() {
                            T::W("to") => break,
                            T::End => panic!("invoke without to: {}", line),
                            _ => {}
                        }
                    }
                    let n = self.label(l, labels);
                    I::Invoke(dst, callee, args, bits, n)
                }
            }
            "extractvalue" => {
                let (_, a) = self.tyval(l);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() { T::W(x) => ix.push(x.parse().unwrap()), _ => break }
                }
                I::Extract(dst, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyval(l);
                l.expect(b',');
                let (_, v) = self.tyval(l);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() { T::W(x) => ix.push(x.parse().unwrap()), _ => break }
                }
                I::Insert(dst, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyval(l);
                l.expect(b',');
                let (_, i) = self.tyval(l);
                I::ExtractEl(dst, a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyval(l);
                l.expect(b',');
                let (_, v) = self.tyval(l);
                l.expect(b',');
                let (_, i) = self.tyval(l);
                I::InsertEl(dst, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval(l);
                l.expect(b',');
                let (_, c) = self.tyval(l);
                l.expect(b',');
                let mt = self.m.parse_ty(l);
                let mv = self.m.parse_const(l, &mt);
                let n = match &t { Ty::Vec(n, _) => *n as usize, _ => 0 };
                let mk = match mv {
                    V::A(v) => v.iter().map(|x| match x { V::C(c) => *c as i32, _ => 0 }).collect(),
                    _ => vec![],
                };
                I::Shuffle(dst, a, c, mk, n)
            }
            "freeze" => {
                let (_, a) = self.tyval(l);
                I::Copy(dst, a)
            }
            "atomicrmw" => {
                self.flags(l);
                let op = match l.next() {
                    T::W("add") => Rmw::Add, T::W("sub") => Rmw::Sub, T::W("xchg") => Rmw::Xchg, T::W("and") => Rmw::And,
                    T::W("or") => Rmw::Or, T::W("xor") => Rmw::Xor, T::W("umax") => Rmw::UMax, T::W("umin") => Rmw::UMin,
                    T::W("max") => Rmw::Max, T::W("min") => Rmw::Min, x => panic!("rmw {:?}", x),
                };
                let (_, p) = self.tyval(l);
                l.expect(b',');
                let (t, v) = self.tyval(l);
                I::AtomicRmw(op, dst, p, v, t.bits())
            }
            "cmpxchg" => {
                self.flags(l);
                let (_, p) = self.tyval(l);
                l.expect(b',');
                let (t, c) = self.tyval(l);
                l.expect(b',');
                let (_, n) = self.tyval(l);
                I::CmpXchg(dst, p, c, n, t.bits())
            }
            "fence" => I::Nop,
            "phi" => {
                self.flags(l);
                let t = self.m.parse_ty(l);
                let mut from = vec![];
                loop {
                    l.expect(b'[');
                    let v = self.val(l, &t);
                    l.expect(b',');
                    let lb = self.label(l, labels);
                    l.expect(b']');
                    from.push((lb, v));
                    if !l.eat(b',') { break; }
                    if let T::M(_) = l.peek() { break; }
                }
                b.phis.push(Phi { dst, from });
                return;
            }
            "br" => {
                if l.eat_w("label") {
                    let t = match l.next() { T::L(n) => labels[n], _ => panic!() };
                    I::Br(t)
                } else {
                    let (_, c) = self.tyval(l);
                    l.expect(b',');
                    let a = self.label(l, labels);
                    l.expect(b',');
                    let d = self.label(l, labels);
                    I::CondBr(c, a, d)
                }
            }
            "switch" => {
                let (t, c) = self.tyval(l);
                l.expect(b',');
                let d = self.label(l, labels);
                l.expect(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let t = self.m.parse_ty(l);
                    let v = match self.m.parse_const(l, &t) { V::C(c) => c, V::W(c) => *c as u64, _ => panic!() };
                    l.expect(b',');
                    let lb = self.label(l, labels);
                    cases.push((v, lb));
                }
                cases.sort();
                I::Switch(c, t.bits(), d, cases)
            }
            "ret" => {
                let t = self.m.parse_ty(l);
                if t == Ty::Void { I::RetVoid } else {
                    let v = self.val(l, &t);
                    I::Ret(v)
                }
            }
            "unreachable" => I::Unreachable,
            "landingpad" => I::Unsupported("landingpad".into()),
            "resume" => I::Unsupported("resume".into()),
            _ => I::Unsupported(format!("{} in {}", line, fname)),
        };
        b.ins.push(i);
    }
}
