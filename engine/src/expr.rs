//! Hash-consed bit-vector expressions over 8-bit input variables.
//! Every expression that depends on a single variable also carries its exact
//! 256-entry value table; decisions on such expressions are taken on the table
//! and certified by the SMT solver (see smt.rs / exec.rs).
use crate::ir::{sext, B, P, V};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
    Var,
    Const,
    Bin(B),
    Cmp(P),
    ZExt,
    SExt,
    Trunc,
    Ite,
    ByteOf,
    Concat,
    Tab,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

pub struct Info {
    pub sup: u128,
    pub var: u32, // valid if tab.is_some()
    pub tab: Option<Rc<Vec<u64>>>,
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];
pub fn dom_has(d: &Dom, v: usize) -> bool {
    d[v >> 6] >> (v & 63) & 1 != 0
}
pub fn dom_set(d: &mut Dom, v: usize) {
    d[v >> 6] |= 1 << (v & 63);
}
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_empty(d: &Dom) -> bool {
    d.iter().all(|x| *x == 0)
}
pub fn dom_iter(d: &Dom) -> DomIter {
    DomIter { d: *d, i: 0 }
}
pub struct DomIter {
    d: Dom,
    i: usize,
}
impl Iterator for DomIter {
    type Item = usize;
    #[inline]
    fn next(&mut self) -> Option<usize> {
        while self.i < 4 {
            if self.d[self.i] != 0 {
                let t = self.d[self.i].trailing_zeros() as usize;
                self.d[self.i] &= self.d[self.i] - 1;
                return Some(self.i * 64 + t);
            }
            self.i += 1;
        }
        None
    }
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, u32>,
    tabmap: HashMap<(u32, u8, Rc<Vec<u64>>), u32>,
    pub tabs: Vec<Rc<Vec<u64>>>,
}

#[inline(always)]
pub fn msk(v: u64, w: u32) -> u64 {
    if w >= 64 { v } else { v & ((1u64 << w) - 1) }
}

#[inline(always)]
pub fn bin(op: B, w: u32, a: u64, b: u64) -> Option<u64> {
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => { if b == 0 { return None; } a / b }
        B::URem => { if b == 0 { return None; } a % b }
        B::SDiv => {
            let (x, y) = (sext(a, w) as i64, sext(b, w) as i64);
            if y == 0 { return None; }
            x.wrapping_div(y) as u64
        }
        B::SRem => {
            let (x, y) = (sext(a, w) as i64, sext(b, w) as i64);
            if y == 0 { return None; }
            x.wrapping_rem(y) as u64
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => if b >= w as u64 { 0 } else { a << b },
        B::LShr => if b >= w as u64 { 0 } else { a >> b },
        B::AShr => {
            let s = sext(a, w) as i64;
            (if b >= w as u64 { s >> 63 } else { s >> b }) as u64
        }
    };
    Some(msk(r, w))
}
#[inline(always)]
pub fn cmp(p: P, w: u32, a: u64, b: u64) -> bool {
    match p {
        P::Eq => a == b,
        P::Ne => a != b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Ugt => a > b,
        P::Uge => a >= b,
        P::Slt => (sext(a, w) as i64) < (sext(b, w) as i64),
        P::Sle => (sext(a, w) as i64) <= (sext(b, w) as i64),
        P::Sgt => (sext(a, w) as i64) > (sext(b, w) as i64),
        P::Sge => (sext(a, w) as i64) >= (sext(b, w) as i64),
    }
}

impl Exprs {
    pub fn new() -> Self {
        Exprs { nodes: vec![], info: vec![], map: HashMap::new(), tabmap: HashMap::new(), tabs: vec![] }
    }
    pub fn var(&mut self, k: u32) -> u32 {
        let n = Node { op: O::Var, w: 8, a: k, b: 0, c: 0, k: 0 };
        if let Some(i) = self.map.get(&n) { return *i; }
        assert!(k < 128, "too many symbolic bytes");
        let t = Rc::new((0..256u64).collect::<Vec<_>>());
        self.push(n, Info { sup: 1u128 << k, var: k, tab: Some(t) })
    }
    fn push(&mut self, n: Node, info: Info) -> u32 {
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        if let Some(t) = &info.tab {
            self.tabmap.insert((info.var, n.w, t.clone()), i);
        }
        self.info.push(info);
        self.map.insert(n, i);
        i
    }
    pub fn cst(&mut self, v: u64, w: u32) -> u32 {
        let n = Node { op: O::Const, w: w as u8, a: 0, b: 0, c: 0, k: v };
        if let Some(i) = self.map.get(&n) { return *i; }
        self.push(n, Info { sup: 0, var: 0, tab: None })
    }
    pub fn tab(&mut self, var: u32, w: u32, t: Vec<u64>) -> V {
        let f = t[0];
        if t.iter().all(|x| *x == f) { return V::C(f); }
        let t = Rc::new(t);
        if let Some(i) = self.tabmap.get(&(var, w as u8, t.clone())) { return V::S(*i); }
        let k = self.tabs.len() as u64;
        self.tabs.push(t.clone());
        let n = Node { op: O::Tab, w: w as u8, a: var, b: 0, c: 0, k };
        V::S(self.push(n, Info { sup: 1u128 << var, var, tab: Some(t) }))
    }
    pub fn to_ex(&mut self, v: &V, w: u32) -> u32 {
        match v {
            V::C(c) => self.cst(*c, w),
            V::S(e) => *e,
            _ => panic!("to_ex"),
        }
    }
    fn val_at(&self, e: u32, x: usize) -> u64 {
        match &self.info[e as usize].tab {
            Some(t) => t[x],
            None => self.nodes[e as usize].k,
        }
    }
    fn apply(&self, n: &Node, f: impl Fn(u32) -> u64) -> Option<u64> {
        let w = n.w as u32;
        Some(match n.op {
            O::Const => n.k,
            O::Bin(b) => bin(b, w, f(n.a), f(n.b))?,
            O::Cmp(p) => cmp(p, self.nodes[n.a as usize].w as u32, f(n.a), f(n.b)) as u64,
            O::ZExt => f(n.a),
            O::SExt => msk(sext(f(n.a), self.nodes[n.a as usize].w as u32), w),
            O::Trunc => msk(f(n.a), w),
            O::Ite => if f(n.a) != 0 { f(n.b) } else { f(n.c) },
            O::ByteOf => (f(n.a) >> (8 * n.k)) & 0xff,
            O::Concat => (f(n.a) << self.nodes[n.b as usize].w) | f(n.b),
            O::Var | O::Tab => unreachable!(),
        })
    }
    /// Create a node; returns a constant if it folds.
    pub fn mk(&mut self, op: O, w: u32, a: u32, b: u32, c: u32, k: u64) -> V {
        let n = Node { op, w: w as u8, a, b, c, k };
        if let Some(i) = self.map.get(&n) {
            return V::S(*i);
        }
        let na = match op { O::ZExt | O::SExt | O::Trunc | O::ByteOf => 1, O::Ite => 3, _ => 2 };
        let mut sup = self.info[a as usize].sup;
        if na > 1 { sup |= self.info[b as usize].sup; }
        if na > 2 { sup |= self.info[c as usize].sup; }
        if sup == 0 {
            let r = self.apply(&n, |e| self.nodes[e as usize].k).expect("div by zero const");
            return V::C(r);
        }
        if sup & (sup - 1) == 0 {
            let var = sup.trailing_zeros();
            let mut t = Vec::with_capacity(256);
            for x in 0..256 {
                t.push(self.apply(&n, |e| self.val_at(e, x)).unwrap_or(0));
            }
            let f = t[0];
            if t.iter().all(|x| *x == f) { return V::C(f); }
            let t = Rc::new(t);
            if let Some(i) = self.tabmap.get(&(var, w as u8, t.clone())) {
                return V::S(*i);
            }
            return V::S(self.push(n, Info { sup, var, tab: Some(t) }));
        }
        // multi-variable simplifications
        let ck = |s: &Self, e: u32| -> Option<u64> {
            let nd = &s.nodes[e as usize];
            if nd.op == O::Const { Some(nd.k) } else { None }
        };
        match op {
            O::Bin(bo) => {
                let (ca, cb) = (ck(self, a), ck(self, b));
                match (bo, ca, cb) {
                    (B::Add | B::Or | B::Xor | B::Sub | B::Shl | B::LShr | B::AShr, _, Some(0)) => return V::S(a),
                    (B::Add | B::Or | B::Xor, Some(0), _) => return V::S(b),
                    (B::And | B::Mul, _, Some(0)) | (B::And | B::Mul, Some(0), _) => return V::C(0),
                    (B::And, _, Some(m)) if m == msk(!0, w) => return V::S(a),
                    (B::And, Some(m), _) if m == msk(!0, w) => return V::S(b),
                    (B::Mul | B::UDiv, _, Some(1)) => return V::S(a),
                    (B::Mul, Some(1), _) => return V::S(b),
                    _ => {}
                }
                if a == b {
                    match bo {
                        B::And | B::Or => return V::S(a),
                        B::Xor | B::Sub => return V::C(0),
                        _ => {}
                    }
                }
            }
            O::Cmp(p) => {
                if a == b {
                    return V::C(matches!(p, P::Eq | P::Ule | P::Uge | P::Sle | P::Sge) as u64);
                }
            }
            O::ZExt if self.nodes[a as usize].w as u32 == w => return V::S(a),
            O::Trunc => {
                let an = self.nodes[a as usize];
                if an.w as u32 == w { return V::S(a); }
                if an.op == O::ZExt || an.op == O::SExt {
                    let iw = self.nodes[an.a as usize].w as u32;
                    if iw == w { return V::S(an.a); }
                    if iw > w { return self.mk(O::Trunc, w, an.a, 0, 0, 0); }
                }
                if an.op == O::Concat {
                    let lw = self.nodes[an.b as usize].w as u32;
                    if lw == w { return if let Some(c) = ck(self, an.b) { V::C(c) } else { V::S(an.b) }; }
                    if lw > w { return self.mk(O::Trunc, w, an.b, 0, 0, 0); }
                }
            }
            O::Ite => {
                if b == c { return V::S(b); }
            }
            O::ByteOf => {
                let an = self.nodes[a as usize];
                if an.w <= 8 { return if k == 0 { self.mk_zext(a, 8) } else { V::C(0) }; }
                if an.op == O::Concat {
                    let lw = self.nodes[an.b as usize].w as u64;
                    if k * 8 + 8 <= lw {
                        return if let Some(c) = ck(self, an.b) { V::C(c >> (8 * k) & 255) } else { self.mk_byteof(an.b, k) };
                    }
                    if k * 8 >= lw && lw % 8 == 0 {
                        return if let Some(c) = ck(self, an.a) { V::C(c >> (8 * (k - lw / 8)) & 255) } else { self.mk_byteof(an.a, k - lw / 8) };
                    }
                }
                if an.op == O::ZExt {
                    let iw = self.nodes[an.a as usize].w as u64;
                    if k * 8 >= iw { return V::C(0); }
                    if k * 8 + 8 <= iw { return self.mk_byteof(an.a, k); }
                }
            }
            O::Concat => {
                if ck(self, a) == Some(0) { return self.mk_zext(b, w); }
            }
            _ => {}
        }
        V::S(self.push(n, Info { sup, var: 0, tab: None }))
    }
    pub fn mk_zext(&mut self, a: u32, w: u32) -> V {
        if self.nodes[a as usize].w as u32 == w { return V::S(a); }
        self.mk(O::ZExt, w, a, 0, 0, 0)
    }
    pub fn mk_byteof(&mut self, a: u32, k: u64) -> V {
        if self.nodes[a as usize].w == 8 && k == 0 { return V::S(a); }
        self.mk(O::ByteOf, 8, a, 0, 0, k)
    }
    pub fn vbin(&mut self, op: B, w: u32, a: &V, b: &V) -> V {
        let x = self.to_ex(a, w);
        let y = self.to_ex(b, w);
        self.mk(O::Bin(op), w, x, y, 0, 0)
    }
    pub fn vcmp(&mut self, p: P, w: u32, a: &V, b: &V) -> V {
        let x = self.to_ex(a, w);
        let y = self.to_ex(b, w);
        self.mk(O::Cmp(p), 1, x, y, 0, 0)
    }
    pub fn vite(&mut self, c: &V, w: u32, a: &V, b: &V) -> V {
        if let V::C(c) = c { return if *c != 0 { a.clone() } else { b.clone() }; }
        let x = self.to_ex(c, 1);
        let y = self.to_ex(a, w);
        let z = self.to_ex(b, w);
        self.mk(O::Ite, w, x, y, z, 0)
    }
    /// All values the expression can have, when selects and 1-bit conditions
    /// among constants make them at most n.
    pub fn few(&self, e: u32, n: usize) -> Option<Vec<u64>> { self.few_in(e, n, &mut 64) }
    fn few_in(&self, e: u32, n: usize, budget: &mut u32) -> Option<Vec<u64>> {
        if *budget == 0 { return None; }
        *budget -= 1;
        let x = &self.nodes[e as usize];
        let add = |mut a: Vec<u64>, b: Vec<u64>| { for v in b { if !a.contains(&v) { a.push(v); } } if a.len() > n { None } else { Some(a) } };
        match x.op {
            O::Const => Some(vec![x.k]),
            _ if x.w == 1 => Some(vec![0, 1]),
            _ if self.info[e as usize].tab.is_some() => { let mut d: Vec<u64> = vec![]; for v in self.info[e as usize].tab.as_ref().unwrap().iter() { if !d.contains(v) { d.push(*v); if d.len() > n { return None; } } } Some(d) }
            O::ByteOf => add(vec![], self.few_in(x.a, n, budget)?.into_iter().map(|v| v >> (8 * x.k) & 255).collect()),
            O::Ite => add(self.few_in(x.b, n, budget)?, self.few_in(x.c, n, budget)?),
            O::ZExt => self.few_in(x.a, n, budget),
            O::SExt => { let w = self.nodes[x.a as usize].w as u32; Some(self.few_in(x.a, n, budget)?.into_iter().map(|v| msk(sext(v, w), x.w as u32)).collect()) }
            O::Trunc => add(vec![], self.few_in(x.a, n, budget)?.into_iter().map(|v| msk(v, x.w as u32)).collect()),
            O::Bin(op) => {
                let (a, b) = (self.few_in(x.a, n, budget)?, self.few_in(x.b, n, budget)?);
                let mut v = vec![];
                for p in &a { for q in &b { v.push(bin(op, x.w as u32, *p, *q)?); } }
                add(vec![], v)
            }
            _ => None,
        }
    }
    pub fn eval(&self, e: u32, model: &[u8]) -> u64 {
        let inf = &self.info[e as usize];
        if let Some(t) = &inf.tab { return t[model[inf.var as usize] as usize]; }
        let n = self.nodes[e as usize];
        if n.op == O::Const { return n.k; }
        // iterative memo evaluation for DAGs
        let mut memo: HashMap<u32, u64> = HashMap::new();
        self.eval_rec(e, model, &mut memo)
    }
    fn eval_rec(&self, e: u32, model: &[u8], memo: &mut HashMap<u32, u64>) -> u64 {
        let inf = &self.info[e as usize];
        if let Some(t) = &inf.tab { return t[model[inf.var as usize] as usize]; }
        let n = self.nodes[e as usize];
        if n.op == O::Const { return n.k; }
        if let Some(v) = memo.get(&e) { return *v; }
        let na = match n.op { O::ZExt | O::SExt | O::Trunc | O::ByteOf => 1, O::Ite => 3, _ => 2 };
        let va = self.eval_rec(n.a, model, memo);
        let vb = if na > 1 { self.eval_rec(n.b, model, memo) } else { 0 };
        let vc = if na > 2 { self.eval_rec(n.c, model, memo) } else { 0 };
        let (a, b) = (n.a, n.b);
        let r = self.apply(&n, |x| if x == a { va } else if na > 1 && x == b { vb } else { vc }).unwrap_or(0);
        memo.insert(e, r);
        r
    }
}
