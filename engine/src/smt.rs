//! Z3 through its C API (system libz3).
use crate::expr::*;
use crate::ir::{B, P};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Z) -> Z;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, s: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_extract(c: Z, h: c_uint, l: c_uint, a: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, compl: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, v: *mut u64) -> bool;
    fn Z3_get_error_code(c: Z) -> c_int;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

pub struct Smt {
    c: Z,
    s: Z,
    cache: HashMap<u32, Z>,
    vars: HashMap<u32, Z>,
    pub queries: u64,
    pub time: f64,
    pub unknown: u64,
}

pub enum R {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

impl Smt {
    pub fn version() -> String {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
        format!("{}.{}.{}", a, b, c)
    }
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("auto_config").unwrap();
            let v = CString::new("false").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 4_000_000);
            Z3_solver_set_params(c, s, p);
            Smt { c, s, cache: HashMap::new(), vars: HashMap::new(), queries: 0, time: 0.0, unknown: 0 }
        }
    }
    fn keep(&self, a: Z) -> Z {
        unsafe {
            let e = Z3_get_error_code(self.c);
            assert!(e == 0 && !a.is_null(), "z3 error {}", e);
            Z3_inc_ref(self.c, a);
        }
        a
    }
    fn num(&self, v: u64, w: u32) -> Z {
        unsafe { self.keep(Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w))) }
    }
    fn var(&mut self, k: u32) -> Z {
        if let Some(z) = self.vars.get(&k) { return *z; }
        let z = unsafe { self.keep(Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, k as c_int), Z3_mk_bv_sort(self.c, 8))) };
        self.vars.insert(k, z);
        z
    }
    fn in_set(&mut self, var: u32, d: &Dom) -> Z {
        let x = self.var(var);
        let mut parts: Vec<Z> = vec![];
        let mut i = 0;
        unsafe {
            while i < 256 {
                if dom_has(d, i) {
                    let st = i;
                    while i + 1 < 256 && dom_has(d, i + 1) { i += 1; }
                    if st == i {
                        parts.push(self.keep(Z3_mk_eq(self.c, x, self.num(st as u64, 8))));
                    } else {
                        let a = self.keep(Z3_mk_bvule(self.c, self.num(st as u64, 8), x));
                        let b = self.keep(Z3_mk_bvule(self.c, x, self.num(i as u64, 8)));
                        let ab = [a, b];
                        parts.push(self.keep(Z3_mk_and(self.c, 2, ab.as_ptr())));
                    }
                }
                i += 1;
            }
            self.keep(Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()))
        }
    }
    fn tr(&mut self, ex: &Exprs, e: u32) -> Z {
        if let Some(z) = self.cache.get(&e) { return *z; }
        let n = ex.nodes[e as usize];
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                O::Var => self.var(n.a),
                O::Const => self.num(n.k, w),
                O::Tab => {
                    // group inputs by value: nested ite over value classes
                    let t = ex.tabs[n.k as usize].clone();
                    let mut groups: Vec<(u64, Dom)> = vec![];
                    for x in 0..256 {
                        match groups.iter_mut().find(|g| g.0 == t[x]) {
                            Some(g) => dom_set(&mut g.1, x),
                            None => { let mut d = [0; 4]; dom_set(&mut d, x); groups.push((t[x], d)); }
                        }
                    }
                    let mut acc = self.num(groups[0].0, w);
                    for (v, d) in groups.iter().skip(1) {
                        let c = self.in_set(n.a, d);
                        acc = self.keep(Z3_mk_ite(self.c, c, self.num(*v, w), acc));
                    }
                    acc
                }
                O::Bin(b) => {
                    let x = self.tr(ex, n.a);
                    let y = self.tr(ex, n.b);
                    let f = match b {
                        B::Add => Z3_mk_bvadd, B::Sub => Z3_mk_bvsub, B::Mul => Z3_mk_bvmul,
                        B::UDiv => Z3_mk_bvudiv, B::URem => Z3_mk_bvurem, B::SDiv => Z3_mk_bvsdiv,
                        B::SRem => Z3_mk_bvsrem, B::And => Z3_mk_bvand, B::Or => Z3_mk_bvor,
                        B::Xor => Z3_mk_bvxor, B::Shl => Z3_mk_bvshl, B::LShr => Z3_mk_bvlshr,
                        B::AShr => Z3_mk_bvashr,
                    };
                    self.keep(f(self.c, x, y))
                }
                O::Cmp(p) => {
                    let x = self.tr(ex, n.a);
                    let y = self.tr(ex, n.b);
                    let c = self.c;
                    let b = match p {
                        P::Eq => Z3_mk_eq(c, x, y),
                        P::Ne => Z3_mk_not(c, self.keep(Z3_mk_eq(c, x, y))),
                        P::Ult => Z3_mk_bvult(c, x, y),
                        P::Ule => Z3_mk_bvule(c, x, y),
                        P::Ugt => Z3_mk_bvult(c, y, x),
                        P::Uge => Z3_mk_bvule(c, y, x),
                        P::Slt => Z3_mk_bvslt(c, x, y),
                        P::Sle => Z3_mk_bvsle(c, x, y),
                        P::Sgt => Z3_mk_bvslt(c, y, x),
                        P::Sge => Z3_mk_bvsle(c, y, x),
                    };
                    let b = self.keep(b);
                    self.keep(Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1)))
                }
                O::ZExt => { let x = self.tr(ex, n.a); self.keep(Z3_mk_zero_ext(self.c, w - ex.nodes[n.a as usize].w as u32, x)) }
                O::SExt => { let x = self.tr(ex, n.a); self.keep(Z3_mk_sign_ext(self.c, w - ex.nodes[n.a as usize].w as u32, x)) }
                O::Trunc => { let x = self.tr(ex, n.a); self.keep(Z3_mk_extract(self.c, w - 1, 0, x)) }
                O::Ite => {
                    let x = self.tr(ex, n.a);
                    let y = self.tr(ex, n.b);
                    let z = self.tr(ex, n.c);
                    let b = self.keep(Z3_mk_eq(self.c, x, self.num(1, 1)));
                    self.keep(Z3_mk_ite(self.c, b, y, z))
                }
                O::ByteOf => {
                    let x = self.tr(ex, n.a);
                    let aw = ex.nodes[n.a as usize].w as u32;
                    let lo = 8 * n.k as u32;
                    if lo >= aw { self.num(0, 8) }
                    else if lo + 8 <= aw { self.keep(Z3_mk_extract(self.c, lo + 7, lo, x)) }
                    else {
                        let h = self.keep(Z3_mk_extract(self.c, aw - 1, lo, x));
                        self.keep(Z3_mk_zero_ext(self.c, 8 - (aw - lo), h))
                    }
                }
                O::Concat => {
                    let x = self.tr(ex, n.a);
                    let y = self.tr(ex, n.b);
                    let aw = ex.nodes[n.a as usize].w as u32;
                    let bw = ex.nodes[n.b as usize].w as u32;
                    let r = self.keep(Z3_mk_concat(self.c, x, y));
                    assert!(aw + bw >= w);
                    if aw + bw > w { self.keep(Z3_mk_extract(self.c, w - 1, 0, r)) } else { r }
                }
            }
        };
        self.cache.insert(e, r);
        r
    }
    /// Is there an assignment within the domains satisfying all `cons` (each an
    /// 1-bit expression required to have the given value)?
    pub fn check(&mut self, ex: &Exprs, doms: &[(u32, Dom)], cons: &[(u32, bool)], vals: &[(u32, u64)]) -> R {
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                let z = self.in_set(*v, d);
                Z3_solver_assert(self.c, self.s, z);
            }
            for (e, b) in cons {
                let z = self.tr(ex, *e);
                let q = self.keep(Z3_mk_eq(self.c, z, self.num(*b as u64, 1)));
                Z3_solver_assert(self.c, self.s, q);
            }
            for (e, v) in vals {
                let w = ex.nodes[*e as usize].w as u32;
                let z = self.tr(ex, *e);
                let q = self.keep(Z3_mk_eq(self.c, z, self.num(*v, w)));
                Z3_solver_assert(self.c, self.s, q);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (v, _) in doms {
                        let z = self.var(*v);
                        let mut o: Z = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, z, true, &mut o);
                        assert!(ok);
                        let mut x = 0u64;
                        assert!(Z3_get_numeral_uint64(self.c, o, &mut x));
                        out.push((*v, x as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    R::Sat(out)
                }
                -1 => R::Unsat,
                _ => { self.unknown += 1; R::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        r
    }
    /// Certify a table decision: for every x in d, e(x) equals the value of its group.
    pub fn certify_groups(&mut self, ex: &Exprs, var: u32, d: &Dom, e: u32, groups: &[(u64, Dom)]) -> bool {
        let t0 = Instant::now();
        self.queries += 1;
        let w = ex.nodes[e as usize].w as u32;
        let ok = unsafe {
            Z3_solver_push(self.c, self.s);
            let zd = self.in_set(var, d);
            Z3_solver_assert(self.c, self.s, zd);
            let ze = self.tr(ex, e);
            let mut bad: Vec<Z> = vec![];
            for (v, g) in groups {
                let zg = self.in_set(var, g);
                let ne = self.keep(Z3_mk_not(self.c, self.keep(Z3_mk_eq(self.c, ze, self.num(*v, w)))));
                let both = [zg, ne];
                bad.push(self.keep(Z3_mk_and(self.c, 2, both.as_ptr())));
            }
            let q = self.keep(Z3_mk_or(self.c, bad.len() as c_uint, bad.as_ptr()));
            Z3_solver_assert(self.c, self.s, q);
            let r = Z3_solver_check(self.c, self.s);
            Z3_solver_pop(self.c, self.s, 1);
            if r == 0 { self.unknown += 1; }
            r != 1
        };
        self.time += t0.elapsed().as_secs_f64();
        ok
    }
}
