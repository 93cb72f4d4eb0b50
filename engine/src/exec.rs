//! Symbolic executor: states, memory, instruction semantics, forking.
use crate::expr::*;
use crate::ir::*;
use crate::smt::{Smt, R};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<u32>>, // expr id + 1 per byte, 0 = concrete
    pub heap: bool,
}

const CH: usize = 64;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u32,
}

impl Mem {
    fn get(&self, slot: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(slot as usize / CH)?[slot as usize % CH].as_ref()
    }
    fn get_mut(&mut self, slot: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(slot as usize / CH)?;
        if c[slot as usize % CH].is_none() { return None; }
        let c = Rc::make_mut(c);
        Some(Rc::make_mut(c[slot as usize % CH].as_mut().unwrap()))
    }
    fn put(&mut self, slot: u32, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= slot as usize / CH { self.chunks.push(Rc::new(vec![None; CH])); }
        let c = Rc::make_mut(&mut self.chunks[slot as usize / CH]);
        c[slot as usize % CH] = o;
    }
    fn alloc(&mut self, size: usize, heap: bool) -> u32 {
        let s = self.next;
        self.next += 1;
        self.put(s, Some(Rc::new(Obj { data: vec![0; size], sym: None, heap })));
        s
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret: u32,
    pub after: u32, // block to continue at in the caller (invoke), or NODST
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub doms: Vec<Dom>,
    pub init: Vec<u16>,
    pub single: u128,
    pub cons: Vec<(u32, bool)>,
    pub consup: u128,
    pub pins: Vec<(u32, u64)>,
    pub model: Vec<u8>,
    pub steps: u64,
    pub budget: u64,
    pub h: u16,
    pub trace: Vec<V>,
    pub io: Rc<Io>,
}

/// Model of the process environment for harnesses that run the CLI.
#[derive(Clone, Default)]
pub struct Io {
    pub file: Vec<V>,
    pub stdin: Vec<V>,
    pub fpos: usize,
    pub ipos: usize,
    pub out: Vec<V>,
    pub err: Vec<V>,
    pub exit: Option<u32>, // function id called on exit(code)
    pub eofs: u32,
    pub chunk: usize, // most bytes one read gives
}

pub enum Stop {
    Conc(u32),
    Viol(String, String),
    Unsup(String),
    End,
    Assumed,
}
type Rs<T> = Result<T, Stop>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Body,
    Panic,
    HashZero,
    HashNop,
    Builtin(Bi),
    Undef,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bi {
    SymByte, SymBelow, SymAssume, SymCheck, SymReach, SymEnd, SymTier, SymDigest, SymBudget, SymConc,
    Alloc, AllocZ, Realloc, Dealloc, Nop, MemCpy, MemMove, MemSet, Bcmp, Memcmp, Strlen, HashKeys, Exit, Abort,
    IoSetup, IoOut, Sigaction, PageSize, Read, Write, Writev, Open, Fstat, Statx, Lseek, Close, Errno, Getenv, Syscall, Poll, RetZero, RetMinus1, CxaAtexit, GetRandom,
}

#[derive(Default, Clone)]
pub struct HStat {
    pub paths: u64,
    pub assumed: u64,
    pub weight: f64,
    pub weight_unknown: u64,
    pub checks: u64,
    pub symchecks: u64,
    pub left: u64,
    pub forks: u64,
    pub steps: u64,
    pub reach: BTreeMap<u32, u64>,
    pub samples: Vec<(Vec<u8>, u64)>,
    pub viol: Vec<(String, String, Vec<u8>)>,
    pub unsup: Vec<String>,
    pub maxsteps: u64,
}

pub struct Eng {
    pub m: Module,
    pub kinds: Vec<Option<Kind>>,
    pub bodies: Vec<Option<&'static Func>>,
    pub ex: Exprs,
    pub smt: Smt,
    pub cglob: Vec<Option<Rc<Obj>>>,
    pub cache: HashMap<Vec<u64>, Option<Vec<(u32, u8)>>>,
    pub certified: HashSet<(u32, Dom)>,
    pub cert_queries: u64,
    pub cert_fail: u64,
    pub cert_rate: u64,
    pub stats: Vec<HStat>,
    pub work: Vec<State>,
    pub executed: HashSet<u32>,
    pub tier: u64,
    pub concrete: Option<Vec<u8>>,
    pub default_budget: u64,
    pub fp_ops: u64,
    pub deadline: Option<std::time::Instant>,
    pub debug_forks: bool,
    pub forkmap: HashMap<String, (u64, usize)>,
}

fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h;
    for i in 0..8 {
        h ^= (v >> (8 * i)) & 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Eng {
    pub fn new(m: Module) -> Eng {
        let nf = m.funcs.len();
        let mut cglob = vec![];
        for g in &m.globals {
            if g.constant {
                cglob.push(Some(Rc::new(Obj { data: g.bytes.clone(), sym: None, heap: false })));
            } else {
                cglob.push(None);
            }
        }
        Eng {
            m,
            kinds: vec![None; nf],
            bodies: vec![None; nf],
            ex: Exprs::new(),
            smt: Smt::new(),
            cglob,
            cache: HashMap::new(),
            certified: HashSet::new(),
            cert_queries: 0,
            cert_fail: 0,
            cert_rate: 1,
            stats: vec![],
            work: vec![],
            executed: HashSet::new(),
            tier: 0,
            concrete: None,
            default_budget: 20_000_000,
            fp_ops: 0,
            deadline: None,
            debug_forks: false,
            forkmap: HashMap::new(),
        }
    }

    pub fn initial(&mut self, h: u16, func: &str) -> Option<State> {
        let fid = *self.m.fidx.get(func)?;
        let mut mem = Mem { chunks: vec![], next: FIRST_GLOBAL + self.m.globals.len() as u32 };
        for (k, g) in self.m.globals.iter().enumerate() {
            if !g.constant {
                mem.put(FIRST_GLOBAL + k as u32, Some(Rc::new(Obj { data: g.bytes.clone(), sym: None, heap: false })));
            }
        }
        let f = self.body(fid);
        let fr = Frame { f, bb: 0, ip: 0, regs: vec![V::C(0); f.nregs], allocas: vec![], ret: NODST, after: NODST };
        Some(State {
            frames: vec![Rc::new(fr)],
            mem,
            doms: vec![],
            init: vec![],
            single: 0,
            cons: vec![],
            consup: 0,
            pins: vec![],
            model: vec![],
            steps: 0,
            budget: self.default_budget,
            h,
            trace: vec![],
            io: Rc::new(Io::default()),
        })
    }

    fn body(&mut self, fid: u32) -> &'static Func {
        if let Some(f) = self.bodies[fid as usize] { return f; }
        let f = self.m.parse_func(fid);
        let f: &'static Func = Box::leak(Box::new(f));
        self.bodies[fid as usize] = Some(f);
        f
    }

    fn kind(&mut self, fid: u32) -> Kind {
        if let Some(k) = self.kinds[fid as usize] { return k; }
        let n = self.m.funcs[fid as usize].name.clone();
        let has = self.m.funcs[fid as usize].body.is_some();
        let n = n.as_str();
        let k = if n == "sym_byte" { Kind::Builtin(Bi::SymByte) }
        else if n == "sym_below" { Kind::Builtin(Bi::SymBelow) }
        else if n == "sym_assume" { Kind::Builtin(Bi::SymAssume) }
        else if n == "sym_check" { Kind::Builtin(Bi::SymCheck) }
        else if n == "sym_reach" { Kind::Builtin(Bi::SymReach) }
        else if n == "sym_end" { Kind::Builtin(Bi::SymEnd) }
        else if n == "sym_tier" { Kind::Builtin(Bi::SymTier) }
        else if n == "sym_digest" { Kind::Builtin(Bi::SymDigest) }
        else if n == "sym_budget" { Kind::Builtin(Bi::SymBudget) }
        else if n == "sym_conc" { Kind::Builtin(Bi::SymConc) }
        else if n == "sym_io_setup" { Kind::Builtin(Bi::IoSetup) }
        else if n == "sym_io_out" { Kind::Builtin(Bi::IoOut) }
        else if n.ends_with("___rust_alloc") { Kind::Builtin(Bi::Alloc) }
        else if n.ends_with("___rust_alloc_zeroed") { Kind::Builtin(Bi::AllocZ) }
        else if n.ends_with("___rust_realloc") { Kind::Builtin(Bi::Realloc) }
        else if n.ends_with("___rust_dealloc") { Kind::Builtin(Bi::Dealloc) }
        else if n.contains("no_alloc_shim_is_unstable") { Kind::Builtin(Bi::Nop) }
        else if n == "memcpy" { Kind::Builtin(Bi::MemCpy) }
        else if n == "memmove" { Kind::Builtin(Bi::MemMove) }
        else if n == "memset" { Kind::Builtin(Bi::MemSet) }
        else if n == "bcmp" { Kind::Builtin(Bi::Bcmp) }
        else if n == "memcmp" { Kind::Builtin(Bi::Memcmp) }
        else if n == "strlen" { Kind::Builtin(Bi::Strlen) }
        else if n.contains("hashmap_random_keys") { Kind::Builtin(Bi::HashKeys) }
        else if n == "exit" || n == "_exit" { Kind::Builtin(Bi::Exit) }
        else if n == "abort" { Kind::Builtin(Bi::Abort) }
        else if n == "read" { Kind::Builtin(Bi::Read) }
        else if n == "write" { Kind::Builtin(Bi::Write) }
        else if n == "writev" { Kind::Builtin(Bi::Writev) }
        else if n == "open64" || n == "open" { Kind::Builtin(Bi::Open) }
        else if n == "fstat64" || n == "fstat" { Kind::Builtin(Bi::Fstat) }
        else if n == "statx" { Kind::Builtin(Bi::Statx) }
        else if n == "lseek64" || n == "lseek" { Kind::Builtin(Bi::Lseek) }
        else if n == "close" { Kind::Builtin(Bi::Close) }
        else if n == "__errno_location" { Kind::Builtin(Bi::Errno) }
        else if n == "getrandom" { Kind::Builtin(Bi::GetRandom) }
        else if n == "getenv" { Kind::Builtin(Bi::Getenv) }
        else if n == "poll" || n == "signal" || n == "sigaltstack" || n == "munmap" || n == "pthread_self" || n == "isatty" { Kind::Builtin(Bi::RetZero) }
        else if n == "sysconf" || n == "getpagesize" { Kind::Builtin(Bi::PageSize) }
        else if n == "pthread_getattr_np" { Kind::Builtin(Bi::RetMinus1) }
        else if n == "sigaction" { Kind::Builtin(Bi::Sigaction) }
        else if n == "syscall" { Kind::Builtin(Bi::Syscall) }
        else if n == "__cxa_thread_atexit_impl" { Kind::Builtin(Bi::CxaAtexit) }
        else if n.contains("4core4hash6Hasher") && (n.contains("6finish")) { Kind::HashZero }
        else if n.contains("8hash_one") { Kind::HashZero }
        else if n.contains("4core4hash6Hasher") && n.contains("5write") { Kind::HashNop }
        else if (n.contains("9panicking") && !n.contains("panic_count") && !n.contains("7panicking4HOOK"))
            || n.contains("13expect_failed") || n.contains("13unwrap_failed") || n.contains("slice_index_fail")
            || n.contains("slice_error_fail") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow")
            || n.contains("12handle_error") || n.contains("rust_begin_unwind") || n.contains("_Unwind_")
            || n.contains("___rust_start_panic") || n.contains("index_fail") || n.contains("len_mismatch_fail")
            || n.contains("10assert_failed")
        { Kind::Panic }
        else if has { Kind::Body }
        else { Kind::Undef };
        self.kinds[fid as usize] = Some(k);
        k
    }

    // ---------------------------------------------------------------- values
    fn try_const(&self, st: &State, e: u32) -> Option<u64> {
        let inf = &self.ex.info[e as usize];
        if let Some(t) = &inf.tab {
            let d = &st.doms[inf.var as usize];
            let mut it = dom_iter(d);
            let f = t[it.next()?];
            for x in it {
                if t[x] != f { return None; }
            }
            return Some(f);
        }
        let n = &self.ex.nodes[e as usize];
        if n.op == O::Const { return Some(n.k); }
        if inf.sup & !st.single == 0 { return Some(self.ex.eval(e, &st.model)); }
        for (p, v) in st.pins.iter() {
            if *p == e { return Some(*v); }
        }
        None
    }

    /// Simplify under the current domains.
    fn simp(&mut self, st: &State, v: V) -> V {
        if let V::S(e) = v {
            if let Some(c) = self.try_const(st, e) { return V::C(c); }
            let inf = &self.ex.info[e as usize];
            if inf.tab.is_none() {
                let rest = inf.sup & !st.single;
                if rest & (rest - 1) == 0 {
                    let var = rest.trailing_zeros();
                    let w = self.ex.nodes[e as usize].w as u32;
                    let mut model = st.model.clone();
                    let d = st.doms[var as usize];
                    let mut t = vec![0u64; 256];
                    let mut first = None;
                    for x in dom_iter(&d) {
                        model[var as usize] = x as u8;
                        t[x] = self.ex.eval(e, &model);
                        if first.is_none() { first = Some(t[x]); }
                    }
                    let f = first.unwrap_or(0);
                    for x in 0..256 { if !dom_has(&d, x) { t[x] = f; } }
                    return self.ex.tab(var, w, t);
                }
            }
        }
        v
    }

    fn cu(&self, st: &State, v: &V) -> Rs<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => match self.try_const(st, *e) {
                Some(c) => Ok(c),
                None => Err(Stop::Conc(*e)),
            },
            V::W(w) => Ok(**w as u64),
            V::A(_) => Err(Stop::Unsup("aggregate used as scalar".into())),
        }
    }
    fn cw(&self, st: &State, v: &V) -> Rs<u128> {
        match v {
            V::W(w) => Ok(**w),
            x => Ok(self.cu(st, x)? as u128),
        }
    }
    /// Concretize a boolean, decomposing conjunctions and disjunctions.
    fn cb(&self, st: &State, v: &V) -> Rs<bool> {
        match v {
            V::C(c) => Ok(*c & 1 != 0),
            V::S(e) => self.cbe(st, *e),
            _ => Err(Stop::Unsup("bool aggregate".into())),
        }
    }
    fn cbe(&self, st: &State, e: u32) -> Rs<bool> {
        if let Some(c) = self.try_const(st, e) { return Ok(c & 1 != 0); }
        let n = self.ex.nodes[e as usize];
        if self.ex.info[e as usize].tab.is_none() && n.w == 1 {
            match n.op {
                O::Bin(B::And) => return if !self.cbe(st, n.a)? { Ok(false) } else { self.cbe(st, n.b) },
                O::Bin(B::Or) => return if self.cbe(st, n.a)? { Ok(true) } else { self.cbe(st, n.b) },
                O::Bin(B::Xor) => {
                    if self.ex.nodes[n.b as usize].op == O::Const { return Ok(self.cbe(st, n.a)? ^ (self.ex.nodes[n.b as usize].k & 1 != 0)); }
                    if self.ex.nodes[n.a as usize].op == O::Const { return Ok(self.cbe(st, n.b)? ^ (self.ex.nodes[n.a as usize].k & 1 != 0)); }
                }
                O::Ite => return if self.cbe(st, n.a)? { self.cbe(st, n.b) } else { self.cbe(st, n.c) },
                O::ZExt | O::Trunc if self.ex.nodes[n.a as usize].w == 1 => return self.cbe(st, n.a),
                _ => {}
            }
        }
        Err(Stop::Conc(e))
    }

    fn feasible(&mut self, st: &State, extra: &[(u32, bool)], dom_override: Option<(u32, Dom)>) -> Option<Option<Vec<(u32, u8)>>> {
        // returns None = unknown, Some(None) = unsat, Some(Some(model))
        let mut sup: u128 = 0;
        for (e, _) in extra { sup |= self.ex.info[*e as usize].sup; }
        if let Some((v, _)) = dom_override { sup |= 1u128 << v; }
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, (e, _)) in st.cons.iter().enumerate() {
                if !used[i] && self.ex.info[*e as usize].sup & sup != 0 {
                    used[i] = true;
                    let ns = sup | self.ex.info[*e as usize].sup;
                    if ns != sup { sup = ns; ch = true; }
                }
            }
            if !ch { break; }
        }
        let mut cons: Vec<(u32, bool)> = st.cons.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        cons.extend_from_slice(extra);
        cons.sort();
        cons.dedup();
        let mut doms = vec![];
        let mut s = sup;
        while s != 0 {
            let v = s.trailing_zeros();
            s &= s - 1;
            let d = match dom_override { Some((ov, d)) if ov == v => d, _ => st.doms[v as usize] };
            doms.push((v, d));
        }
        let mut key = Vec::with_capacity(cons.len() + doms.len() * 5);
        for (e, b) in &cons { key.push((*e as u64) << 1 | *b as u64); }
        key.push(u64::MAX);
        for (v, d) in &doms { key.push(*v as u64); key.extend_from_slice(d); }
        if let Some(r) = self.cache.get(&key) { return Some(r.clone()); }
        let r = match self.smt.check(&self.ex, &doms, &cons, &[]) {
            R::Sat(m) => Some(m),
            R::Unsat => None,
            R::Unknown => return None,
        };
        if self.cache.len() > 2_000_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        Some(r)
    }

    fn set_dom(&self, st: &mut State, var: u32, d: Dom) {
        st.doms[var as usize] = d;
        if dom_count(&d) == 1 { st.single |= 1u128 << var; }
        if !dom_has(&d, st.model[var as usize] as usize) {
            st.model[var as usize] = dom_iter(&d).next().unwrap() as u8;
        }
    }
    fn apply_model(&self, st: &mut State, m: &[(u32, u8)]) {
        for (v, x) in m { st.model[*v as usize] = *x; }
    }
    fn add_con(&self, st: &mut State, e: u32, b: bool) {
        st.cons.push((e, b));
        st.consup |= self.ex.info[e as usize].sup;
    }

    /// All feasible (value, narrowed state) successors for expression e.
    fn split(&mut self, st: &State, e: u32) -> Rs<Vec<State>> {
        let inf_var = self.ex.info[e as usize].var;
        let tab = self.ex.info[e as usize].tab.clone();
        let mut out = vec![];
        if let Some(t) = tab {
            let d = st.doms[inf_var as usize];
            let mut groups: Vec<(u64, Dom)> = vec![];
            for x in dom_iter(&d) {
                match groups.iter_mut().find(|g| g.0 == t[x]) {
                    Some(g) => dom_set(&mut g.1, x),
                    None => { let mut nd = [0; 4]; dom_set(&mut nd, x); groups.push((t[x], nd)); }
                }
            }
            self.certify(inf_var, &d, e, &groups);
            let constrained = st.consup & (1u128 << inf_var) != 0;
            for (_, nd) in groups {
                if constrained {
                    match self.feasible(st, &[], Some((inf_var, nd))) {
                        None => return Err(Stop::Unsup("solver unknown".into())),
                        Some(None) => continue,
                        Some(Some(m)) => {
                            let mut s = st.clone();
                            self.set_dom(&mut s, inf_var, nd);
                            self.apply_model(&mut s, &m);
                            out.push(s);
                        }
                    }
                } else {
                    let mut s = st.clone();
                    self.set_dom(&mut s, inf_var, nd);
                    out.push(s);
                }
            }
            return Ok(out);
        }
        let n = self.ex.nodes[e as usize];
        if n.w == 1 {
            for b in [true, false] {
                match self.feasible(st, &[(e, b)], None) {
                    None => return self.split_var(st, e),
                    Some(None) => continue,
                    Some(Some(m)) => {
                        let mut s = st.clone();
                        self.add_con(&mut s, e, b);
                        s.pins.push((e, b as u64));
                        self.apply_model(&mut s, &m);
                        out.push(s);
                    }
                }
            }
            return Ok(out);
        }
        // a value made of few constants by selects (a tag, say): one path per value
        if let Some(vals) = self.ex.few(e, 12) {
            for v in vals {
                let k = self.ex.cst(v, n.w as u32);
                let q = match self.ex.vcmp(P::Eq, n.w as u32, &V::S(e), &V::S(k)) { V::S(q) => q, _ => return self.split_var(st, e) };
                match self.feasible(st, &[(q, true)], None) {
                    None => return self.split_var(st, e),
                    Some(None) => continue,
                    Some(Some(m)) => {
                        let mut s = st.clone();
                        self.add_con(&mut s, q, true);
                        s.pins.push((e, v));
                        self.apply_model(&mut s, &m);
                        out.push(s);
                    }
                }
            }
            return Ok(out);
        }
        self.split_var(st, e)
    }

    /// Case split on one input variable of e (used where e itself is not a decision
    /// the solver can enumerate cheaply).
    fn split_var(&mut self, st: &State, e: u32) -> Rs<Vec<State>> {
        let mut sup = self.ex.info[e as usize].sup & !st.single;
        let mut best: Option<(u32, u32)> = None;
        while sup != 0 {
            let v = sup.trailing_zeros();
            sup &= sup - 1;
            let n = dom_count(&st.doms[v as usize]);
            if n > 1 && best.map_or(true, |b| n < b.0) { best = Some((n, v)); }
        }
        match best {
            Some((_, v)) => {
                let x = self.ex.var(v);
                self.split(st, x)
            }
            None => Err(Stop::Unsup("nothing to split".into())),
        }
    }

    fn certify(&mut self, var: u32, d: &Dom, e: u32, groups: &[(u64, Dom)]) {
        if self.cert_rate == 0 || groups.len() > 64 { return; }
        if self.certified.contains(&(e, *d)) { return; }
        self.certified.insert((e, *d));
        let mut h = fnv(0xcbf29ce484222325, e as u64);
        for x in d { h = fnv(h, *x); }
        if (h >> 7) % self.cert_rate != 0 { return; }
        self.cert_queries += 1;
        if !self.smt.certify_groups(&self.ex, var, d, e, groups) {
            self.cert_fail += 1;
        }
    }

    fn concretize(&mut self, st: &mut State, e: u32) -> Rs<()> {
        let mut v = self.split(st, e)?;
        if v.is_empty() { return Err(Stop::Unsup("infeasible path".into())); }
        self.stats[st.h as usize].forks += v.len() as u64 - 1;
        if self.debug_forks && v.len() > 1 {
            let f = st.frames.last().unwrap();
            let k = format!("{} bb{} ip{} {:?}", demangle(&f.f.name), f.bb, f.ip, f.f.blocks[f.bb as usize].ins[f.ip as usize]);
            let e = self.forkmap.entry(k).or_insert((0, 0));
            e.0 += 1;
            e.1 = e.1.max(v.len());
        }
        let first = v.remove(0);
        while let Some(s) = v.pop() { self.work.push(s); }
        *st = first;
        Ok(())
    }

    // ---------------------------------------------------------------- memory
    fn robj<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> Rs<(&'a Obj, usize)> {
        let slot = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let o = if slot >= FIRST_GLOBAL && ((slot - FIRST_GLOBAL) as usize) < self.cglob.len() && self.cglob[(slot - FIRST_GLOBAL) as usize].is_some() {
            self.cglob[(slot - FIRST_GLOBAL) as usize].as_ref()
        } else {
            st.mem.get(slot)
        };
        match o {
            None => Err(Stop::Viol("memory".into(), format!("read of {} bytes at invalid or freed address {:#x}", n, addr))),
            Some(o) => {
                if off + n > o.data.len() as u64 {
                    return Err(Stop::Viol("memory".into(), format!("out-of-bounds read of {} bytes at offset {} of object of {} bytes", n, off, o.data.len())));
                }
                Ok((o, off as usize))
            }
        }
    }
    fn wobj<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> Rs<(&'a mut Obj, usize)> {
        let slot = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        match st.mem.get_mut(slot) {
            None => Err(Stop::Viol("memory".into(), format!("write of {} bytes at invalid, constant or freed address {:#x}", n, addr))),
            Some(o) => {
                if off + n > o.data.len() as u64 {
                    return Err(Stop::Viol("memory".into(), format!("out-of-bounds write of {} bytes at offset {} of object of {} bytes", n, off, o.data.len())));
                }
                Ok((o, off as usize))
            }
        }
    }
    fn load_byte(&self, st: &State, addr: u64) -> Rs<V> {
        let (o, off) = self.robj(st, addr, 1)?;
        if let Some(s) = &o.sym { if s[off] != 0 { return Ok(V::S(s[off] - 1)); } }
        Ok(V::C(o.data[off] as u64))
    }
    fn load_scalar(&mut self, st: &State, addr: u64, bits: u32) -> Rs<V> {
        let n = ((bits + 7) / 8) as usize;
        let (o, off) = self.robj(st, addr, n as u64)?;
        let symbolic = match &o.sym { None => false, Some(s) => s[off..off + n].iter().any(|x| *x != 0) };
        if !symbolic {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(V::C(msk(u64::from_le_bytes(b), bits)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let mut x = u128::from_le_bytes(b);
            if bits < 128 { x &= (1u128 << bits) - 1; }
            return Ok(V::W(Box::new(x)));
        }
        let mut bs: Vec<V> = Vec::with_capacity(n);
        for i in 0..n {
            let s = o.sym.as_ref().unwrap()[off + i];
            bs.push(if s != 0 { V::S(s - 1) } else { V::C(o.data[off + i] as u64) });
        }
        if n > 8 {
            let mut x = 0u128;
            for i in 0..n { x |= (self.cu(st, &bs[i])? as u128) << (8 * i); }
            return Ok(V::W(Box::new(x)));
        }
        // same-expression reassembly
        if let V::S(e0) = bs[0] {
            let n0 = self.ex.nodes[e0 as usize];
            if n == 1 {
                let v = if bits < 8 { self.ex.mk(O::Trunc, bits, e0, 0, 0, 0) } else { V::S(e0) };
                return Ok(self.simp(st, v));
            }
            if n0.op == O::ByteOf && n0.k == 0 && self.ex.nodes[n0.a as usize].w as usize == 8 * n {
                let a = n0.a;
                let mut same = true;
                for i in 1..n {
                    match bs[i] {
                        V::S(e) => {
                            let nd = self.ex.nodes[e as usize];
                            if !(nd.op == O::ByteOf && nd.k == i as u64 && nd.a == a) { same = false; }
                        }
                        _ => same = false,
                    }
                }
                if same { return Ok(self.simp(st, V::S(a))); }
            }
        }
        let mut acc = bs[0].clone();
        for i in 1..n {
            let w = 8 * (i as u32 + 1);
            let hi = self.ex.to_ex(&bs[i], 8);
            let lo = self.ex.to_ex(&acc, w - 8);
            acc = self.ex.mk(O::Concat, w, hi, lo, 0, 0);
        }
        if (bits as usize) < 8 * n {
            if let V::S(e) = acc { acc = self.ex.mk(O::Trunc, bits, e, 0, 0, 0); }
        }
        Ok(self.simp(st, acc))
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, bits: u32, v: &V) -> Rs<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            V::C(c) => {
                let (o, off) = self.wobj(st, addr, n as u64)?;
                let b = c.to_le_bytes();
                if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); }
                else { for i in 0..n { o.data[off + i] = if i < 8 { b[i] } else { 0 }; } }
                if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = 0; } }
            }
            V::W(w) => {
                let (o, off) = self.wobj(st, addr, n as u64)?;
                let b = w.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = 0; } }
            }
            V::S(e) => {
                let mut e = *e;
                if self.ex.nodes[e as usize].w as usize != 8 * n {
                    match self.ex.mk_zext(e, 8 * n as u32) { V::S(x) => e = x, V::C(c) => return self.store_scalar(st, addr, bits, &V::C(c)), _ => {} }
                }
                let mut bs = vec![];
                for i in 0..n { bs.push(self.ex.mk_byteof(e, i as u64)); }
                let (o, off) = self.wobj(st, addr, n as u64)?;
                Self::put_bytes(o, off, &bs);
            }
            V::A(_) => return Err(Stop::Unsup("store of aggregate as scalar".into())),
        }
        Ok(())
    }
    fn put_bytes(o: &mut Obj, off: usize, bs: &[V]) {
        let len = o.data.len();
        for (i, b) in bs.iter().enumerate() {
            match b {
                V::C(c) => {
                    o.data[off + i] = *c as u8;
                    if let Some(s) = &mut o.sym { s[off + i] = 0; }
                }
                V::S(e) => {
                    let s = o.sym.get_or_insert_with(|| vec![0; len]);
                    s[off + i] = *e + 1;
                }
                _ => panic!("put_bytes"),
            }
        }
    }
    fn get_bytes(&self, st: &State, addr: u64, n: usize) -> Rs<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.robj(st, addr, n as u64)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(match &o.sym { Some(s) if s[off + i] != 0 => V::S(s[off + i] - 1), _ => V::C(o.data[off + i] as u64) });
        }
        Ok(v)
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> Rs<()> {
        if n == 0 { return Ok(()); }
        let (data, sym) = {
            let (o, off) = self.robj(st, s, n as u64)?;
            (o.data[off..off + n].to_vec(), o.sym.as_ref().and_then(|x| if x[off..off + n].iter().any(|y| *y != 0) { Some(x[off..off + n].to_vec()) } else { None }))
        };
        let (o, off) = self.wobj(st, d, n as u64)?;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(sv) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                s[off..off + n].copy_from_slice(&sv);
            }
            None => {
                if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
            }
        }
        Ok(())
    }
    fn load(&mut self, st: &State, p: &V, ty: &Ty) -> Rs<V> {
        let addr = match p {
            V::C(c) => *c,
            V::S(e) => match self.try_const(st, *e) {
                Some(c) => c,
                None => {
                    // table load: single-variable address into concrete memory
                    let inf = &self.ex.info[*e as usize];
                    if inf.tab.is_some() && ty.is_scalar() && ty.bits() <= 64 {
                        let var = inf.var;
                        let t = inf.tab.clone().unwrap();
                        let d = st.doms[var as usize];
                        let n = ((ty.bits() + 7) / 8) as usize;
                        let mut out = vec![0u64; 256];
                        let mut ok = true;
                        let mut first = None;
                        let mut seen: Vec<(u64, u64)> = vec![];
                        for x in dom_iter(&d) {
                            let a = t[x];
                            if let Some((_, v)) = seen.iter().find(|s| s.0 == a) { out[x] = *v; continue; }
                            match self.robj(st, a, n as u64) {
                                Ok((o, off)) => {
                                    if let Some(s) = &o.sym { if s[off..off + n].iter().any(|y| *y != 0) { ok = false; break; } }
                                    let mut b = [0u8; 8];
                                    b[..n].copy_from_slice(&o.data[off..off + n]);
                                    out[x] = msk(u64::from_le_bytes(b), ty.bits());
                                    seen.push((a, out[x]));
                                    if first.is_none() { first = Some(out[x]); }
                                }
                                Err(_) => { ok = false; break; }
                            }
                        }
                        if ok {
                            let f = first.unwrap_or(0);
                            for x in 0..256 { if !dom_has(&d, x) { out[x] = f; } }
                            return Ok(self.ex.tab(var, ty.bits(), out));
                        }
                    }
                    return Err(Stop::Conc(*e));
                }
            },
            _ => return Err(Stop::Unsup("bad pointer".into())),
        };
        self.load_ty(st, addr, ty)
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> Rs<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_scalar(st, addr, ty.bits()),
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let sz = if let Ty::Vec(..) = ty { t.bits() as u64 / 8 } else { t.size() };
                if sz == 0 && *n > 0 { return Err(Stop::Unsup("vector of sub-byte".into())); }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n { v.push(self.load_ty(st, addr + i * sz, t)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(_, ts) => {
                let (offs, _) = ty.struct_layout();
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() { v.push(self.load_ty(st, addr + offs[i], t)?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsup("load type".into())),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> Rs<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, _) => self.store_scalar(st, addr, ty.bits(), v),
            (Ty::Vec(n, t) | Ty::Arr(n, t), V::A(vs)) => {
                let sz = if let Ty::Vec(..) = ty { t.bits() as u64 / 8 } else { t.size() };
                if sz == 0 && *n > 0 { return Err(Stop::Unsup("vector of sub-byte".into())); }
                for i in 0..*n { self.store_ty(st, addr + i * sz, t, &vs[i as usize])?; }
                Ok(())
            }
            (Ty::Struct(_, ts), V::A(vs)) => {
                let (offs, _) = ty.struct_layout();
                for (i, t) in ts.iter().enumerate() { self.store_ty(st, addr + offs[i], t, &vs[i])?; }
                Ok(())
            }
            _ => Err(Stop::Unsup("store type".into())),
        }
    }

    // ---------------------------------------------------------------- ops
    fn binop(&mut self, st: &State, op: B, w: u32, a: &V, b: &V) -> Rs<V> {
        if w > 64 {
            let x = self.cw(st, a)?;
            let y = self.cw(st, b)?;
            let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
            let sx = |v: u128| -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } };
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::UDiv => x.checked_div(y).ok_or_else(|| Stop::Viol("ub".into(), "division by zero".into()))?,
                B::URem => x.checked_rem(y).ok_or_else(|| Stop::Viol("ub".into(), "division by zero".into()))?,
                B::SDiv => sx(x).wrapping_div(sx(y)) as u128,
                B::SRem => sx(x).wrapping_rem(sx(y)) as u128,
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => if y >= w as u128 { 0 } else { x << y },
                B::LShr => if y >= w as u128 { 0 } else { x >> y },
                B::AShr => (sx(x) >> (y.min(127))) as u128,
            };
            return Ok(V::W(Box::new(r & m)));
        }
        match (a, b) {
            (V::C(x), V::C(y)) => match bin(op, w, *x, *y) {
                Some(r) => Ok(V::C(r)),
                None => Err(Stop::Viol("ub".into(), "division by zero".into())),
            },
            (V::C(_) | V::S(_), V::C(_) | V::S(_)) => {
                if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                    if let V::S(e) = b {
                        // divisor must be known (division by zero is a separate path)
                        self.cu(st, &V::S(*e))?;
                    }
                }
                let a = self.simp(st, a.clone());
                let b = self.simp(st, b.clone());
                let v = self.ex.vbin(op, w, &a, &b);
                Ok(self.simp(st, v))
            }
            _ => Err(Stop::Unsup("binop operands".into())),
        }
    }
    fn cmpop(&mut self, st: &State, p: P, w: u32, a: &V, b: &V) -> Rs<V> {
        if w > 64 {
            let x = self.cw(st, a)?;
            let y = self.cw(st, b)?;
            let sx = |v: u128| -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } };
            let r = match p {
                P::Eq => x == y, P::Ne => x != y, P::Ult => x < y, P::Ule => x <= y, P::Ugt => x > y, P::Uge => x >= y,
                P::Slt => sx(x) < sx(y), P::Sle => sx(x) <= sx(y), P::Sgt => sx(x) > sx(y), P::Sge => sx(x) >= sx(y),
            };
            return Ok(V::C(r as u64));
        }
        match (a, b) {
            (V::C(x), V::C(y)) => Ok(V::C(cmp(p, w, *x, *y) as u64)),
            (V::C(_) | V::S(_), V::C(_) | V::S(_)) => {
                let a = self.simp(st, a.clone());
                let b = self.simp(st, b.clone());
                let v = self.ex.vcmp(p, w, &a, &b);
                Ok(self.simp(st, v))
            }
            _ => Err(Stop::Unsup("cmp operands".into())),
        }
    }
    fn castop(&mut self, st: &State, k: Cast, from: &Ty, to: &Ty, v: &V) -> Rs<V> {
        if let (Ty::Vec(_, f), Ty::Vec(_, t), V::A(vs)) = (from, to, v) {
            if k != Cast::BitCast {
                let mut o = Vec::with_capacity(vs.len());
                for x in vs.iter() { o.push(self.castop(st, k, f, t, x)?); }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            Cast::Trunc => match v {
                V::C(c) => Ok(V::C(msk(*c, tw))),
                V::W(w) => Ok(mk_int(**w, tw)),
                V::S(e) => {
                    let r = self.ex.mk(O::Trunc, tw, *e, 0, 0, 0);
                    Ok(self.simp(st, r))
                }
                _ => Err(Stop::Unsup("trunc".into())),
            },
            Cast::ZExt => match v {
                V::C(c) => Ok(if tw > 64 { V::W(Box::new(*c as u128)) } else { V::C(*c) }),
                V::W(w) => Ok(mk_int(**w, tw)),
                V::S(e) => {
                    if tw > 64 { return Ok(V::W(Box::new(self.cu(st, v)? as u128))); }
                    let r = self.ex.mk_zext(*e, tw);
                    Ok(self.simp(st, r))
                }
                _ => Err(Stop::Unsup("zext".into())),
            },
            Cast::SExt => match v {
                V::S(e) if tw <= 64 => {
                    let r = self.ex.mk(O::SExt, tw, *e, 0, 0, 0);
                    Ok(self.simp(st, r))
                }
                _ => {
                    let c = self.cw(st, v)?;
                    let s = ((c << (128 - fw)) as i128) >> (128 - fw);
                    Ok(mk_int(s as u128, tw))
                }
            },
            Cast::BitCast => {
                // flatten to bits, rebuild
                let mut acc: u128 = 0;
                let mut pos = 0;
                match (from, v) {
                    (Ty::Vec(_, f), V::A(vs)) => {
                        let b = f.bits();
                        for x in vs.iter() {
                            acc |= self.cw(st, x)? << pos;
                            pos += b;
                        }
                    }
                    (_, x) if to.is_scalar() => return Ok(x.clone()),
                    (_, x) => acc = self.cw(st, x)?,
                }
                match to {
                    Ty::Vec(n, t) => {
                        let b = t.bits();
                        Ok(V::A(Rc::new((0..*n as u32).map(|i| mk_int(acc >> (i * b), b)).collect())))
                    }
                    _ => Ok(mk_int(acc, tw)),
                }
            }
            _ => {
                self.fp_ops += 1;
                if let V::S(e) = v {
                    if let Some(t) = self.ex.info[*e as usize].tab.clone() {
                        let var = self.ex.info[*e as usize].var;
                        let mut nt = Vec::with_capacity(256);
                        for x in t.iter() { match self.castop(st, k, from, to, &V::C(*x))? { V::C(c) => nt.push(c), _ => return Err(Stop::Unsup("fp cast".into())) } }
                        let r = self.ex.tab(var, tw, nt);
                        return Ok(self.simp(st, r));
                    }
                }
                let c = self.cu(st, v)?;
                Ok(V::C(match (k, from, to) {
                    (Cast::UiToFp, _, Ty::F64) => (c as f64).to_bits(),
                    (Cast::SiToFp, _, Ty::F64) => (sext(c, fw) as i64 as f64).to_bits(),
                    (Cast::UiToFp, _, Ty::F32) => (c as f32).to_bits() as u64,
                    (Cast::SiToFp, _, Ty::F32) => (sext(c, fw) as i64 as f32).to_bits() as u64,
                    (Cast::FpToUi, Ty::F64, _) => msk(f64::from_bits(c) as u64, tw),
                    (Cast::FpToSi, Ty::F64, _) => msk(f64::from_bits(c) as i64 as u64, tw),
                    (Cast::FpTrunc, Ty::F64, Ty::F32) => (f64::from_bits(c) as f32).to_bits() as u64,
                    (Cast::FpExt, Ty::F32, Ty::F64) => (f32::from_bits(c as u32) as f64).to_bits(),
                    _ => return Err(Stop::Unsup("fp cast".into())),
                }))
            }
        }
    }

    /// Floating point on concrete values or on the value table of one variable.
    fn fp_apply(&mut self, st: &State, a: &V, b: &V, w: u32, f: &dyn Fn(u64, u64) -> u64) -> Rs<V> {
        let a = self.simp(st, a.clone());
        let b = self.simp(st, b.clone());
        let ta = match &a { V::S(e) => self.ex.info[*e as usize].tab.clone().map(|t| (self.ex.info[*e as usize].var, t)), _ => None };
        let tb = match &b { V::S(e) => self.ex.info[*e as usize].tab.clone().map(|t| (self.ex.info[*e as usize].var, t)), _ => None };
        let (var, nt): (u32, Vec<u64>) = match (&a, &b, ta, tb) {
            (V::S(_), V::C(y), Some((v, t)), _) => (v, t.iter().map(|x| f(*x, *y)).collect()),
            (V::C(x), V::S(_), _, Some((v, t))) => (v, t.iter().map(|y| f(*x, *y)).collect()),
            (V::S(_), V::S(_), Some((v, t)), Some((v2, t2))) if v == v2 => (v, t.iter().zip(t2.iter()).map(|(x, y)| f(*x, *y)).collect()),
            _ => {
                let x = self.cu(st, &a)?;
                let y = self.cu(st, &b)?;
                return Ok(V::C(f(x, y)));
            }
        };
        let r = self.ex.tab(var, w, nt);
        Ok(self.simp(st, r))
    }

    /// Comparison of doubles on their bits: exact, zeros of both signs and NaN included.
    fn fcmp_bits(&mut self, p: &str, a: &V, b: &V) -> V {
        const ABS: u64 = !(1 << 63);
        const INF: u64 = 0x7ff << 52;
        let ex = &mut self.ex;
        let not = |ex: &mut Exprs, v: &V| ex.vbin(B::Xor, 1, v, &V::C(1));
        let mut nans = vec![];
        let mut keys = vec![];
        for v in [a, b] {
            let m = ex.vbin(B::And, 64, v, &V::C(ABS));
            nans.push(ex.vcmp(P::Ugt, 64, &m, &V::C(INF)));
            let neg = ex.vcmp(P::Slt, 64, v, &V::C(0));
            let flip = ex.vbin(B::Xor, 64, v, &V::C(u64::MAX));
            let up = ex.vbin(B::Or, 64, v, &V::C(!ABS));
            keys.push(ex.vite(&neg, 64, &flip, &up));
        }
        let un = ex.vbin(B::Or, 1, &nans[0], &nans[1]);
        let both = ex.vbin(B::Or, 64, a, b);
        let both = ex.vbin(B::And, 64, &both, &V::C(ABS));
        let zeros = ex.vcmp(P::Eq, 64, &both, &V::C(0));
        let same = ex.vcmp(P::Eq, 64, a, b);
        let eq = ex.vbin(B::Or, 1, &same, &zeros);
        let nz = not(ex, &zeros);
        let less = ex.vcmp(P::Ult, 64, &keys[0], &keys[1]);
        let more = ex.vcmp(P::Ugt, 64, &keys[0], &keys[1]);
        let lt = ex.vbin(B::And, 1, &less, &nz);
        let gt = ex.vbin(B::And, 1, &more, &nz);
        let r = match &p[1..] {
            "eq" => eq,
            "ne" => not(ex, &eq),
            "lt" => lt,
            "gt" => gt,
            "le" => ex.vbin(B::Or, 1, &lt, &eq),
            "ge" => ex.vbin(B::Or, 1, &gt, &eq),
            "rd" => V::C(1),
            _ => V::C(0),
        };
        // ordered: and neither is NaN; unordered: or one is
        if p.starts_with('o') { let ok = not(ex, &un); ex.vbin(B::And, 1, &r, &ok) } else { ex.vbin(B::Or, 1, &r, &un) }
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[V], bits: &[u32]) -> Rs<V> {
        let w = bits.get(0).copied().unwrap_or(0);
        let base = name.strip_prefix("llvm.").unwrap_or(name);
        let b = |s: &str| base.starts_with(s);
        if b("lifetime") || b("experimental.noalias") || b("x86.sse2.pause") || name == "asm.empty" || b("invariant") || b("prefetch") || b("donothing") || b("dbg") {
            return Ok(V::C(0));
        }
        if b("assume") { return Ok(V::C(0)); }
        if b("expect") { return Ok(a[0].clone()); }
        if b("is.constant") { return Ok(V::C(0)); }
        if b("threadlocal.address") || b("launder") || b("strip.invariant") || b("ptr.annotation") { return Ok(a[0].clone()); }
        if b("memcpy") || b("memmove") {
            let n = self.cu(st, &a[2])?;
            if n == 0 { return Ok(V::C(0)); }
            let d = self.cu(st, &a[0])?;
            let s = self.cu(st, &a[1])?;
            self.memcpy(st, d, s, n as usize)?;
            return Ok(V::C(0));
        }
        if b("memset") {
            let n = self.cu(st, &a[2])? as usize;
            if n == 0 { return Ok(V::C(0)); }
            let d = self.cu(st, &a[0])?;
            let v = a[1].clone();
            let bs = vec![v; n];
            let (o, off) = self.wobj(st, d, n as u64)?;
            Self::put_bytes(o, off, &bs);
            return Ok(V::C(0));
        }
        if b("trap") || b("ubsantrap") { return Err(Stop::Viol("abort".into(), "trap".into())); }
        if let V::A(_) = a[0] {
            return Err(Stop::Unsup(format!("vector intrinsic {}", name)));
        }
        if b("umin") || b("umax") || b("smin") || b("smax") {
            let p = if b("umin") { P::Ult } else if b("umax") { P::Ugt } else if b("smin") { P::Slt } else { P::Sgt };
            let c = self.cmpop(st, p, w, &a[0], &a[1])?;
            if w > 64 { return Ok(if self.cb(st, &c)? { a[0].clone() } else { a[1].clone() }); }
            let r = self.ex.vite(&c, w, &a[0], &a[1]);
            return Ok(self.simp(st, r));
        }
        if b("uadd.sat") {
            let s = self.binop(st, B::Add, w, &a[0], &a[1])?;
            let c = self.cmpop(st, P::Ult, w, &s, &a[0])?;
            let r = self.ex.vite(&c, w, &V::C(msk(!0, w)), &s);
            return Ok(self.simp(st, r));
        }
        if b("usub.sat") {
            let s = self.binop(st, B::Sub, w, &a[0], &a[1])?;
            let c = self.cmpop(st, P::Ult, w, &a[0], &a[1])?;
            let r = self.ex.vite(&c, w, &V::C(0), &s);
            return Ok(self.simp(st, r));
        }
        if b("ucmp") || b("scmp") {
            // result width from the name: llvm.ucmp.iR.iA
            let rw: u32 = base.split('.').nth(1).unwrap()[1..].parse().unwrap();
            let s = b("scmp");
            let lt = self.cmpop(st, if s { P::Slt } else { P::Ult }, w, &a[0], &a[1])?;
            let gt = self.cmpop(st, if s { P::Sgt } else { P::Ugt }, w, &a[0], &a[1])?;
            let t = self.ex.vite(&gt, rw, &V::C(1), &V::C(0));
            let r = self.ex.vite(&lt, rw, &V::C(msk(!0, rw)), &t);
            return Ok(self.simp(st, r));
        }
        if b("uadd.with.overflow") || b("usub.with.overflow") {
            let add = b("uadd");
            let s = self.binop(st, if add { B::Add } else { B::Sub }, w, &a[0], &a[1])?;
            let c = self.cmpop(st, P::Ult, w, if add { &s } else { &a[0] }, if add { &a[0] } else { &a[1] })?;
            return Ok(V::A(Rc::new(vec![s, c])));
        }
        if b("abs") {
            let neg = self.binop(st, B::Sub, w, &V::C(0), &a[0])?;
            let c = self.cmpop(st, P::Slt, w, &a[0], &V::C(0))?;
            let r = self.ex.vite(&c, w, &neg, &a[0]);
            return Ok(self.simp(st, r));
        }
        if b("fshl") || b("fshr") {
            if let (V::S(_), _) | (_, V::S(_)) = (&a[0], &a[1]) {
                let s = self.cu(st, &a[2])? % w as u64;
                let s = if b("fshl") { s } else { (w as u64 - s) % w as u64 };
                // rotate/funnel left by s
                if s == 0 { return Ok(if b("fshl") { a[0].clone() } else { a[1].clone() }); }
                let hi = self.binop(st, B::Shl, w, &a[0], &V::C(s))?;
                let lo = self.binop(st, B::LShr, w, &a[1], &V::C(w as u64 - s))?;
                return self.binop(st, B::Or, w, &hi, &lo);
            }
        }
        if b("umul.with.overflow") && w <= 32 {
            if let (V::S(_), V::C(_)) | (V::C(_), V::S(_)) = (&a[0], &a[1]) {
                let x = self.castop(st, Cast::ZExt, &Ty::Int(w), &Ty::Int(64), &a[0])?;
                let y = self.castop(st, Cast::ZExt, &Ty::Int(w), &Ty::Int(64), &a[1])?;
                let r = self.binop(st, B::Mul, 64, &x, &y)?;
                let lo = self.castop(st, Cast::Trunc, &Ty::Int(64), &Ty::Int(w), &r)?;
                let o = self.cmpop(st, P::Ugt, 64, &r, &V::C(msk(!0, w)))?;
                return Ok(V::A(Rc::new(vec![lo, o])));
            }
        }
        if w <= 64 && a.len() <= 2 {
            // single-variable argument: exact value table
            if let (V::S(e), c1) = (&a[0], a.get(1).cloned().unwrap_or(V::C(0))) {
                let inf = &self.ex.info[*e as usize];
                if let (Some(t), V::C(c1)) = (inf.tab.clone(), c1) {
                    let var = inf.var;
                    let f: Option<Box<dyn Fn(u64) -> u64>> =
                        if b("ctlz") { Some(Box::new(move |x| if x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) })) }
                        else if b("cttz") { Some(Box::new(move |x| if x == 0 { w as u64 } else { x.trailing_zeros() as u64 })) }
                        else if b("ctpop") { Some(Box::new(|x| x.count_ones() as u64)) }
                        else if b("bswap") { Some(Box::new(move |x| x.swap_bytes() >> (64 - w))) }
                        else { None };
                    let _ = c1;
                    if let Some(f) = f {
                        let nt: Vec<u64> = t.iter().map(|x| f(*x)).collect();
                        let r = self.ex.tab(var, w, nt);
                        return Ok(self.simp(st, r));
                    }
                }
            }
        }
        if b("fabs") && w == 64 && matches!(a[0], V::S(_)) { return Ok(self.ex.vbin(B::And, 64, &a[0], &V::C(!(1 << 63)))); }
        // remaining: concrete
        if w > 64 { return Err(Stop::Unsup(format!("wide intrinsic {}", name))); }
        let c0 = self.cu(st, &a[0])?;
        let c1 = if a.len() > 1 { self.cu(st, &a[1])? } else { 0 };
        let m = msk(!0, w);
        if b("umul.with.overflow") {
            let r = (c0 as u128) * (c1 as u128);
            return Ok(V::A(Rc::new(vec![V::C(msk(r as u64, w)), V::C((r > m as u128) as u64)])));
        }
        if b("smul.with.overflow") || b("sadd.with.overflow") || b("ssub.with.overflow") {
            let (x, y) = (sext(c0, w) as i64 as i128, sext(c1, w) as i64 as i128);
            let r = if b("smul") { x * y } else if b("sadd") { x + y } else { x - y };
            let tr = msk(r as u64, w);
            return Ok(V::A(Rc::new(vec![V::C(tr), V::C((sext(tr, w) as i64 as i128 != r) as u64)])));
        }
        if b("ctlz") { return Ok(V::C(if c0 == 0 { w as u64 } else { c0.leading_zeros() as u64 - (64 - w as u64) })); }
        if b("cttz") { return Ok(V::C(if c0 == 0 { w as u64 } else { c0.trailing_zeros() as u64 })); }
        if b("ctpop") { return Ok(V::C(c0.count_ones() as u64)); }
        if b("bswap") { return Ok(V::C(c0.swap_bytes() >> (64 - w))); }
        if b("bitreverse") { return Ok(V::C(c0.reverse_bits() >> (64 - w))); }
        if b("fshl") || b("fshr") {
            let s = self.cu(st, &a[2])? % w as u64;
            let cat = ((c0 as u128) << w) | c1 as u128;
            let r = if b("fshl") { (cat << s) >> w } else { cat >> s };
            return Ok(V::C(msk(r as u64, w)));
        }
        if b("fptosi.sat") || b("fptoui.sat") {
            // llvm.fptosi.sat.iN.fM
            let rw: u32 = base.split('.').nth(2).unwrap()[1..].parse().unwrap();
            if rw > 64 || (w != 64 && w != 32) { return Err(Stop::Unsup(format!("intrinsic {}", name))); }
            let x = if w == 64 { f64::from_bits(c0) } else { f32::from_bits(c0 as u32) as f64 };
            let r = if b("fptosi") { (x as i128).clamp(-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1) as u64 } else { (x as u128).min(((1u128 << rw) - 1)) as u64 };
            return Ok(V::C(msk(r, rw)));
        }
        if b("fabs") { return Ok(V::C(c0 & !(1u64 << (w - 1)))); }
        if b("copysign") { let s = 1u64 << (w - 1); return Ok(V::C((c0 & !s) | (c1 & s))); }
        if b("sadd.sat") || b("ssub.sat") || b("sshl.sat") {
            let (x, y) = (sext(c0, w) as i64 as i128, sext(c1, w) as i64 as i128);
            let r = if b("sadd") { x + y } else if b("ssub") { x - y } else { x << (y as u32).min(63) };
            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            return Ok(V::C(msk(r.clamp(lo, hi) as u64, w)));
        }
        if b("ushl.sat") {
            let r = (c0 as u128) << c1.min(63);
            return Ok(V::C(if r > m as u128 { m } else { r as u64 }));
        }
        if w == 64 || w == 32 {
            let f = |x: u64| if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
            let (x, y) = (f(c0), f(c1));
            // in f64, then rounded once to f32: exact for the operations below
            let r = match () {
                _ if b("floor") => Some(x.floor()),
                _ if b("ceil") => Some(x.ceil()),
                _ if b("trunc") => Some(x.trunc()),
                _ if b("roundeven") || b("rint") || b("nearbyint") => Some(x.round_ties_even()),
                _ if b("round") => Some(x.round()),
                _ if b("sqrt") => Some(x.sqrt()),
                _ if b("minnum") || b("minimumnum") => Some(x.min(y)),
                _ if b("maxnum") || b("maximumnum") => Some(x.max(y)),
                _ => None,
            };
            if let Some(r) = r { return Ok(V::C(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 })); }
            if b("fma") || b("fmuladd") {
                let z = self.cu(st, &a[2])?;
                return Ok(V::C(if w == 64 { if b("fmuladd") { (x * y + f(z)).to_bits() } else { x.mul_add(y, f(z)).to_bits() } }
                    else { f32::from_bits(c0 as u32).mul_add(f32::from_bits(c1 as u32), f32::from_bits(z as u32)).to_bits() as u64 }));
            }
            if b("powi") { let n = c1 as u32 as i32; return Ok(V::C(if w == 64 { x.powi(n).to_bits() } else { f32::from_bits(c0 as u32).powi(n).to_bits() as u64 })); }
            if w == 64 {
                let r = match () {
                    _ if b("pow.") => Some(x.powf(y)), _ if b("exp2.") => Some(x.exp2()), _ if b("exp.") => Some(x.exp()),
                    _ if b("log10.") => Some(x.log10()), _ if b("log2.") => Some(x.log2()), _ if b("log.") => Some(x.ln()),
                    _ if b("sin.") => Some(x.sin()), _ if b("cos.") => Some(x.cos()), _ => None,
                };
                if let Some(r) = r { return Ok(V::C(r.to_bits())); }
            }
        }
        Err(Stop::Unsup(format!("intrinsic {}", name)))
    }

    fn bcmp_bytes(&mut self, st: &State, x: u64, y: u64, n: usize) -> Rs<i64> {
        // forks per byte (single-variable decisions stay exact)
        for i in 0..n as u64 {
            let a = self.load_byte(st, x + i)?;
            let b = self.load_byte(st, y + i)?;
            let e = self.cmpop(st, P::Eq, 8, &a, &b)?;
            if !self.cb(st, &e)? {
                let l = self.cmpop(st, P::Ult, 8, &a, &b)?;
                return Ok(if self.cb(st, &l)? { -1 } else { 1 });
            }
        }
        Ok(0)
    }
    fn bcmp_eq(&mut self, st: &State, x: u64, y: u64, n: usize) -> Rs<bool> {
        // concrete differences first: no need to fork if some byte surely differs
        for i in 0..n as u64 {
            if let (V::C(a), V::C(b)) = (self.load_byte(st, x + i)?, self.load_byte(st, y + i)?) {
                if a != b { return Ok(false); }
            }
        }
        for i in 0..n as u64 {
            let a = self.load_byte(st, x + i)?;
            let b = self.load_byte(st, y + i)?;
            let e = self.cmpop(st, P::Eq, 8, &a, &b)?;
            if !self.cb(st, &e)? { return Ok(false); }
        }
        Ok(true)
    }

    pub fn stack(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev().take(12) {
            s.push(demangle(&f.f.name));
        }
        s.join(" < ")
    }

    fn new_var(&mut self, st: &mut State, d: Dom) -> V {
        let k = st.doms.len();
        if let Some(c) = &self.concrete {
            let x = c.get(k).copied().unwrap_or(0);
            let mut nd = [0; 4];
            let x = if dom_has(&d, x as usize) { x } else { dom_iter(&d).next().unwrap() as u8 };
            dom_set(&mut nd, x as usize);
            st.doms.push(nd);
            st.init.push(1);
            st.model.push(x);
            if k < 128 { st.single |= 1u128 << k; }
            return V::C(x as u64);
        }
        let e = self.ex.var(k as u32);
        let c = dom_count(&d);
        st.doms.push(d);
        st.init.push(c as u16);
        st.model.push(dom_iter(&d).next().unwrap() as u8);
        if c == 1 { st.single |= 1u128 << k; return V::C(dom_iter(&d).next().unwrap() as u64); }
        V::S(e)
    }

    fn builtin(&mut self, st: &mut State, bi: Bi, a: &[V]) -> Rs<V> {
        match bi {
            Bi::SymByte => Ok(self.new_var(st, FULL)),
            Bi::SymBelow => {
                let n = self.cu(st, &a[0])?;
                let mut d = [0; 4];
                for i in 0..n.min(256) { dom_set(&mut d, i as usize); }
                if n == 0 { return Err(Stop::Unsup("sym_below(0)".into())); }
                Ok(self.new_var(st, d))
            }
            Bi::SymAssume => {
                if self.cb(st, &a[0])? { Ok(V::C(0)) } else { Err(Stop::Assumed) }
            }
            Bi::SymCheck => {
                let h = st.h as usize;
                let id = self.cu(st, &a[1])?;
                match &a[0] {
                    V::C(c) => {
                        self.stats[h].checks += 1;
                        if *c & 1 == 0 { return Err(Stop::Viol(format!("check-{}", id), String::new())); }
                    }
                    V::S(_) => {
                        let ok = self.cb(st, &a[0])?;
                        self.stats[h].checks += 1;
                        self.stats[h].symchecks += 1;
                        if !ok { return Err(Stop::Viol(format!("check-{}", id), String::new())); }
                    }
                    _ => {}
                }
                Ok(V::C(0))
            }
            Bi::SymReach => {
                let id = self.cu(st, &a[0])? as u32;
                *self.stats[st.h as usize].reach.entry(id).or_insert(0) += 1;
                st.trace.push(V::C(id as u64 | 1 << 40));
                Ok(V::C(0))
            }
            Bi::SymDigest => {
                st.trace.push(a[0].clone());
                Ok(V::C(0))
            }
            Bi::SymEnd => Err(Stop::End),
            Bi::SymTier => Ok(V::C(self.tier)),
            Bi::SymBudget => {
                st.budget = self.cu(st, &a[0])?;
                Ok(V::C(0))
            }
            Bi::SymConc => Ok(V::C(self.cu(st, &a[0])?)),
            Bi::Alloc | Bi::AllocZ => {
                let n = self.cu(st, &a[0])?;
                if n > 1 << 30 { return Err(Stop::Viol("alloc".into(), format!("huge allocation {}", n))); }
                Ok(V::C((st.mem.alloc(n as usize, true) as u64) << 32))
            }
            Bi::Realloc => {
                let p = self.cu(st, &a[0])?;
                let old = self.cu(st, &a[1])? as usize;
                let n = self.cu(st, &a[3])? as usize;
                if n > 1 << 30 { return Err(Stop::Viol("alloc".into(), format!("huge allocation {}", n))); }
                let s = st.mem.alloc(n, true);
                self.memcpy(st, (s as u64) << 32, p, old.min(n))?;
                st.mem.put((p >> 32) as u32, None);
                Ok(V::C((s as u64) << 32))
            }
            Bi::Dealloc => {
                let p = self.cu(st, &a[0])?;
                match st.mem.get((p >> 32) as u32) {
                    Some(o) if o.heap && p & 0xffff_ffff == 0 => {}
                    _ => return Err(Stop::Viol("memory".into(), format!("invalid free {:#x}", p))),
                }
                st.mem.put((p >> 32) as u32, None);
                Ok(V::C(0))
            }
            Bi::Nop => Ok(V::C(0)),
            Bi::MemCpy | Bi::MemMove => {
                let n = self.cu(st, &a[2])?;
                let d = self.cu(st, &a[0])?;
                let s = self.cu(st, &a[1])?;
                self.memcpy(st, d, s, n as usize)?;
                Ok(V::C(d))
            }
            Bi::MemSet => {
                let n = self.cu(st, &a[2])? as usize;
                let d = self.cu(st, &a[0])?;
                if n > 0 {
                    let v = self.castop(st, Cast::Trunc, &Ty::Int(32), &Ty::Int(8), &a[1])?;
                    let bs = vec![v; n];
                    let (o, off) = self.wobj(st, d, n as u64)?;
                    Self::put_bytes(o, off, &bs);
                }
                Ok(V::C(d))
            }
            Bi::Bcmp => {
                let n = self.cu(st, &a[2])? as usize;
                if n == 0 { return Ok(V::C(0)); }
                let x = self.cu(st, &a[0])?;
                let y = self.cu(st, &a[1])?;
                Ok(V::C(!self.bcmp_eq(st, x, y, n)? as u64))
            }
            Bi::Memcmp => {
                let n = self.cu(st, &a[2])? as usize;
                if n == 0 { return Ok(V::C(0)); }
                let x = self.cu(st, &a[0])?;
                let y = self.cu(st, &a[1])?;
                Ok(V::C(msk(self.bcmp_bytes(st, x, y, n)? as u64, 32)))
            }
            Bi::Strlen => {
                let p = self.cu(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_byte(st, p + n)?;
                    if self.cu(st, &b)? == 0 { break; }
                    n += 1;
                }
                Ok(V::C(n))
            }
            Bi::HashKeys => Ok(V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)]))),
            Bi::Abort => Err(Stop::Viol("abort".into(), "abort".into())),
            Bi::Exit => {
                // calls back into the harness: handled by the caller (see call())
                Err(Stop::Viol("exit".into(), format!("exit({})", self.cu(st, &a[0])?)))
            }
            Bi::IoSetup => {
                // sym_io_setup(file_ptr, file_len, stdin_ptr, stdin_len, on_exit fn, bytes per read)
                let fp = self.cu(st, &a[0])?;
                let fl = self.cu(st, &a[1])? as usize;
                let ip = self.cu(st, &a[2])?;
                let il = self.cu(st, &a[3])? as usize;
                let ex = self.cu(st, &a[4])?;
                let chunk = self.cu(st, &a[5])? as usize;
                let file = self.get_bytes(st, fp, fl)?;
                let stdin = self.get_bytes(st, ip, il)?;
                st.io = Rc::new(Io { file, stdin, exit: addr_func(ex), chunk, ..Default::default() });
                Ok(V::C(0))
            }
            Bi::IoOut => {
                // sym_io_out(which, buf, cap) -> len; which 0 stdout, 1 stderr, 2 = eof count
                let which = self.cu(st, &a[0])?;
                let p = self.cu(st, &a[1])?;
                let cap = self.cu(st, &a[2])? as usize;
                let src = match which { 0 => st.io.out.clone(), 1 => st.io.err.clone(), _ => return Ok(V::C(st.io.eofs as u64)) };
                let n = src.len().min(cap);
                if n > 0 {
                    let (o, off) = self.wobj(st, p, n as u64)?;
                    Self::put_bytes(o, off, &src[..n]);
                }
                Ok(V::C(src.len() as u64))
            }
            Bi::Read => {
                let fd = self.cu(st, &a[0])?;
                let p = self.cu(st, &a[1])?;
                let n = (self.cu(st, &a[2])? as usize).min(st.io.chunk);
                let mut io = (*st.io).clone();
                let bs: Vec<V> = if fd == 0 {
                    // one line at a time, as a terminal or a pipe may deliver it
                    let k = (io.stdin.len() - io.ipos).min(n);
                    let v = io.stdin[io.ipos..io.ipos + k].to_vec();
                    io.ipos += k;
                    if k == 0 && n > 0 {
                        io.eofs += 1;
                        if io.eofs > 3 { return Err(Stop::Viol("hang".into(), "reads standard input again and again after its end".into())); }
                    }
                    v
                } else {
                    let k = (io.file.len() - io.fpos).min(n);
                    let v = io.file[io.fpos..io.fpos + k].to_vec();
                    io.fpos += k;
                    v
                };
                st.io = Rc::new(io);
                if !bs.is_empty() {
                    let (o, off) = self.wobj(st, p, bs.len() as u64)?;
                    Self::put_bytes(o, off, &bs);
                }
                Ok(V::C(bs.len() as u64))
            }
            Bi::Write => {
                let fd = self.cu(st, &a[0])?;
                let p = self.cu(st, &a[1])?;
                let n = self.cu(st, &a[2])? as usize;
                let bs = self.get_bytes(st, p, n)?;
                let io = Rc::make_mut(&mut st.io);
                if fd == 1 { io.out.extend(bs) } else { io.err.extend(bs) }
                Ok(V::C(n as u64))
            }
            Bi::Writev => {
                let fd = self.cu(st, &a[0])?;
                let p = self.cu(st, &a[1])?;
                let n = self.cu(st, &a[2])?;
                let mut tot = 0;
                for i in 0..n {
                    let b = self.load_scalar(st, p + 16 * i, 64)?;
                    let l = self.load_scalar(st, p + 16 * i + 8, 64)?;
                    let b = self.cu(st, &b)?;
                    let l = self.cu(st, &l)?;
                    let bs = self.get_bytes(st, b, l as usize)?;
                    tot += l;
                    let io = Rc::make_mut(&mut st.io);
                    if fd == 1 { io.out.extend(bs) } else { io.err.extend(bs) }
                }
                Ok(V::C(tot))
            }
            Bi::Open => Ok(V::C(3)),
            Bi::Close => Ok(V::C(0)),
            Bi::Fstat => {
                // struct stat: st_mode at 24, st_size at 48 on x86-64
                let p = self.cu(st, &a[1])?;
                for i in 0..144 { self.store_scalar(st, p + i, 8, &V::C(0))?; }
                let len = st.io.file.len() as u64;
                self.store_scalar(st, p + 24, 32, &V::C(0o100644))?;
                self.store_scalar(st, p + 48, 64, &V::C(len))?;
                Ok(V::C(0))
            }
            Bi::Statx => {
                // struct statx: stx_mask u32 @0, stx_mode u16 @28, stx_size u64 @40
                let p = self.cu(st, &a[4])?;
                if p == 0 { return Ok(V::C(msk(!0, 32))); }
                for i in 0..256 { self.store_scalar(st, p + i, 8, &V::C(0))?; }
                let len = st.io.file.len() as u64;
                self.store_scalar(st, p, 32, &V::C(0x17ff))?;
                self.store_scalar(st, p + 28, 16, &V::C(0o100644))?;
                self.store_scalar(st, p + 40, 64, &V::C(len))?;
                Ok(V::C(0))
            }
            Bi::Lseek => Ok(V::C(st.io.fpos as u64)),
            Bi::Errno => {
                let s = st.mem.alloc(8, false);
                Ok(V::C((s as u64) << 32))
            }
            Bi::Getenv | Bi::RetZero | Bi::CxaAtexit | Bi::Poll => Ok(V::C(0)),
            Bi::PageSize => Ok(V::C(4096)),
            Bi::Sigaction => {
                // every signal is ignored already: std installs no handler
                let p = self.cu(st, &a[2])?;
                if p != 0 {
                    for i in 0..152 { self.store_scalar(st, p + i, 8, &V::C(0))?; }
                    self.store_scalar(st, p, 64, &V::C(1))?;
                }
                Ok(V::C(0))
            }
            Bi::RetMinus1 => Ok(V::C(msk(!0, 32))),
            Bi::GetRandom => {
                // hashing is replaced by a constant, so the keys do not matter
                let p = self.cu(st, &a[0])?;
                let n = self.cu(st, &a[1])?;
                for i in 0..n { self.store_scalar(st, p + i, 8, &V::C(0))?; }
                Ok(V::C(n))
            }
            Bi::Syscall => Ok(V::C(0)),
        }
    }

    // ---------------------------------------------------------------- main loop
    /// Runs one state until its path ends.  Forked siblings go to self.work.
    pub fn run(&mut self, mut st: State) {
        let start_steps = st.steps;
        let r = loop {
            match self.exec(&mut st) {
                Err(Stop::Conc(e)) => {
                    if let Err(s) = self.concretize(&mut st, e) { break s; }
                }
                Err(s) => break s,
                Ok(()) => {
                    // deadline hit
                    self.stats[st.h as usize].steps += st.steps - start_steps;
                    self.work.push(st);
                    return;
                }
            }
        };
        let h = st.h as usize;
        self.stats[h].steps += st.steps - start_steps;
        self.stats[h].maxsteps = self.stats[h].maxsteps.max(st.steps);
        match r {
            Stop::End | Stop::Assumed => {
                let w = self.weight(&st);
                let s = &mut self.stats[h];
                match w { Some(w) => s.weight += w, None => s.weight_unknown += 1 }
                if let Stop::End = r {
                    s.paths += 1;
                    let n = s.paths;
                    if s.samples.len() < 6 || (n & (n - 1) == 0) || n % 997 == 0 {
                        let mut t = 0xcbf29ce484222325;
                        for v in &st.trace {
                            let x = match v { V::C(c) => *c, V::S(e) => self.ex.eval(*e, &st.model), _ => 0 };
                            t = fnv(t, x);
                        }
                        if s.samples.len() < 64 { s.samples.push((st.model.clone(), t)); }
                    }
                } else {
                    s.assumed += 1;
                }
            }
            Stop::Viol(k, m) => {
                let stk = self.stack(&st);
                let w = self.weight(&st);
                let s = &mut self.stats[h];
                if let Some(w) = w { s.weight += w; }
                if s.viol.len() < 50 {
                    s.viol.push((k, format!("{} [{}]", m, stk), st.model.clone()));
                }
            }
            Stop::Unsup(m) => {
                let stk = self.stack(&st);
                let s = &mut self.stats[h];
                if s.unsup.len() < 5 { s.unsup.push(format!("{} [{}] input {:?}", m, stk, st.model)); }
                s.left += 1;
            }
            Stop::Conc(_) => unreachable!(),
        }
    }

    fn weight(&mut self, st: &State) -> Option<f64> {
        let mut w = 1.0f64;
        let mut vars = vec![];
        for (i, d) in st.doms.iter().enumerate() {
            let free = st.consup >> i & 1 == 0 || i >= 128;
            if free { w *= dom_count(d) as f64 / st.init[i] as f64; } else { vars.push(i); }
        }
        if !vars.is_empty() {
            let mut tot = 1u64;
            for v in &vars {
                tot = tot.saturating_mul(dom_count(&st.doms[*v]) as u64);
                w /= st.init[*v] as f64;
            }
            if tot > 20000 { return None; }
            let mut model = st.model.clone();
            let vals: Vec<Vec<usize>> = vars.iter().map(|v| dom_iter(&st.doms[*v]).collect()).collect();
            let mut idx = vec![0usize; vars.len()];
            let mut cnt = 0u64;
            'o: loop {
                for (k, v) in vars.iter().enumerate() { model[*v] = vals[k][idx[k]] as u8; }
                if st.cons.iter().all(|(e, b)| (self.ex.eval(*e, &model) != 0) == *b) { cnt += 1; }
                let mut k = 0;
                loop {
                    if k == vars.len() { break 'o; }
                    idx[k] += 1;
                    if idx[k] < vals[k].len() { break; }
                    idx[k] = 0;
                    k += 1;
                }
            }
            w *= cnt as f64;
        }
        Some(w)
    }

    fn exec(&mut self, st: &mut State) -> Rs<()> {
        'frame: loop {
            let nfr = st.frames.len();
            let frp: *mut Frame = Rc::make_mut(st.frames.last_mut().unwrap());
            // SAFETY: the top frame is uniquely owned (make_mut) and only replaced at 'frame.
            let fr = unsafe { &mut *frp };
            let f = fr.f;
            macro_rules! rd {
                ($o:expr) => {
                    if $o.is_const() { unsafe { f.consts.get_unchecked($o.idx()) } } else { unsafe { fr.regs.get_unchecked($o.idx()) } }
                };
            }
            macro_rules! wr {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    unsafe { *fr.regs.get_unchecked_mut($d as usize) = v; }
                }};
            }
            loop {
                let block = unsafe { f.blocks.get_unchecked(fr.bb as usize) };
                let ins = unsafe { block.ins.get_unchecked(fr.ip as usize) };
                st.steps += 1;
                if st.steps & 0xffff == 0 {
                    if let Some(d) = self.deadline {
                        if std::time::Instant::now() > d { return Ok(()); }
                    }
                }
                if st.steps > st.budget {
                    return Err(Stop::Viol("hang".into(), format!("more than {} steps", st.budget)));
                }
                match ins {
                    I::Bin(op, w, d, a, b) => {
                        let v = match (rd!(a), rd!(b)) {
                            (V::C(x), V::C(y)) if *w <= 64 => match bin(*op, *w, *x, *y) {
                                Some(r) => V::C(r),
                                None => return Err(Stop::Viol("ub".into(), "division by zero".into())),
                            },
                            (x, y) => { let (x, y) = (x.clone(), y.clone()); self.binop(st, *op, *w, &x, &y)? }
                        };
                        wr!(*d, v);
                    }
                    I::Cmp(p, w, d, a, b) => {
                        let v = match (rd!(a), rd!(b)) {
                            (V::C(x), V::C(y)) if *w <= 64 => V::C(cmp(*p, *w, *x, *y) as u64),
                            (x, y) => { let (x, y) = (x.clone(), y.clone()); self.cmpop(st, *p, *w, &x, &y)? }
                        };
                        wr!(*d, v);
                    }
                    I::VBin(op, w, d, a, b) => {
                        let (x, y) = (rd!(a).clone(), rd!(b).clone());
                        if let (V::A(x), V::A(y)) = (x, y) {
                            let mut o = Vec::with_capacity(x.len());
                            for i in 0..x.len() { o.push(self.binop(st, *op, *w, &x[i], &y[i])?); }
                            wr!(*d, V::A(Rc::new(o)));
                        } else { return Err(Stop::Unsup("vbin".into())); }
                    }
                    I::VCmp(p, w, d, a, b) => {
                        let (x, y) = (rd!(a).clone(), rd!(b).clone());
                        if let (V::A(x), V::A(y)) = (x, y) {
                            let mut o = Vec::with_capacity(x.len());
                            for i in 0..x.len() { o.push(self.cmpop(st, *p, *w, &x[i], &y[i])?); }
                            wr!(*d, V::A(Rc::new(o)));
                        } else { return Err(Stop::Unsup("vcmp".into())); }
                    }
                    I::FBin(op, w, d, a, b) => {
                        self.fp_ops += 1;
                        let (op, w) = (*op, *w);
                        let r = self.fp_apply(st, rd!(a), rd!(b), w, &move |x, y| {
                            if w == 64 {
                                let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                                match op { F::Add => x + y, F::Sub => x - y, F::Mul => x * y, F::Div => x / y, F::Rem => x % y }.to_bits()
                            } else {
                                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                                match op { F::Add => x + y, F::Sub => x - y, F::Mul => x * y, F::Div => x / y, F::Rem => x % y }.to_bits() as u64
                            }
                        })?;
                        wr!(*d, r);
                    }
                    I::FNeg(w, d, a) => {
                        let x = match self.simp(st, rd!(a).clone()) {
                            V::S(e) if *w == 64 => self.ex.vbin(B::Xor, 64, &V::S(e), &V::C(1 << 63)),
                            x => V::C(self.cu(st, &x)? ^ (1u64 << (w - 1))),
                        };
                        wr!(*d, x);
                    }
                    I::FCmp(p, w, d, a, b) => {
                        let w = *w;
                        let ps: &str = p.as_str();
                        if !matches!(ps, "oeq" | "one" | "olt" | "ole" | "ogt" | "oge" | "ord" | "uno" | "ueq" | "une" | "ult" | "ule" | "ugt" | "uge") { return Err(Stop::Unsup("fcmp".into())); }
                        if w == 64 {
                            let (x, y) = (self.simp(st, rd!(a).clone()), self.simp(st, rd!(b).clone()));
                            let wide = |v: &V| match v { V::S(e) => self.ex.info[*e as usize].tab.is_none(), _ => false };
                            if matches!(x, V::C(_) | V::S(_)) && matches!(y, V::C(_) | V::S(_)) && (wide(&x) || wide(&y)) {
                                let r = self.fcmp_bits(ps, &x, &y);
                                let r = self.simp(st, r);
                                wr!(*d, r);
                                fr.ip += 1;
                                continue;
                            }
                        }
                        let r = self.fp_apply(st, rd!(a), rd!(b), 1, &move |x, y| {
                            let (x, y) = if w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                            let un = x.is_nan() || y.is_nan();
                            (match ps {
                                "oeq" => x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y,
                                "ord" => !un, "uno" => un, "ueq" => un || x == y, "une" => un || x != y, "ult" => un || x < y,
                                "ule" => un || x <= y, "ugt" => un || x > y, _ => un || x >= y,
                            }) as u64
                        })?;
                        wr!(*d, r);
                    }
                    I::Cast(k, from, to, d, a) => {
                        let v = match (k, rd!(a)) {
                            (Cast::Trunc, V::C(c)) => V::C(msk(*c, to.bits())),
                            (Cast::ZExt, V::C(c)) if to.bits() <= 64 => V::C(*c),
                            (_, x) => { let x = x.clone(); self.castop(st, *k, from, to, &x)? }
                        };
                        wr!(*d, v);
                    }
                    I::Select(d, c, a, b, bits) => {
                        let cv = rd!(c).clone();
                        let v = match cv {
                            V::C(x) => if x & 1 != 0 { rd!(a).clone() } else { rd!(b).clone() },
                            V::S(_) => {
                                let av = rd!(a).clone();
                                let bv = rd!(b).clone();
                                if *bits >= 1 && *bits <= 64 && matches!(av, V::C(_) | V::S(_)) && matches!(bv, V::C(_) | V::S(_)) {
                                    let r = self.ex.vite(&cv, *bits, &av, &bv);
                                    self.simp(st, r)
                                } else if self.cb(st, &cv)? { av } else { bv }
                            }
                            V::A(cs) => {
                                if let (V::A(x), V::A(y)) = (rd!(a).clone(), rd!(b).clone()) {
                                    let mut o = vec![];
                                    for i in 0..cs.len() { o.push(if self.cb(st, &cs[i])? { x[i].clone() } else { y[i].clone() }); }
                                    V::A(Rc::new(o))
                                } else { return Err(Stop::Unsup("vselect".into())); }
                            }
                            _ => return Err(Stop::Unsup("select".into())),
                        };
                        wr!(*d, v);
                    }
                    I::Load(d, p, ty) => {
                        let pv = rd!(p).clone();
                        let v = self.load(st, &pv, ty)?;
                        wr!(*d, v);
                    }
                    I::Store(v, p, ty) => {
                        let addr = self.cu(st, rd!(p))?;
                        let v = rd!(v).clone();
                        self.store_ty(st, addr, ty, &v)?;
                    }
                    I::Alloca(d, sz, n) => {
                        let k = self.cu(st, rd!(n))?;
                        let s = st.mem.alloc((sz * k) as usize, false);
                        fr.allocas.push(s);
                        wr!(*d, V::C((s as u64) << 32));
                    }
                    I::Gep(d, base, off, idx) => {
                        let bv = rd!(base);
                        let mut acc = match bv { V::C(c) => V::C(c.wrapping_add(*off as u64)), x => { let x = x.clone(); self.binop(st, B::Add, 64, &x, &V::C(*off as u64))? } };
                        for (o, sc, w) in idx.iter() {
                            let iv = rd!(o);
                            acc = match (&acc, iv) {
                                (V::C(a), V::C(i)) => V::C(a.wrapping_add(sext(*i, *w).wrapping_mul(*sc))),
                                _ => {
                                    let iv = iv.clone();
                                    let iv = if *w < 64 { self.castop(st, Cast::SExt, &Ty::Int(*w), &Ty::Int(64), &iv)? } else { iv };
                                    let m = self.binop(st, B::Mul, 64, &iv, &V::C(*sc))?;
                                    self.binop(st, B::Add, 64, &acc, &m)?
                                }
                            };
                        }
                        wr!(*d, acc);
                    }
                    I::Extract(d, a, ix) => {
                        let mut v = rd!(a).clone();
                        for i in ix {
                            v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Unsup("extractvalue".into())) };
                        }
                        wr!(*d, v);
                    }
                    I::Insert(d, a, v, ix) => {
                        fn ins(a: &V, v: V, ix: &[u32]) -> Option<V> {
                            if ix.is_empty() { return Some(v); }
                            if let V::A(x) = a {
                                let mut n = (**x).clone();
                                n[ix[0] as usize] = ins(&x[ix[0] as usize], v, &ix[1..])?;
                                Some(V::A(Rc::new(n)))
                            } else { None }
                        }
                        let r = ins(rd!(a), rd!(v).clone(), ix).ok_or_else(|| Stop::Unsup("insertvalue".into()))?;
                        wr!(*d, r);
                    }
                    I::ExtractEl(d, a, i) => {
                        let i = self.cu(st, rd!(i))? as usize;
                        let v = match rd!(a) { V::A(x) => x[i].clone(), _ => return Err(Stop::Unsup("extractelement".into())) };
                        wr!(*d, v);
                    }
                    I::InsertEl(d, a, v, i) => {
                        let i = self.cu(st, rd!(i))? as usize;
                        let v = match rd!(a) { V::A(x) => { let mut n = (**x).clone(); n[i] = rd!(v).clone(); V::A(Rc::new(n)) } _ => return Err(Stop::Unsup("insertelement".into())) };
                        wr!(*d, v);
                    }
                    I::Shuffle(d, a, b, mk, n) => {
                        let v = match (rd!(a), rd!(b)) {
                            (V::A(x), V::A(y)) => V::A(Rc::new(mk.iter().map(|i| { let i = (*i).max(0) as usize; if i < *n { x[i].clone() } else { y[i - n].clone() } }).collect())),
                            _ => return Err(Stop::Unsup("shuffle".into())),
                        };
                        wr!(*d, v);
                    }
                    I::Copy(d, a) => { let v = rd!(a).clone(); wr!(*d, v); }
                    I::AtomicRmw(op, d, p, v, w) => {
                        let addr = self.cu(st, rd!(p))?;
                        let v = rd!(v).clone();
                        let old = self.load_scalar(st, addr, *w)?;
                        let nv = match op {
                            Rmw::Xchg => v,
                            Rmw::Add => self.binop(st, B::Add, *w, &old, &v)?,
                            Rmw::Sub => self.binop(st, B::Sub, *w, &old, &v)?,
                            Rmw::And => self.binop(st, B::And, *w, &old, &v)?,
                            Rmw::Or => self.binop(st, B::Or, *w, &old, &v)?,
                            Rmw::Xor => self.binop(st, B::Xor, *w, &old, &v)?,
                            _ => return Err(Stop::Unsup("atomicrmw".into())),
                        };
                        self.store_scalar(st, addr, *w, &nv)?;
                        if *d != NODST { wr!(*d, old); }
                    }
                    I::CmpXchg(d, p, c, n, w) => {
                        let addr = self.cu(st, rd!(p))?;
                        let c = rd!(c).clone();
                        let n = rd!(n).clone();
                        let old = self.load_scalar(st, addr, *w)?;
                        let e = self.cmpop(st, P::Eq, *w, &old, &c)?;
                        let ok = self.cb(st, &e)?;
                        if ok { self.store_scalar(st, addr, *w, &n)?; }
                        if *d != NODST { wr!(*d, V::A(Rc::new(vec![old, V::C(ok as u64)]))); }
                    }
                    I::Nop => {}
                    I::Br(t) => { Self::jump(fr, *t); continue; }
                    I::CondBr(c, a, b) => {
                        let t = match rd!(c) { V::C(x) => x & 1 != 0, x => self.cb(st, x)? };
                        Self::jump(fr, if t { *a } else { *b });
                        continue;
                    }
                    I::Switch(c, w, dflt, cases) => {
                        let cv = rd!(c).clone();
                        let val = match &cv {
                            V::C(x) => Some(*x),
                            V::S(e) => self.try_const(st, *e),
                            V::W(x) => Some(**x as u64),
                            _ => None,
                        };
                        let t = match val {
                            Some(x) => match cases.binary_search_by(|p| p.0.cmp(&x)) { Ok(i) => cases[i].1, Err(_) => *dflt },
                            None => {
                                let e = match cv { V::S(e) => e, _ => return Err(Stop::Unsup("switch".into())) };
                                let _ = w;
                                // group by target: table of the target block index
                                if let Some(t) = self.ex.info[e as usize].tab.clone() {
                                    let var = self.ex.info[e as usize].var;
                                    let tt: Vec<u64> = t.iter().map(|x| match cases.binary_search_by(|p| p.0.cmp(x)) { Ok(i) => cases[i].1 as u64, Err(_) => *dflt as u64 }).collect();
                                    match self.ex.tab(var, 32, tt) {
                                        V::C(x) => x as u32,
                                        V::S(te) => match self.try_const(st, te) { Some(x) => x as u32, None => return Err(Stop::Conc(te)) },
                                        _ => unreachable!(),
                                    }
                                } else {
                                    return Err(Stop::Conc(e));
                                }
                            }
                        };
                        Self::jump(fr, t);
                        continue;
                    }
                    I::Ret(_) | I::RetVoid => {
                        let v = match ins { I::Ret(v) => rd!(v).clone(), _ => V::C(0) };
                        for s in fr.allocas.iter() { st.mem.put(*s, None); }
                        let (ret, after) = (fr.ret, fr.after);
                        st.frames.pop();
                        if st.frames.is_empty() { return Err(Stop::End); }
                        let cr = Rc::make_mut(st.frames.last_mut().unwrap());
                        if ret != NODST { cr.regs[ret as usize] = v; }
                        if after != NODST { Self::jump(cr, after); } else { cr.ip += 1; }
                        continue 'frame;
                    }
                    I::Unreachable => return Err(Stop::Viol("ub".into(), "unreachable executed".into())),
                    I::Unsupported(s) => return Err(Stop::Unsup(s.clone())),
                    I::Call(d, callee, args, bits) | I::Invoke(d, callee, args, bits, _) => {
                        let after = if let I::Invoke(_, _, _, _, n) = ins { *n } else { NODST };
                        let d = *d;
                        let fid = match callee {
                            Callee::Func(f) => *f,
                            Callee::Ind(o) => {
                                let p = self.cu(st, rd!(o))?;
                                match addr_func(p) {
                                    Some(f) if (f as usize) < self.m.funcs.len() => f,
                                    _ => return Err(Stop::Viol("memory".into(), format!("call of invalid pointer {:#x}", p))),
                                }
                            }
                            Callee::Intrinsic(i) => {
                                let av: Vec<V> = args.iter().map(|o| rd!(o).clone()).collect();
                                let name: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(&self.m.intr_names[*i as usize]) };
                                let v = if av.is_empty() { if name.contains("trap") { return Err(Stop::Viol("abort".into(), "trap".into())) } else { V::C(0) } } else { self.intrinsic(st, name, &av, bits)? };
                                if d != NODST { wr!(d, v); }
                                if after != NODST { Self::jump(fr, after); } else { fr.ip += 1; }
                                continue;
                            }
                        };
                        match self.kind(fid) {
                            Kind::Body => {
                                if nfr >= 4000 { return Err(Stop::Viol("depth".into(), "recursion deeper than 4000 frames".into())); }
                                self.executed.insert(fid);
                                let g = self.body(fid);
                                let mut regs = Vec::with_capacity(g.nregs);
                                for (i, o) in args.iter().enumerate() { if i < g.nparams { regs.push(rd!(o).clone()); } }
                                regs.resize(g.nregs, V::C(0));
                                st.frames.push(Rc::new(Frame { f: g, bb: 0, ip: 0, regs, allocas: vec![], ret: d, after }));
                                continue 'frame;
                            }
                            Kind::Builtin(Bi::Exit) if st.io.exit.is_some() => {
                                // transfer to the harness' exit handler with the code
                                let hnd = st.io.exit.unwrap();
                                let g = self.body(hnd);
                                let mut regs = vec![rd!(args[0]).clone()];
                                regs.resize(g.nregs, V::C(0));
                                Rc::make_mut(&mut st.io).exit = None;
                                st.frames.push(Rc::new(Frame { f: g, bb: 0, ip: 0, regs, allocas: vec![], ret: NODST, after: NODST }));
                                continue 'frame;
                            }
                            Kind::Builtin(bi) => {
                                let av: Vec<V> = args.iter().map(|o| rd!(o).clone()).collect();
                                let v = self.builtin(st, bi, &av)?;
                                if d != NODST { wr!(d, v); }
                                if after != NODST { Self::jump(fr, after); } else { fr.ip += 1; }
                                continue;
                            }
                            Kind::HashZero => {
                                if d != NODST { wr!(d, V::C(0)); }
                                if after != NODST { Self::jump(fr, after); } else { fr.ip += 1; }
                                continue;
                            }
                            Kind::HashNop => {
                                if after != NODST { Self::jump(fr, after); } else { fr.ip += 1; }
                                continue;
                            }
                            Kind::Panic => {
                                let n = demangle(&self.m.funcs[fid as usize].name);
                                return Err(Stop::Viol("panic".into(), n));
                            }
                            Kind::Undef => {
                                return Err(Stop::Unsup(format!("call of undefined function {}", self.m.funcs[fid as usize].name)));
                            }
                        }
                    }
                }
                fr.ip += 1;
            }
        }
    }

    #[inline(always)]
    fn jump(fr: &mut Frame, t: u32) {
        let prev = fr.bb;
        let b = &fr.f.blocks[t as usize];
        if !b.phis.is_empty() {
            let mut hint = 0usize;
            let first = &b.phis[0];
            for (i, (p, _)) in first.from.iter().enumerate() { if *p == prev { hint = i; break; } }
            let get = |fr: &Frame, ph: &Phi| -> V {
                let o = if ph.from[hint].0 == prev { ph.from[hint].1 } else { ph.from.iter().find(|x| x.0 == prev).expect("phi").1 };
                if o.is_const() { fr.f.consts[o.idx()].clone() } else { fr.regs[o.idx()].clone() }
            };
            if b.phis.len() == 1 {
                let v = get(fr, first);
                fr.regs[first.dst as usize] = v;
            } else {
                let vs: Vec<V> = b.phis.iter().map(|p| get(fr, p)).collect();
                for (p, v) in b.phis.iter().zip(vs) { fr.regs[p.dst as usize] = v; }
            }
        }
        fr.bb = t;
        fr.ip = 0;
    }
}

/// Rough demangling of v0 symbols: the identifiers in order.
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string(); }
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            let l: usize = n[st..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' { i += 1; }
            if l > 0 && i + l <= b.len() { out.push(&n[i..i + l]); i += l; }
        } else if b[i] == b's' || b[i] == b'C' {
            // disambiguator s<base62>_ : skip
            if b[i] == b's' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
                if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}
