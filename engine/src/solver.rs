//! Z3 (C API) back end with query cache; width-1 expressions are Booleans.
use crate::expr::{self, Arena, FxMap, B, E, N, P};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
#[link(name = "z3", kind = "dylib")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> *mut c_void;
    fn Z3_mk_bool_sort(c: Ctx) -> *mut c_void;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: *mut c_void) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: *mut c_void) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> *mut c_void;
    fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_reset(c: Ctx, s: *mut c_void);
    fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
    fn Z3_solver_check(c: Ctx, s: *mut c_void) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
    fn Z3_solver_to_string(c: Ctx, s: *mut c_void) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, a: Ast, comp: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
}
extern "C" fn onerr(_c: Ctx, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub presolved: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: Ctx,
    s: *mut c_void,
    cache: FxMap<E, Ast>,
    qcache: FxMap<Vec<E>, Res>,
    pub st: Stats,
    pub dump: Option<String>,
    pub ndump: u64,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(onerr));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                cache: FxMap::default(),
                qcache: FxMap::default(),
                st: Stats::default(),
                dump: None,
                ndump: 0,
            }
        }
    }
    fn konst(&self, w: u16, v: u128) -> Ast {
        unsafe {
            if w == 1 {
                return if v == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
            }
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as c_uint))
            } else {
                let lo = self.konst(64, v & u64::MAX as u128);
                let hi = self.konst(w - 64, v >> 64);
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    /// Boolean (w=1) to 1-bit vector
    fn to_bv(&self, a: Ast) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_ite(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
        }
    }
    fn tr(&mut self, a: &Arena, e: E) -> Ast {
        if let Some(x) = self.cache.get(&e) {
            return *x;
        }
        let c = self.c;
        let w1 = |x: E| a.width(x) == 1;
        let r = unsafe {
            match a.nodes[e as usize] {
                N::Const(w, v) => self.konst(w, v),
                N::Var(w, i) => {
                    let s = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) };
                    Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s)
                }
                N::Not(w, x) => {
                    let x = self.tr(a, x);
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                N::Bin(op, w, x, y) => {
                    let x = self.tr(a, x);
                    let y = self.tr(a, y);
                    let xs = [x, y];
                    if w == 1 {
                        match op {
                            B::And | B::Mul => Z3_mk_and(c, 2, xs.as_ptr()),
                            B::Or => Z3_mk_or(c, 2, xs.as_ptr()),
                            B::Xor | B::Add | B::Sub => Z3_mk_xor(c, x, y),
                            _ => {
                                // shifts / divisions on one bit: x op 0 = x is the only defined case
                                Z3_mk_and(c, 2, [x, Z3_mk_not(c, y)].as_ptr())
                            }
                        }
                    } else {
                        match op {
                            B::Add => Z3_mk_bvadd(c, x, y),
                            B::Sub => Z3_mk_bvsub(c, x, y),
                            B::Mul => Z3_mk_bvmul(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y),
                            B::SDiv => Z3_mk_bvsdiv(c, x, y),
                            B::URem => Z3_mk_bvurem(c, x, y),
                            B::SRem => Z3_mk_bvsrem(c, x, y),
                            B::And => Z3_mk_bvand(c, x, y),
                            B::Or => Z3_mk_bvor(c, x, y),
                            B::Xor => Z3_mk_bvxor(c, x, y),
                            B::Shl => Z3_mk_bvshl(c, x, y),
                            B::LShr => Z3_mk_bvlshr(c, x, y),
                            B::AShr => Z3_mk_bvashr(c, x, y),
                        }
                    }
                }
                N::Cmp(p, x, y) => {
                    let b1 = w1(x);
                    let mut x = self.tr(a, x);
                    let mut y = self.tr(a, y);
                    if b1 && p != P::Eq {
                        x = self.to_bv(x);
                        y = self.to_bv(y);
                    }
                    match p {
                        P::Eq => Z3_mk_eq(c, x, y),
                        P::Ult => Z3_mk_bvult(c, x, y),
                        P::Ule => Z3_mk_bvule(c, x, y),
                        P::Slt => Z3_mk_bvslt(c, x, y),
                        P::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                N::Ite(_, k, x, y) => {
                    let k = self.tr(a, k);
                    let x = self.tr(a, x);
                    let y = self.tr(a, y);
                    Z3_mk_ite(c, k, x, y)
                }
                N::Extract(w, lo, x) => {
                    let x = self.tr(a, x);
                    let r = Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x);
                    if w == 1 {
                        Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        r
                    }
                }
                N::Concat(_, h, l) => {
                    let (bh, bl) = (w1(h), w1(l));
                    let mut h = self.tr(a, h);
                    let mut l = self.tr(a, l);
                    if bh {
                        h = self.to_bv(h)
                    }
                    if bl {
                        l = self.to_bv(l)
                    }
                    Z3_mk_concat(c, h, l)
                }
                N::ZExt(w, x) => {
                    let xw = a.width(x);
                    let b = w1(x);
                    let mut x = self.tr(a, x);
                    if b {
                        x = self.to_bv(x)
                    }
                    Z3_mk_zero_ext(c, (w - xw) as c_uint, x)
                }
                N::SExt(w, x) => {
                    let xw = a.width(x);
                    let b = w1(x);
                    let mut x = self.tr(a, x);
                    if b {
                        x = self.to_bv(x)
                    }
                    Z3_mk_sign_ext(c, (w - xw) as c_uint, x)
                }
            }
        };
        self.cache.insert(e, r);
        r
    }
    /// Satisfiability of the conjunction of `cs`.
    pub fn check(&mut self, cs: &[E]) -> Res {
        let mut key = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t = Instant::now();
        let r = expr::with(|a| unsafe {
            Z3_solver_reset(self.c, self.s);
            let mut mask = 0u128;
            for e in &key {
                let x = self.tr(a, *e);
                mask |= a.vars_of[*e as usize];
                Z3_solver_assert(self.c, self.s, x);
            }
            if let Some(d) = &self.dump {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s));
                let p = format!("{}/{}-{}.smt2", d, std::process::id(), self.ndump);
                self.ndump += 1;
                let _ = std::fs::write(p, format!("{}\n(check-sat)\n", s.to_string_lossy()));
            }
            match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..a.vars.len() {
                        if mask >> i & 1 == 1 {
                            let w = a.vars[i].width;
                            let e = a.mk(N::Var(w, i as u32));
                            let x = self.tr(a, e);
                            let mut o: Ast = std::ptr::null_mut();
                            let mut v = 0u64;
                            if Z3_model_eval(self.c, m, x, true, &mut o) {
                                if w == 1 {
                                    v = (Z3_get_bool_value(self.c, o) == 1) as u64;
                                } else {
                                    Z3_get_numeral_uint64(self.c, o, &mut v);
                                }
                            }
                            out.push((i as u32, v));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        });
        let us = t.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.time_us += us;
        self.st.max_us = self.st.max_us.max(us);
        match &r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.qcache.insert(key, r.clone());
        r
    }
}
