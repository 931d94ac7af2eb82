//! Z3 back end (C API), translating the expression DAG to SMT terms.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, _e: c_int) {}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(Vec<(usize, u128)>),
    Unknown(String),
}

pub struct Smt {
    ctx: P,
    cache: HashMap<E, P, BuildFx>,   // bv (or Bool for w=1) terms
    side: HashMap<E, Vec<P>, BuildFx>, // definitional constraints for e (div/rem)
    hasdiv: HashMap<E, bool, BuildFx>,
    logic: P,
    params: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub timeout_ms: u32,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(ctx, l.as_ptr());
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(ctx, k.as_ptr());
            Z3_params_set_uint(ctx, params, ks, timeout_ms);
            Smt {
                ctx,
                cache: HashMap::default(),
                side: HashMap::default(),
                hasdiv: HashMap::default(),
                logic,
                params,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time_us: 0,
                max_us: 0,
                timeout_ms,
            }
        }
    }
    fn keep(&mut self, e: E, p: P) -> P {
        unsafe {
            if p.is_null() || Z3_get_error_code(self.ctx) != 0 {
                panic!("z3 error building term {}", Z3_get_error_code(self.ctx));
            }
            Z3_inc_ref(self.ctx, p);
        }
        self.cache.insert(e, p);
        p
    }
    fn numeral(&self, w: u16, k: u128) -> P {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            let p = Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w as u32));
            Z3_inc_ref(self.ctx, p); // constants are few; kept alive
            p
        }
    }
    fn b2bv(&self, b: P) -> P {
        unsafe {
            let p = Z3_mk_ite(self.ctx, b, self.numeral(1, 1), self.numeral(1, 0));
            Z3_inc_ref(self.ctx, p);
            p
        }
    }
    fn bv2b(&self, b: P) -> P {
        unsafe {
            let p = Z3_mk_eq(self.ctx, b, self.numeral(1, 1));
            Z3_inc_ref(self.ctx, p);
            p
        }
    }
    /// Term as bit-vector.
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        let t = self.term(ar, e);
        if ar.w(e) == 1 {
            self.b2bv(t)
        } else {
            t
        }
    }
    fn rtz(&self) -> P {
        unsafe {
            let r = Z3_mk_fpa_rtz(self.ctx);
            Z3_inc_ref(self.ctx, r);
            r
        }
    }
    fn fpsort(&self, w: u16) -> P {
        unsafe {
            let s = if w == 32 { Z3_mk_fpa_sort_32(self.ctx) } else { Z3_mk_fpa_sort_64(self.ctx) };
            Z3_inc_ref(self.ctx, s); // a single shared object, kept alive
            s
        }
    }
    fn fp(&mut self, ar: &Arena, e: E) -> P {
        let t = self.bv(ar, e);
        unsafe {
            let p = Z3_mk_fpa_to_fp_bv(self.ctx, t, self.fpsort(ar.w(e)));
            Z3_inc_ref(self.ctx, p);
            p
        }
    }
    fn tab_term(&mut self, idx: P, iw: u16, w: u16, runs: &[(u128, u128)], hi_excl: usize) -> P {
        // runs: (start, value), choose last run with start <= idx
        if runs.len() == 1 {
            return self.numeral(w, runs[0].1);
        }
        let mid = runs.len() / 2;
        let l = self.tab_term(idx, iw, w, &runs[..mid], hi_excl);
        let r = self.tab_term(idx, iw, w, &runs[mid..], hi_excl);
        unsafe {
            let c = Z3_mk_bvult(self.ctx, idx, self.numeral(iw, runs[mid].0));
            Z3_inc_ref(self.ctx, c);
            let p = Z3_mk_ite(self.ctx, c, l, r);
            Z3_inc_ref(self.ctx, p);
            p
        }
    }
    /// w==1 -> Bool sort, otherwise BV.
    pub fn term(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.cache.get(&e) {
            return *p;
        }
        let n = ar.n(e);
        let c = self.ctx;
        unsafe {
            let w1 = n.w == 1;
            let p: P = match n.op {
                Op::Const => {
                    if w1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.numeral(n.w, n.k)
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    // a variable whose declared range needs fewer bits is a narrow constant, zero-extended
                    let hi = ar.srange(e).1;
                    let nb = ((128 - hi.leading_zeros()) as u32).max(1).min(n.w as u32);
                    let v = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, nb));
                    if nb < n.w as u32 {
                        Z3_inc_ref(c, v);
                        Z3_mk_zero_ext(c, n.w as u32 - nb, v)
                    } else if w1 {
                        Z3_inc_ref(c, v);
                        self.bv2b(v)
                    } else {
                        v
                    }
                }
                Op::And | Op::Or | Op::Xor | Op::Eq if ar.w(n.a) == 1 => {
                    let a = self.term(ar, n.a);
                    let b = self.term(ar, n.b);
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        Op::Xor => {
                            if ar.is_const(n.b) == Some(1) {
                                Z3_mk_not(c, a)
                            } else {
                                Z3_mk_xor(c, a, b)
                            }
                        }
                        _ => Z3_mk_eq(c, a, b),
                    }
                }
                Op::UDiv | Op::URem if ar.is_const(n.b).map_or(false, |k| k != 0) && !w1 => {
                    // x = q*k + r, r < k, with fresh q, r (definitional, total)
                    let k = ar.is_const(n.b).unwrap();
                    let x = self.bv(ar, n.a);
                    let mut memo = HashMap::default();
                    let (_, hi) = ar.range(n.a, &|v| (ar.vars[v].lo, ar.vars[v].hi), &mut memo);
                    if hi < k {
                        // trivial
                        let t = if n.op == Op::UDiv { self.numeral(n.w, 0) } else { x };
                        return self.keep(e, t);
                    }
                    // bits needed for x (xb); q fits in xb bits; q*k+r <= hi fits in xb
                    let xb = ((128 - hi.leading_zeros()) as u16).max(1).min(n.w);
                    let qhi = hi / k;
                    let qb = ((128 - qhi.leading_zeros()) as u16).max(1);
                    let rb = ((128 - (k - 1).leading_zeros()) as u16).max(1);
                    let nm = |s: &str| CString::new(format!("{}{}", s, e)).unwrap();
                    let (nq, nr) = {
                        // share q/r between UDiv and URem of same operands through naming by operand ids
                        (
                            CString::new(format!("q_{}_{}", n.a, k)).unwrap(),
                            CString::new(format!("r_{}_{}", n.a, k)).unwrap(),
                        )
                    };
                    let _ = nm;
                    let q = Z3_mk_const(c, Z3_mk_string_symbol(c, nq.as_ptr()), Z3_mk_bv_sort(c, qb as u32));
                    Z3_inc_ref(c, q);
                    let r = Z3_mk_const(c, Z3_mk_string_symbol(c, nr.as_ptr()), Z3_mk_bv_sort(c, rb as u32));
                    Z3_inc_ref(c, r);
                    let ext = |t: P, from: u16, to: u16| -> P {
                        if from == to {
                            t
                        } else if from < to {
                            let p = Z3_mk_zero_ext(c, (to - from) as u32, t);
                            Z3_inc_ref(c, p);
                            p
                        } else {
                            let p = Z3_mk_extract(c, to as u32 - 1, 0, t);
                            Z3_inc_ref(c, p);
                            p
                        }
                    };
                    // q <= qhi: q*k <= hi; compute in xb+1 bits to avoid wrap: q*k + r <= hi + k - 1
                    let cw = xb + 1;
                    let xq = ext(q, qb, cw);
                    let xr = ext(r, rb, cw);
                    let xx = ext(ext(x, n.w, xb), xb, cw);
                    let pr = Z3_mk_bvmul(c, xq, self.numeral(cw, k));
                    let sum = Z3_mk_bvadd(c, pr, xr);
                    let c1 = Z3_mk_eq(c, sum, xx);
                    Z3_inc_ref(c, c1);
                    let c2 = Z3_mk_bvult(c, ext(r, rb, rb + 1), self.numeral(rb + 1, k));
                    Z3_inc_ref(c, c2);
                    let c3 = Z3_mk_bvule(c, q, self.numeral(qb, qhi));
                    Z3_inc_ref(c, c3);
                    self.side.insert(e, vec![c1, c2, c3]);
                    if n.op == Op::UDiv {
                        ext(q, qb, n.w)
                    } else {
                        ext(r, rb, n.w)
                    }
                }
                Op::Add
                | Op::Sub
                | Op::Mul
                | Op::UDiv
                | Op::URem
                | Op::SDiv
                | Op::SRem
                | Op::And
                | Op::Or
                | Op::Xor
                | Op::Shl
                | Op::LShr
                | Op::AShr => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    let f = match n.op {
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        _ => Z3_mk_bvashr,
                    };
                    let p = f(c, a, b);
                    if w1 {
                        Z3_inc_ref(c, p);
                        self.bv2b(p)
                    } else {
                        p
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Ite => {
                    let k = self.term(ar, n.a);
                    let a = self.term(ar, n.b);
                    let b = self.term(ar, n.c);
                    Z3_mk_ite(c, k, a, b)
                }
                Op::Concat => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    let lo = n.k as u32;
                    let p = Z3_mk_extract(c, lo + n.w as u32 - 1, lo, a);
                    if w1 {
                        Z3_inc_ref(c, p);
                        self.bv2b(p)
                    } else {
                        p
                    }
                }
                Op::ZExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as u32, a)
                }
                Op::SExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, a)
                }
                Op::Table => {
                    let iw = ar.w(n.a);
                    let idx = self.bv(ar, n.a);
                    let vals = &ar.tabs[n.k as usize].vals;
                    let mut runs: Vec<(u128, u128)> = vec![];
                    let lim = if iw >= 64 { usize::MAX } else { 1usize << iw };
                    for (i, v) in vals.iter().enumerate() {
                        if i >= lim {
                            break;
                        }
                        if runs.last().map_or(true, |r| r.1 != *v) {
                            runs.push((i as u128, *v));
                        }
                    }
                    if vals.len() < lim && runs.last().map_or(true, |r| r.1 != 0) {
                        runs.push((vals.len() as u128, 0));
                    }
                    let t = self.tab_term(idx, iw, n.w, &runs, 0);
                    if w1 {
                        self.bv2b(t)
                    } else {
                        t
                    }
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let a = self.fp(ar, n.a);
                    let b = self.fp(ar, n.b);
                    let rm = Z3_mk_fpa_rne(c);
                    Z3_inc_ref(c, rm);
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let a = self.fp(ar, n.a);
                    let b = self.fp(ar, n.b);
                    match n.op {
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        _ => Z3_mk_fpa_leq(c, a, b),
                    }
                }
                Op::FUno => {
                    let a = self.fp(ar, n.a);
                    let b = self.fp(ar, n.b);
                    let x = Z3_mk_fpa_is_nan(c, a);
                    Z3_inc_ref(c, x);
                    let y = Z3_mk_fpa_is_nan(c, b);
                    Z3_inc_ref(c, y);
                    Z3_mk_or(c, 2, [x, y].as_ptr())
                }
                Op::FToUI => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_ubv(c, self.rtz(), a, n.w as u32)
                }
                Op::FToSI => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_sbv(c, self.rtz(), a, n.w as u32)
                }
                Op::UIToF | Op::SIToF => {
                    let a = self.bv(ar, n.a);
                    let rm = Z3_mk_fpa_rne(c);
                    Z3_inc_ref(c, rm);
                    let s = self.fpsort(n.w);
                    let f = if n.op == Op::UIToF {
                        Z3_mk_fpa_to_fp_unsigned(c, rm, a, s)
                    } else {
                        Z3_mk_fpa_to_fp_signed(c, rm, a, s)
                    };
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FExt | Op::FTrunc => {
                    let a = self.fp(ar, n.a);
                    let s = self.fpsort(n.w);
                    let rm = Z3_mk_fpa_rne(c);
                    Z3_inc_ref(c, rm);
                    let f = Z3_mk_fpa_to_fp_float(c, rm, a, s);
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
            };
            self.keep(e, p)
        }
    }
    fn has_div(&mut self, ar: &Arena, e: E) -> bool {
        let n = ar.n(e);
        if matches!(n.op, Op::Const | Op::Var) {
            return false;
        }
        if let Some(b) = self.hasdiv.get(&e) {
            return *b;
        }
        let mut r = matches!(n.op, Op::UDiv | Op::URem);
        for x in [n.a, n.b, n.c] {
            if x != 0 && self.has_div(ar, x) {
                r = true;
            }
        }
        self.hasdiv.insert(e, r);
        r
    }
    fn collect_side(&mut self, ar: &Arena, e: E, seen: &mut std::collections::HashSet<E, BuildFx>, out: &mut Vec<P>) {
        if !self.has_div(ar, e) || !seen.insert(e) {
            return;
        }
        if let Some(s) = self.side.get(&e) {
            out.extend(s.iter().copied());
        }
        let n = ar.n(e);
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                self.collect_side(ar, x, seen, out);
            }
        }
    }
    fn vars_of(ar: &Arena, e: E, seen: &mut std::collections::HashSet<E, BuildFx>, out: &mut Vec<(usize, E)>) {
        if !seen.insert(e) {
            return;
        }
        let n = ar.n(e);
        match n.op {
            Op::Const => {}
            Op::Var => out.push(((n.k & 0xffff_ffff) as usize, e)),
            _ => {
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        Self::vars_of(ar, x, seen, out)
                    }
                }
            }
        }
    }
    /// Check satisfiability of the conjunction; on SAT returns the values of all variables that occur.
    pub fn check(&mut self, ar: &Arena, cs: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        let fp = cs.iter().any(|e| ar.meta[*e as usize].fp);
        let mut terms = vec![];
        let mut seen = Default::default();
        let mut seen2 = Default::default();
        let mut vars = vec![];
        for e in cs {
            let t = self.term(ar, *e);
            terms.push(t);
            self.collect_side(ar, *e, &mut seen, &mut terms);
            Self::vars_of(ar, *e, &mut seen2, &mut vars);
        }
        let c = self.ctx;
        let res = unsafe {
            let s = if fp { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, self.logic) };
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for t in terms {
                Z3_solver_assert(c, s, t);
            }
            // base ranges of the variables
            for (v, e) in &vars {
                let _ = v;
                let (w, (lo, hi)) = (ar.w(*e), ar.srange(*e));
                if w > 1 {
                    let t = self.term(ar, *e);
                    if lo > 0 {
                        Z3_solver_assert(c, s, Z3_mk_bvule(c, self.numeral(w, lo), t));
                    }
                    if hi < mask(w) {
                        Z3_solver_assert(c, s, Z3_mk_bvule(c, t, self.numeral(w, hi)));
                    }
                }
            }
            if Z3_get_error_code(c) != 0 {
                panic!("z3 error asserting: {}", Z3_get_error_code(c));
            }
            let r = Z3_solver_check(c, s);
            if std::env::var_os("SYMX_DUMP").is_some() && t0.elapsed().as_millis() > 30 {
                let st = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("/tmp/symx_q{}_{}.smt2", self.queries, t0.elapsed().as_millis()), st + "\n(check-sat)\n");
            }
            let out = match r {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    for (v, e) in &vars {
                        let mut t = self.term(ar, *e);
                        if ar.w(*e) == 1 {
                            t = self.b2bv(t);
                        }
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, t, true, &mut o) {
                            panic!("z3 model eval");
                        }
                        let st = CStr::from_ptr(Z3_get_numeral_string(c, o));
                        let x: u128 = st.to_str().unwrap().parse().expect("numeral");
                        vals.push((*v, x));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(vals)
                }
                _ => Res::Unknown("unknown/timeout".into()),
            };
            Z3_solver_dec_ref(c, s);
            out
        };
        let us = t0.elapsed().as_micros() as u64;
        self.queries += 1;
        self.time_us += us;
        self.max_us = self.max_us.max(us);
        match &res {
            Res::Unsat => self.unsat += 1,
            Res::Sat(_) => self.sat += 1,
            _ => self.unknown += 1,
        }
        res
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}
