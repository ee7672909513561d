//! Minimal hand-written binding to libz3's C API plus the query layer:
//! constraint independence slicing, a query cache and incremental solving with
//! indicator literals.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    // floating point
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_away(c: P) -> P;
    fn Z3_mk_fpa_round_toward_positive(c: P) -> P;
    fn Z3_mk_fpa_round_toward_negative(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

/// Effort spent in the incremental solver before asking a fresh one.
const QUICK: u32 = 60_000;

pub struct Solver {
    ctx: P,
    tactic: P,
    bv_cache: HashMap<Id, P>,
    bool_cache: HashMap<Id, P>,
    vars: HashMap<u32, P>,
    s_bv: P,
    s_fp: P,
    lits_bv: HashMap<Id, P>,
    lits_fp: HashMap<Id, P>,
    asserted: usize,
    cache: HashMap<Vec<Id>, Answer>,
    rlimit: u32,
    pub retries: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_query: f64,
    /// When set, discharged (unsat) assertion queries are dumped for the
    /// cross-check with a second solver.
    pub dump: Vec<String>,
    pub dump_max: usize,
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, std::ptr::null_mut());
            let mut s = Solver {
                ctx,
                tactic: std::ptr::null_mut(),
                bv_cache: HashMap::new(),
                bool_cache: HashMap::new(),
                vars: HashMap::new(),
                s_bv: std::ptr::null_mut(),
                s_fp: std::ptr::null_mut(),
                lits_bv: HashMap::new(),
                lits_fp: HashMap::new(),
                asserted: 0,
                cache: HashMap::new(),
                rlimit,
                retries: 0,
                queries: 0,
                cache_hits: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_query: 0.0,
                dump: Vec::new(),
                dump_max: 0,
            };
            let n = CString::new("qfbv").unwrap();
            s.tactic = Z3_mk_tactic(ctx, n.as_ptr());
            Z3_tactic_inc_ref(ctx, s.tactic);
            s.s_bv = s.mk_solver(true, QUICK, false);
            s.s_fp = s.mk_solver(false, QUICK, false);
            s
        }
    }

    unsafe fn mk_solver(&self, bv: bool, rlimit: u32, once: bool) -> P {
        let c = self.ctx;
        let s = if bv && once {
            Z3_mk_solver_from_tactic(c, self.tactic)
        } else if bv {
            let l = CString::new("QF_BV").unwrap();
            Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
        } else {
            Z3_mk_solver(c)
        };
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let k = CString::new("rlimit").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
        Z3_solver_set_params(c, s, p);
        s
    }

    fn keep(&self, a: P) -> P {
        assert!(!a.is_null(), "z3 error {}", unsafe { Z3_get_error_code(self.ctx) });
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let c = self.ctx;
            if w <= 64 {
                self.keep(Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w)))
            } else {
                let lo = self.keep(Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64)));
                let hi = self.keep(Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, w - 64)));
                self.keep(Z3_mk_concat(c, hi, lo))
            }
        }
    }

    fn var(&mut self, v: u32, name: &str) -> P {
        if let Some(&p) = self.vars.get(&v) {
            return p;
        }
        let p = unsafe {
            let n = CString::new(name).unwrap();
            let c = self.ctx;
            self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, 8)))
        };
        self.vars.insert(v, p);
        p
    }

    pub fn to_bool(&mut self, a: &Arena, id: Id) -> P {
        if let Some(&p) = self.bool_cache.get(&id) {
            return p;
        }
        let c = self.ctx;
        debug_assert_eq!(a.nodes[id as usize].w, 1);
        let r = unsafe {
            match a.nodes[id as usize].node {
                Node::Const(v) => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Cmp(op, x, y) => {
                    if a.nodes[x as usize].w == 1 && op == CmpOp::Eq {
                        let (x, y) = (self.to_bool(a, x), self.to_bool(a, y));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.to_bv(a, x), self.to_bv(a, y));
                        match op {
                            CmpOp::Eq => Z3_mk_eq(c, x, y),
                            CmpOp::Ult => Z3_mk_bvult(c, x, y),
                            CmpOp::Ule => Z3_mk_bvule(c, x, y),
                            CmpOp::Slt => Z3_mk_bvslt(c, x, y),
                            CmpOp::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                Node::Not(x) => {
                    let x = self.to_bool(a, x);
                    Z3_mk_not(c, x)
                }
                Node::Ite(i, x, y) => {
                    let (i, x, y) = (self.to_bool(a, i), self.to_bool(a, x), self.to_bool(a, y));
                    Z3_mk_ite(c, i, x, y)
                }
                Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                    let (x, y) = (self.to_bool(a, x), self.to_bool(a, y));
                    let v = [x, y];
                    match op {
                        BinOp::And => Z3_mk_and(c, 2, v.as_ptr()),
                        BinOp::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, x, y),
                    }
                }
                _ => {
                    let b = self.to_bv(a, id);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, b, one)
                }
            }
        };
        let r = self.keep(r);
        self.bool_cache.insert(id, r);
        r
    }

    unsafe fn fsort(&self, w: u32) -> P {
        if w == 32 {
            Z3_mk_fpa_sort_32(self.ctx)
        } else {
            Z3_mk_fpa_sort_64(self.ctx)
        }
    }

    pub fn to_bv(&mut self, a: &Arena, id: Id) -> P {
        if let Some(&p) = self.bv_cache.get(&id) {
            return p;
        }
        let c = self.ctx;
        let w = a.nodes[id as usize].w;
        let r = unsafe {
            match a.nodes[id as usize].node {
                Node::Var(v) => self.var(v, &a.vars[v as usize].clone()),
                Node::Const(v) => self.num(v, w),
                Node::Bin(op, x, y) if !(w == 1 && matches!(op, BinOp::And | BinOp::Or | BinOp::Xor)) => {
                    let (x, y) = (self.to_bv(a, x), self.to_bv(a, y));
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, x, y),
                        BinOp::Sub => Z3_mk_bvsub(c, x, y),
                        BinOp::Mul => Z3_mk_bvmul(c, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOp::URem => Z3_mk_bvurem(c, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOp::Shl => Z3_mk_bvshl(c, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                        BinOp::AShr => Z3_mk_bvashr(c, x, y),
                        BinOp::And => Z3_mk_bvand(c, x, y),
                        BinOp::Or => Z3_mk_bvor(c, x, y),
                        BinOp::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Node::Ite(i, x, y) if w > 1 => {
                    let (i, x, y) = (self.to_bool(a, i), self.to_bv(a, x), self.to_bv(a, y));
                    Z3_mk_ite(c, i, x, y)
                }
                Node::Ext(x, lo) => {
                    let x = self.to_bv(a, x);
                    Z3_mk_extract(c, lo + w - 1, lo, x)
                }
                Node::Concat(h, l) => {
                    let (h, l) = (self.to_bv(a, h), self.to_bv(a, l));
                    Z3_mk_concat(c, h, l)
                }
                Node::ZExt(x) => {
                    let xw = a.nodes[x as usize].w;
                    let x = self.to_bv(a, x);
                    Z3_mk_zero_ext(c, w - xw, x)
                }
                Node::SExt(x) => {
                    let xw = a.nodes[x as usize].w;
                    let x = self.to_bv(a, x);
                    Z3_mk_sign_ext(c, w - xw, x)
                }
                Node::Fp(op, x, y) => self.fp(a, op, x, y, w),
                // Width-1 boolean nodes.
                _ => {
                    let b = self.to_bool(a, id);
                    let (one, zero) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, one, zero)
                }
            }
        };
        let r = self.keep(r);
        self.bv_cache.insert(id, r);
        r
    }

    unsafe fn fp(&mut self, a: &Arena, op: FpOp, x: Id, y: Id, w: u32) -> P {
        let c = self.ctx;
        let aw = a.nodes[x as usize].w;
        let xb = self.to_bv(a, x);
        let yb = self.to_bv(a, y);
        let rne = self.keep(Z3_mk_fpa_round_nearest_ties_to_even(c));
        match op {
            FpOp::FromS | FpOp::FromU => {
                let s = self.fsort(w);
                let t = if op == FpOp::FromS { Z3_mk_fpa_to_fp_signed(c, rne, xb, s) } else { Z3_mk_fpa_to_fp_unsigned(c, rne, xb, s) };
                let t = self.keep(t);
                return Z3_mk_fpa_to_ieee_bv(c, t);
            }
            _ => {}
        }
        let xs = self.fsort(aw);
        let xf = self.keep(Z3_mk_fpa_to_fp_bv(c, xb, xs));
        let nan = self.keep(Z3_mk_fpa_is_nan(c, xf));
        match op {
            FpOp::ToSSat | FpOp::ToUSat => {
                let rtz = self.keep(Z3_mk_fpa_round_toward_zero(c));
                let signed = op == FpOp::ToSSat;
                let (minf, maxf, min, max) = if signed {
                    (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w - 1))
                } else {
                    (0.0, 2f64.powi(w as i32), 0, mask(w))
                };
                let minn = self.keep(Z3_mk_fpa_numeral_double(c, minf, xs));
                let maxn = self.keep(Z3_mk_fpa_numeral_double(c, maxf, xs));
                let lo = self.keep(Z3_mk_fpa_leq(c, xf, minn));
                let hi = self.keep(Z3_mk_fpa_geq(c, xf, maxn));
                let conv = if signed { Z3_mk_fpa_to_sbv(c, rtz, xf, w) } else { Z3_mk_fpa_to_ubv(c, rtz, xf, w) };
                let conv = self.keep(conv);
                let zero = self.num(0, w);
                let minb = self.num(min, w);
                let maxb = self.num(max, w);
                let t = self.keep(Z3_mk_ite(c, hi, maxb, conv));
                let t = self.keep(Z3_mk_ite(c, lo, minb, t));
                Z3_mk_ite(c, nan, zero, t)
            }
            FpOp::Ext => {
                let f64s = self.fsort(64);
                let t = self.keep(Z3_mk_fpa_to_fp_float(c, rne, xf, f64s));
                let t = self.keep(Z3_mk_fpa_to_ieee_bv(c, t));
                // NaN: quieten and shift the payload, as the hardware does.
                let sgn = self.keep(Z3_mk_extract(c, 31, 31, xb));
                let pay = self.keep(Z3_mk_extract(c, 21, 0, xb));
                let e = self.num(0xfff, 12);
                let z = self.num(0, 29);
                let n = self.keep(Z3_mk_concat(c, sgn, e));
                let n = self.keep(Z3_mk_concat(c, n, pay));
                let n = self.keep(Z3_mk_concat(c, n, z));
                Z3_mk_ite(c, nan, n, t)
            }
            FpOp::Trunc => {
                let f32s = self.fsort(32);
                let t = self.keep(Z3_mk_fpa_to_fp_float(c, rne, xf, f32s));
                let t = self.keep(Z3_mk_fpa_to_ieee_bv(c, t));
                let sgn = self.keep(Z3_mk_extract(c, 63, 63, xb));
                let pay = self.keep(Z3_mk_extract(c, 50, 29, xb));
                let e = self.num(0x1ff, 9);
                let n = self.keep(Z3_mk_concat(c, sgn, e));
                let n = self.keep(Z3_mk_concat(c, n, pay));
                Z3_mk_ite(c, nan, n, t)
            }
            _ => {
                let yf = self.keep(Z3_mk_fpa_to_fp_bv(c, yb, xs));
                let r = match op {
                    FpOp::Add => Z3_mk_fpa_add(c, rne, xf, yf),
                    FpOp::Sub => Z3_mk_fpa_sub(c, rne, xf, yf),
                    FpOp::Mul => Z3_mk_fpa_mul(c, rne, xf, yf),
                    FpOp::Div => Z3_mk_fpa_div(c, rne, xf, yf),
                    FpOp::RoundAway => Z3_mk_fpa_round_to_integral(c, self.keep(Z3_mk_fpa_round_nearest_ties_to_away(c)), xf),
                    FpOp::RoundEven => Z3_mk_fpa_round_to_integral(c, rne, xf),
                    FpOp::Floor => Z3_mk_fpa_round_to_integral(c, self.keep(Z3_mk_fpa_round_toward_negative(c)), xf),
                    FpOp::Ceil => Z3_mk_fpa_round_to_integral(c, self.keep(Z3_mk_fpa_round_toward_positive(c)), xf),
                    FpOp::RoundZero => Z3_mk_fpa_round_to_integral(c, self.keep(Z3_mk_fpa_round_toward_zero(c)), xf),
                    _ => unreachable!(),
                };
                let r = self.keep(r);
                // The NaN of an invalid operation, as the hardware makes it
                // (operands that are NaN are handled in `Arena::fp`).
                let bad = self.keep(Z3_mk_fpa_is_nan(c, r));
                let b = self.keep(Z3_mk_fpa_to_ieee_bv(c, r));
                let n = self.num(invalid(w), w);
                Z3_mk_ite(c, bad, n, b)
            }
        }
    }

    /// Is `conj` (all conjuncts over width-1 expressions) satisfiable?
    pub fn check(&mut self, a: &mut Arena, conj: &mut Vec<Id>) -> Answer {
        conj.sort_unstable();
        conj.dedup();
        if let Some(r) = self.cache.get(conj) {
            self.cache_hits += 1;
            return r.clone();
        }
        let mut vars: Vec<u32> = Vec::new();
        let mut fp = false;
        for &i in conj.iter() {
            vars.extend(a.vars_of(i).iter().copied());
            fp |= a.has_fp[&i];
        }
        vars.sort_unstable();
        vars.dedup();
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.ctx;
        let r = unsafe {
            if self.asserted > 4000 {
                Z3_solver_dec_ref(c, self.s_bv);
                Z3_solver_dec_ref(c, self.s_fp);
                self.s_bv = self.mk_solver(true, QUICK, false);
                self.s_fp = self.mk_solver(false, QUICK, false);
                self.lits_bv.clear();
                self.lits_fp.clear();
                self.asserted = 0;
            }
            let mut assumptions = Vec::with_capacity(conj.len());
            for &i in conj.iter() {
                let known = if fp { self.lits_fp.get(&i) } else { self.lits_bv.get(&i) };
                let l = match known {
                    Some(&l) => l,
                    None => {
                        let e = self.to_bool(a, i);
                        let name = CString::new(format!("lit!{}", i)).unwrap();
                        let l = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), Z3_mk_bool_sort(c)));
                        let imp = self.keep(Z3_mk_implies(c, l, e));
                        Z3_solver_assert(c, if fp { self.s_fp } else { self.s_bv }, imp);
                        self.asserted += if fp { 20 } else { 1 };
                        if fp {
                            self.lits_fp.insert(i, l);
                        } else {
                            self.lits_bv.insert(i, l);
                        }
                        l
                    }
                };
                assumptions.push(l);
            }
            let mut s = if fp { self.s_fp } else { self.s_bv };
            let mut fresh = false;
            let mut r = Z3_solver_check_assumptions(c, s, assumptions.len() as c_uint, assumptions.as_ptr());
            if r == 0 {
                // What earlier queries left behind can get in the way.
                fresh = true;
                let tq = t0.elapsed().as_secs_f64();
                self.retries += 1;
                s = self.mk_solver(!fp, self.rlimit, true);
                for &i in conj.iter() {
                    let e = self.to_bool(a, i);
                    Z3_solver_assert(c, s, e);
                }
                r = Z3_solver_check_assumptions(c, s, 0, assumptions.as_ptr());
                if std::env::var("SYMEX_RETRY").is_ok() {
                    eprintln!("RETRY quick {:.3} full {:.3} -> {}", tq, t0.elapsed().as_secs_f64() - tq, r);
                }
                // start over with an empty incremental solver
                self.asserted = usize::MAX;
            }
            let r = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = Vec::with_capacity(vars.len());
                    for &v in &vars {
                        let name = a.vars[v as usize].clone();
                        let p = self.var(v, &name);
                        let mut r: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(c, m, p, true, &mut r);
                        let mut n = 0u64;
                        if ok {
                            Z3_inc_ref(c, r);
                            Z3_get_numeral_uint64(c, r, &mut n);
                        }
                        out.push((v, n as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Answer::Sat(out)
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown,
            };
            if fresh {
                Z3_solver_dec_ref(c, s);
            }
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        if dt > slow_limit() {
            if let Ok(d) = std::env::var("SYMEX_SLOW") {
                let t = self.smtlib(a, conj).unwrap_or_default();
                let _ = std::fs::write(format!("{}/{}-{}.smt2", d, std::process::id(), self.queries), format!("; {:.1} s\n{}", dt, t));
            }
        }
        match &r {
            Answer::Unsat => {
                self.unsat += 1;
            }
            Answer::Unknown => self.unknown += 1,
            Answer::Sat(m) => {
                // Self-check of encoder and evaluator: the model must satisfy
                // the query under the concrete evaluator.
                let mut model = vec![0u8; a.vars.len()];
                for &(v, b) in m {
                    model[v as usize] = b;
                }
                let mut memo = HashMap::new();
                for &i in conj.iter() {
                    assert!(a.eval(i, &model, &mut memo) == 1, "solver model does not satisfy the query under the evaluator");
                }
            }
        }
        self.cache.insert(conj.clone(), r.clone());
        r
    }

    /// SMT-LIB text of a conjunction, one definition per node (for the
    /// cross-check with another solver). None if it needs the FP theory.
    pub fn smtlib(&mut self, a: &mut Arena, conj: &[Id]) -> Option<String> {
        let mut vars: Vec<u32> = Vec::new();
        for &i in conj {
            vars.extend(a.vars_of(i).iter().copied());
            if a.has_fp[&i] {
                return None;
            }
        }
        vars.sort_unstable();
        vars.dedup();
        let mut out = String::from("(set-logic QF_BV)\n");
        for v in vars {
            out.push_str(&format!("(declare-const |{}| (_ BitVec 8))\n", a.vars[v as usize]));
        }
        let mut done = std::collections::HashSet::new();
        for &i in conj {
            // children first, without recursion
            let mut stack = vec![(i, false)];
            while let Some((n, ready)) = stack.pop() {
                if done.contains(&n) {
                    continue;
                }
                let node = a.nodes[n as usize].node.clone();
                if !ready {
                    stack.push((n, true));
                    let kids: Vec<Id> = match node {
                        Node::Bin(_, x, y) | Node::Cmp(_, x, y) | Node::Concat(x, y) => vec![x, y],
                        Node::Ite(x, y, z) => vec![x, y, z],
                        Node::Ext(x, _) | Node::ZExt(x) | Node::SExt(x) | Node::Not(x) => vec![x],
                        _ => vec![],
                    };
                    stack.extend(kids.into_iter().map(|k| (k, false)));
                    continue;
                }
                done.insert(n);
                if out.len() > 2_000_000 {
                    return None;
                }
                let w = a.nodes[n as usize].w;
                let wd = |x: Id| a.nodes[x as usize].w;
                let bit = |s: String| format!("(ite {} #b1 #b0)", s);
                let e = match node {
                    Node::Var(v) => format!("|{}|", a.vars[v as usize]),
                    Node::Const(v) => format!("#b{:0w$b}", v, w = w as usize),
                    Node::Bin(op, x, y) => {
                        let o = match op {
                            BinOp::Add => "bvadd",
                            BinOp::Sub => "bvsub",
                            BinOp::Mul => "bvmul",
                            BinOp::UDiv => "bvudiv",
                            BinOp::SDiv => "bvsdiv",
                            BinOp::URem => "bvurem",
                            BinOp::SRem => "bvsrem",
                            BinOp::Shl => "bvshl",
                            BinOp::LShr => "bvlshr",
                            BinOp::AShr => "bvashr",
                            BinOp::And => "bvand",
                            BinOp::Or => "bvor",
                            BinOp::Xor => "bvxor",
                        };
                        format!("({} n{} n{})", o, x, y)
                    }
                    Node::Cmp(op, x, y) => {
                        let o = match op {
                            CmpOp::Eq => "=",
                            CmpOp::Ult => "bvult",
                            CmpOp::Ule => "bvule",
                            CmpOp::Slt => "bvslt",
                            CmpOp::Sle => "bvsle",
                        };
                        bit(format!("({} n{} n{})", o, x, y))
                    }
                    Node::Not(x) => format!("(bvnot n{})", x),
                    Node::Ite(i, x, y) => format!("(ite (= n{} #b1) n{} n{})", i, x, y),
                    Node::Ext(x, lo) => format!("((_ extract {} {}) n{})", lo + w - 1, lo, x),
                    Node::Concat(x, y) => format!("(concat n{} n{})", x, y),
                    Node::ZExt(x) => format!("((_ zero_extend {}) n{})", w - wd(x), x),
                    Node::SExt(x) => format!("((_ sign_extend {}) n{})", w - wd(x), x),
                    _ => return None,
                };
                out.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", n, w, e));
            }
            out.push_str(&format!("(assert (= n{} #b1))\n", i));
        }
        out.push_str("(check-sat)\n");
        Some(out)
    }
}

fn slow_limit() -> f64 {
    std::env::var("SYMEX_SLOW_S").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0)
}
