//! Thin binding to the C interface of libz3 and the translation of expressions into it.

use crate::expr::{Ex, Op, Table};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, signed: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("msx: z3 error: {}", m.to_string_lossy());
    std::process::exit(70);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()) }.to_string_lossy().into_owned()
}

/// Definitions not needed by a query that the solver may keep.
const UNUSED: usize = 20;
pub enum Verdict {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: Vec<P>,
    bl: Vec<P>,
    proxy: std::collections::HashMap<Ex, P>,
    live: usize,
    rlimit: u32,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, solver, p);
            Self { ctx, solver, bv: Vec::new(), bl: Vec::new(), proxy: Default::default(), live: 0, rlimit }
        }
    }

    /// Drop every cached term (used when the expression table is reset).
    pub fn reset(&mut self) {
        let t = self.rlimit;
        *self = Self::new(t);
    }

    fn num(&self, w: u32, k: u128) -> P {
        unsafe {
            let s = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w))
        }
    }

    fn bv(&mut self, t: &Table, e: Ex) -> P {
        if self.bv.len() < t.len() {
            self.bv.resize(t.len(), std::ptr::null_mut());
            self.bl.resize(t.len(), std::ptr::null_mut());
        }
        let c = self.bv[e as usize];
        if !c.is_null() {
            return c;
        }
        let n = t.n(e);
        let w = n.w as u32;
        let x = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(w, n.k),
                Op::Var => {
                    let s = CString::new(format!("in{}", n.k)).unwrap();
                    Z3_mk_const(x, Z3_mk_string_symbol(x, s.as_ptr()), Z3_mk_bv_sort(x, 8))
                }
                Op::Eq | Op::Ult | Op::Slt | Op::UMulOvf | Op::SMulOvf => {
                    let b = self.bl(t, e);
                    Z3_mk_ite(x, b, self.num(1, 1), self.num(1, 0))
                }
                Op::Not => Z3_mk_bvnot(x, self.bv(t, n.a)),
                Op::Extract => Z3_mk_extract(x, n.k as u32 + w - 1, n.k as u32, self.bv(t, n.a)),
                Op::ZExt => Z3_mk_zero_ext(x, w - t.w(n.a), self.bv(t, n.a)),
                Op::SExt => Z3_mk_sign_ext(x, w - t.w(n.a), self.bv(t, n.a)),
                Op::Ite => {
                    let c = self.bl(t, n.a);
                    let (p, q) = (self.bv(t, n.b), self.bv(t, n.c));
                    Z3_mk_ite(x, c, p, q)
                }
                _ => {
                    let (a, b) = (self.bv(t, n.a), self.bv(t, n.b));
                    match n.op {
                        Op::And => Z3_mk_bvand(x, a, b),
                        Op::Or => Z3_mk_bvor(x, a, b),
                        Op::Xor => Z3_mk_bvxor(x, a, b),
                        Op::Add => Z3_mk_bvadd(x, a, b),
                        Op::Sub => Z3_mk_bvsub(x, a, b),
                        Op::Mul => Z3_mk_bvmul(x, a, b),
                        Op::UDiv => Z3_mk_bvudiv(x, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(x, a, b),
                        Op::URem => Z3_mk_bvurem(x, a, b),
                        Op::SRem => Z3_mk_bvsrem(x, a, b),
                        Op::Shl => Z3_mk_bvshl(x, a, b),
                        Op::LShr => Z3_mk_bvlshr(x, a, b),
                        Op::AShr => Z3_mk_bvashr(x, a, b),
                        Op::Concat => Z3_mk_concat(x, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }

    /// A one-bit expression as a Z3 boolean.
    fn bl(&mut self, t: &Table, e: Ex) -> P {
        if self.bv.len() < t.len() {
            self.bv.resize(t.len(), std::ptr::null_mut());
            self.bl.resize(t.len(), std::ptr::null_mut());
        }
        let c = self.bl[e as usize];
        if !c.is_null() {
            return c;
        }
        let n = t.n(e);
        assert_eq!(n.w, 1);
        let x = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 { Z3_mk_true(x) } else { Z3_mk_false(x) }
                }
                Op::Not => Z3_mk_not(x, self.bl(t, n.a)),
                Op::And | Op::Or | Op::Xor => {
                    let v = [self.bl(t, n.a), self.bl(t, n.b)];
                    match n.op {
                        Op::And => Z3_mk_and(x, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(x, 2, v.as_ptr()),
                        _ => Z3_mk_xor(x, v[0], v[1]),
                    }
                }
                Op::Eq => {
                    if t.w(n.a) == 1 {
                        let (a, b) = (self.bl(t, n.a), self.bl(t, n.b));
                        Z3_mk_eq(x, a, b)
                    } else {
                        let (a, b) = (self.bv(t, n.a), self.bv(t, n.b));
                        Z3_mk_eq(x, a, b)
                    }
                }
                Op::Ult | Op::Slt | Op::UMulOvf | Op::SMulOvf => {
                    let (a, b) = (self.bv(t, n.a), self.bv(t, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(x, a, b),
                        Op::Slt => Z3_mk_bvslt(x, a, b),
                        Op::UMulOvf => Z3_mk_not(x, Z3_mk_bvmul_no_overflow(x, a, b, false)),
                        _ => {
                            let v = [
                                Z3_mk_bvmul_no_overflow(x, a, b, true),
                                Z3_mk_bvmul_no_underflow(x, a, b),
                            ];
                            Z3_mk_not(x, Z3_mk_and(x, 2, v.as_ptr()))
                        }
                    }
                }
                Op::Ite => {
                    let (c, a, b) = (self.bl(t, n.a), self.bl(t, n.b), self.bl(t, n.c));
                    Z3_mk_ite(x, c, a, b)
                }
                _ => {
                    let a = self.bv(t, e);
                    Z3_mk_eq(x, a, self.num(1, 1))
                }
            }
        };
        self.bl[e as usize] = r;
        r
    }

    /// Is there an assignment making every literal `(expr, value)` true?
    pub fn check(&mut self, t: &Table, lits: &[(Ex, bool)], vars: &[u32]) -> Verdict {
        unsafe {
            self.live += 1;
            let unused = self.proxy.len().saturating_sub(lits.len());
            if self.live > 400 || unused > UNUSED + 2 * lits.len() {
                Z3_solver_reset(self.ctx, self.solver);
                self.proxy.clear();
                self.live = 0;
            }
            let mut asm = Vec::with_capacity(lits.len());
            for &(e, v) in lits {
                let p = match self.proxy.get(&e) {
                    Some(p) => *p,
                    None => {
                        let b = self.bl(t, e);
                        let p = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, e as c_int), Z3_mk_bool_sort(self.ctx));
                        Z3_solver_assert(self.ctx, self.solver, Z3_mk_iff(self.ctx, p, b));
                        self.proxy.insert(e, p);
                        p
                    }
                };
                asm.push(if v { p } else { Z3_mk_not(self.ctx, p) });
            }
            match Z3_solver_check_assumptions(self.ctx, self.solver, asm.len() as c_uint, asm.as_ptr()) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = Vec::new();
                    for &v in vars {
                        let a = self.bv(t, t.var(v));
                        let mut r = std::ptr::null_mut();
                        assert!(Z3_model_eval(self.ctx, m, a, true, &mut r));
                        let mut k = 0u64;
                        assert!(Z3_get_numeral_uint64(self.ctx, r, &mut k));
                        out.push((v, k as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Verdict::Sat(out)
                }
                -1 => Verdict::Unsat,
                _ => Verdict::Unknown,
            }
        }
    }
}
