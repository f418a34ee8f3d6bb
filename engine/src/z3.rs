//! Minimal binding to libz3: translates expressions and answers satisfiability queries.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, x: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);
pub static UNKNOWN: AtomicU64 = AtomicU64::new(0);
pub static NANOS: AtomicU64 = AtomicU64::new(0);
pub static MAXNANOS: AtomicU64 = AtomicU64::new(0);
pub static HITS: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(2);
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    sorts: [P; 129],
}

pub enum Ans {
    Sat(Vec<(u8, u8)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, bv: vec![], bl: vec![], sorts: [std::ptr::null_mut(); 129] }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        if self.sorts[w as usize].is_null() {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, w as c_uint);
                Z3_inc_ref(self.c, s);
                self.sorts[w as usize] = s;
            }
        }
        self.sorts[w as usize]
    }
    fn num(&mut self, v: u128, w: u8) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    /// runs of equal values in a table, as (lo, hi, value)
    fn runs(t: &[u128]) -> Vec<(usize, usize, u128)> {
        let mut r: Vec<(usize, usize, u128)> = vec![];
        for (i, v) in t.iter().enumerate() {
            match r.last_mut() {
                Some(l) if l.2 == *v => l.1 = i,
                _ => r.push((i, i, *v)),
            }
        }
        r
    }
    fn in_range(&mut self, s: P, lo: usize, hi: usize) -> P {
        unsafe {
            let l = self.num(lo as u128, 8);
            Z3_inc_ref(self.c, l);
            if lo == hi {
                return Z3_mk_eq(self.c, s, l);
            }
            let h = self.num(hi as u128, 8);
            Z3_inc_ref(self.c, h);
            let a = Z3_mk_bvule(self.c, l, s);
            Z3_inc_ref(self.c, a);
            let b = Z3_mk_bvule(self.c, s, h);
            Z3_inc_ref(self.c, b);
            Z3_mk_and(self.c, 2, [a, b].as_ptr())
        }
    }
    fn bv(&mut self, x: &Ctx, e: E) -> P {
        if self.bv.len() <= e as usize {
            self.bv.resize(x.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let n = x.nd(e);
        let c = self.c;
        let r = unsafe {
            match n.k {
                K::Const => self.num(n.v, n.w),
                K::Var => {
                    let s = self.sort(8);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.v as c_int), s)
                }
                K::Ite => {
                    let q = self.bool(x, n.a);
                    let a = self.bv(x, n.b);
                    let b = self.bv(x, n.c);
                    Z3_mk_ite(c, q, a, b)
                }
                K::ZExt => {
                    let a = self.bv(x, n.a);
                    Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                }
                K::SExt => {
                    let a = self.bv(x, n.a);
                    Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as c_uint, a)
                }
                K::Extract => {
                    let a = self.bv(x, n.a);
                    Z3_mk_extract(c, n.v as c_uint + n.w as c_uint - 1, n.v as c_uint, a)
                }
                K::Concat => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    Z3_mk_concat(c, a, b)
                }
                K::Table if n.w > 1 => {
                    let s = self.bv(x, n.a);
                    let t = x.tables[n.v as usize].clone();
                    let m = mask(n.w);
                    let step = t[1].wrapping_sub(t[0]) & m;
                    if t.len() == 256 && n.w >= 8 && t.windows(2).all(|p| p[1].wrapping_sub(p[0]) & m == step) {
                        let s = if n.w == 8 { s } else { Z3_mk_zero_ext(c, n.w as c_uint - 8, s) };
                        Z3_inc_ref(c, s);
                        let k = self.num(step, n.w);
                        Z3_inc_ref(c, k);
                        let k = Z3_mk_bvmul(c, s, k);
                        Z3_inc_ref(c, k);
                        let z = self.num(t[0], n.w);
                        Z3_inc_ref(c, z);
                        let r = Z3_mk_bvadd(c, k, z);
                        Z3_inc_ref(c, r);
                        self.bv[e as usize] = r;
                        return r;
                    }
                    let mut acc = self.num(0, n.w);
                    Z3_inc_ref(c, acc);
                    for (lo, hi, v) in Self::runs(&t) {
                        let q = self.in_range(s, lo, hi);
                        Z3_inc_ref(c, q);
                        let k = self.num(v, n.w);
                        Z3_inc_ref(c, k);
                        acc = Z3_mk_ite(c, q, k, acc);
                        Z3_inc_ref(c, acc);
                    }
                    acc
                }
                K::Add | K::Sub | K::Mul | K::UDiv | K::SDiv | K::URem | K::SRem | K::Shl | K::LShr | K::AShr => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    match n.k {
                        K::Add => Z3_mk_bvadd(c, a, b),
                        K::Sub => Z3_mk_bvsub(c, a, b),
                        K::Mul => Z3_mk_bvmul(c, a, b),
                        K::UDiv => Z3_mk_bvudiv(c, a, b),
                        K::SDiv => Z3_mk_bvsdiv(c, a, b),
                        K::URem => Z3_mk_bvurem(c, a, b),
                        K::SRem => Z3_mk_bvsrem(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b),
                        K::LShr => Z3_mk_bvlshr(c, a, b),
                        _ => Z3_mk_bvashr(c, a, b),
                    }
                }
                K::And | K::Or | K::Xor if n.w > 1 => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    match n.k {
                        K::And => Z3_mk_bvand(c, a, b),
                        K::Or => Z3_mk_bvor(c, a, b),
                        _ => Z3_mk_bvxor(c, a, b),
                    }
                }
                _ => {
                    let q = self.bool(x, e);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    let zero = self.num(0, 1);
                    Z3_inc_ref(c, zero);
                    Z3_mk_ite(c, q, one, zero)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        if self.bv.len() <= e as usize {
            self.bv.resize(x.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        self.bv[e as usize] = r;
        r
    }
    fn bool(&mut self, x: &Ctx, e: E) -> P {
        if self.bl.len() <= e as usize {
            self.bl.resize(x.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bl[e as usize].is_null() {
            return self.bl[e as usize];
        }
        let n = x.nd(e);
        let c = self.c;
        let r = unsafe {
            match n.k {
                K::Const => {
                    if n.v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::And | K::Or | K::Xor => {
                    if n.k == K::Xor && x.is_c(n.b) == Some(1) {
                        let a = self.bool(x, n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let a = self.bool(x, n.a);
                        let b = self.bool(x, n.b);
                        match n.k {
                            K::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            K::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            _ => Z3_mk_xor(c, a, b),
                        }
                    }
                }
                K::Eq | K::Ult | K::Slt => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    match n.k {
                        K::Eq => Z3_mk_eq(c, a, b),
                        K::Ult => Z3_mk_bvult(c, a, b),
                        _ => Z3_mk_bvslt(c, a, b),
                    }
                }
                K::Ite => {
                    let q = self.bool(x, n.a);
                    let a = self.bool(x, n.b);
                    let b = self.bool(x, n.c);
                    Z3_mk_ite(c, q, a, b)
                }
                K::Table => {
                    let s = self.bv(x, n.a);
                    let t = x.tables[n.v as usize].clone();
                    let mut ps = vec![];
                    for (lo, hi, v) in Self::runs(&t) {
                        if v == 1 {
                            let q = self.in_range(s, lo, hi);
                            Z3_inc_ref(c, q);
                            ps.push(q);
                        }
                    }
                    Z3_mk_or(c, ps.len() as c_uint, ps.as_ptr())
                }
                _ => {
                    let a = self.bv(x, e);
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        if self.bl.len() <= e as usize {
            self.bl.resize(x.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        self.bl[e as usize] = r;
        r
    }

    /// satisfiability of the conjunction; the model gives the listed variables
    pub fn check(&mut self, x: &mut Ctx, cons: &[E], vars: u128) -> Ans {
        let t0 = Instant::now();
        let c = self.c;
        unsafe {
            Z3_solver_push(c, self.s);
            for e in cons {
                let b = self.bool(x, *e);
                Z3_solver_assert(c, self.s, b);
            }
            let r = Z3_solver_check(c, self.s);
            QUERIES.fetch_add(1, Ordering::Relaxed);
            let ans = match r {
                1 => {
                    SAT.fetch_add(1, Ordering::Relaxed);
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    let mut v = vars;
                    while v != 0 {
                        let i = v.trailing_zeros();
                        v &= v - 1;
                        let ve = x.var(i);
                        let t = self.bv(x, ve);
                        let mut val: P = std::ptr::null_mut();
                        let mut k = 0u64;
                        if !Z3_model_eval(c, m, t, true, &mut val) {
                            eprintln!("z3 model eval failed");
                            std::process::exit(2);
                        }
                        Z3_inc_ref(c, val);
                        if !Z3_get_numeral_uint64(c, val, &mut k) {
                            eprintln!("z3 model value");
                            std::process::exit(2);
                        }
                        out.push((i as u8, k as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Ans::Sat(out)
                }
                -1 => {
                    UNSAT.fetch_add(1, Ordering::Relaxed);
                    Ans::Unsat
                }
                _ => {
                    UNKNOWN.fetch_add(1, Ordering::Relaxed);
                    Ans::Unknown
                }
            };
            Z3_solver_pop(c, self.s, 1);
            let d = t0.elapsed().as_nanos() as u64;
            NANOS.fetch_add(d, Ordering::Relaxed);
            MAXNANOS.fetch_max(d, Ordering::Relaxed);
            ans
        }
    }
}
