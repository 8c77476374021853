//! Z3 back end (C API of the installed libz3), with a query cache keyed on hash-consed constraints.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_set_error_handler(c: Z, h: *const c_void);
    fn Z3_get_error_code(c: Z) -> c_int;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_const(c: Z, s: Z, ty: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, ty: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, ty: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, a: Z, completion: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Smt {
    c: Z,
    s: Z,
    ast: HashMap<E, Z>,
    vars: HashMap<u32, Z>,
    cache: HashMap<Box<[E]>, Option<Vec<(u32, u8)>>>,
    pub st: Stats,
    pub dump: Option<std::fs::File>,
    pub dump_left: u32,
    pub dump_every: u64,
}

impl Smt {
    pub fn new() -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, std::ptr::null());
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 20000);
            Z3_solver_set_params(c, s, p);
            Smt { c, s, ast: HashMap::new(), vars: HashMap::new(), cache: HashMap::new(), st: Stats::default(), dump: None, dump_left: 0, dump_every: 1 }
        }
    }
    fn var(&mut self, i: u32) -> Z {
        if let Some(&z) = self.vars.get(&i) { return z; }
        unsafe {
            let n = CString::new(format!("b{}", i)).unwrap();
            let z = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8));
            self.vars.insert(i, z);
            z
        }
    }
    // width-1 expressions are Z3 booleans
    fn tr(&mut self, cx: &Ctx, e: E) -> Z {
        if let Some(&z) = self.ast.get(&e) { return z; }
        let w = cx.w(e);
        let c = self.c;
        let z = unsafe {
            match cx.n(e).clone() {
                Node::Const(v) => {
                    if w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                    else if w <= 64 { Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w)) }
                    else { let s = CString::new(format!("{}", v)).unwrap(); Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w)) }
                }
                Node::Var(i) => self.var(i),
                Node::In(i, s) => {
                    let v = self.var(i);
                    let has = |x: usize| (s[x / 64] >> (x % 64)) & 1 == 1;
                    let sort = Z3_mk_bv_sort(c, 8);
                    let mut alts = vec![];
                    let mut x = 0;
                    while x < 256 {
                        if has(x) {
                            let lo = x;
                            while x < 256 && has(x) { x += 1; }
                            let hi = x - 1;
                            let zl = Z3_mk_unsigned_int64(c, lo as u64, sort);
                            let zh = Z3_mk_unsigned_int64(c, hi as u64, sort);
                            alts.push(if lo == hi { Z3_mk_eq(c, v, zl) } else {
                                let a = [Z3_mk_bvule(c, zl, v), Z3_mk_bvule(c, v, zh)];
                                Z3_mk_and(c, 2, a.as_ptr())
                            });
                        } else { x += 1; }
                    }
                    if alts.len() == 1 { alts[0] } else { Z3_mk_or(c, alts.len() as c_uint, alts.as_ptr()) }
                }
                Node::Not(a) => { let a = self.tr(cx, a); Z3_mk_not(c, a) }
                Node::Bin(op, a, b) => {
                    let x = self.tr(cx, a);
                    let y = self.tr(cx, b);
                    if w == 1 {
                        let l = [x, y];
                        match op {
                            B::And => Z3_mk_and(c, 2, l.as_ptr()),
                            B::Or => Z3_mk_or(c, 2, l.as_ptr()),
                            B::Xor => Z3_mk_xor(c, x, y),
                            _ => panic!("boolean op {:?}", op),
                        }
                    } else {
                        match op {
                            B::Add => Z3_mk_bvadd(c, x, y), B::Sub => Z3_mk_bvsub(c, x, y), B::Mul => Z3_mk_bvmul(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y), B::SDiv => Z3_mk_bvsdiv(c, x, y), B::URem => Z3_mk_bvurem(c, x, y),
                            B::SRem => Z3_mk_bvsrem(c, x, y), B::Shl => Z3_mk_bvshl(c, x, y), B::LShr => Z3_mk_bvlshr(c, x, y),
                            B::AShr => Z3_mk_bvashr(c, x, y), B::And => Z3_mk_bvand(c, x, y), B::Or => Z3_mk_bvor(c, x, y),
                            B::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                }
                Node::Cmp(p, a, b) => {
                    let aw = cx.w(a);
                    let x = self.tr(cx, a);
                    let y = self.tr(cx, b);
                    if aw == 1 {
                        let nx = Z3_mk_not(c, x);
                        match p {
                            P::Eq => Z3_mk_eq(c, x, y),
                            P::Ult => { let l = [nx, y]; Z3_mk_and(c, 2, l.as_ptr()) }
                            _ => panic!("one-bit comparison {:?}", p),
                        }
                    } else {
                        match p {
                            P::Eq => Z3_mk_eq(c, x, y), P::Ult => Z3_mk_bvult(c, x, y), P::Ule => Z3_mk_bvule(c, x, y),
                            P::Slt => Z3_mk_bvslt(c, x, y), P::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                Node::Ite(a, x, y) => { let a = self.tr(cx, a); let x = self.tr(cx, x); let y = self.tr(cx, y); Z3_mk_ite(c, a, x, y) }
                Node::Extract(a, hi, lo) => {
                    let x = self.tr_bv(cx, a);
                    let r = Z3_mk_extract(c, hi, lo, x);
                    if w == 1 { Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) } else { r }
                }
                Node::Concat(h, l) => { let x = self.tr_bv(cx, h); let y = self.tr_bv(cx, l); Z3_mk_concat(c, x, y) }
                Node::ZExt(a) => { let x = self.tr_bv(cx, a); Z3_mk_zero_ext(c, w - cx.w(a), x) }
                Node::SExt(a) => { let x = self.tr_bv(cx, a); Z3_mk_sign_ext(c, w - cx.w(a), x) }
            }
        };
        assert!(!z.is_null(), "z3 returned null for {:?}", cx.n(e));
        self.ast.insert(e, z);
        z
    }
    fn tr_bv(&mut self, cx: &Ctx, e: E) -> Z {
        let z = self.tr(cx, e);
        if cx.w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                Z3_mk_ite(self.c, z, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
            }
        } else { z }
    }
    /// Is the conjunction satisfiable?  Returns a partial assignment for the variables in it.
    pub fn check(&mut self, cx: &Ctx, cs: &mut Vec<E>) -> Option<Vec<(u32, u8)>> {
        cs.sort();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs[..]) { self.st.cached += 1; return r.clone(); }
        let t = Instant::now();
        let mut vm = 0u128;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs.iter() {
                vm |= cx.vars[e as usize];
                let z = self.tr(cx, e);
                Z3_solver_assert(self.c, self.s, z);
            }
            self.st.queries += 1;
            let r = Z3_solver_check(self.c, self.s);
            assert!(Z3_get_error_code(self.c) == 0, "z3 error");
            if self.dump.is_some() && self.dump_left > 0 && self.st.queries % self.dump_every == 0 {
                use std::io::Write;
                self.dump_left -= 1;
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                let f = self.dump.as_mut().unwrap();
                let _ = write!(f, "(push 1)\n{}\n(echo \"expect {}\")\n(check-sat)\n(pop 1)\n", t, if r == 1 { "sat" } else { "unsat" });
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..128u32 {
                        if vm >> i & 1 == 1 {
                            let v = self.var(i);
                            let mut z: Z = std::ptr::null_mut();
                            assert!(Z3_model_eval(self.c, m, v, true, &mut z));
                            let mut u = 0u64;
                            assert!(Z3_get_numeral_uint64(self.c, z, &mut u));
                            out.push((i, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.st.sat += 1;
                    Some(out)
                }
                -1 => { self.st.unsat += 1; None }
                // no answer in time: that side is left out, and counted
                _ => { self.st.unknown += 1; None }
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let us = t.elapsed().as_micros() as u64;
        self.st.time_us += us;
        if us > self.st.max_us { self.st.max_us = us; }
        self.cache.insert(cs.clone().into_boxed_slice(), r.clone());
        r
    }
}
