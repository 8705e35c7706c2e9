//! Z3 back end (C API of the system libz3), with a query cache.
use crate::expr::{Pool, K};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

pub struct Solver {
    c: P,
    s: P,
    bvs: HashMap<u32, P>,
    bools: HashMap<u32, P>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_query: f64,
    cache: HashMap<Vec<u32>, Option<Vec<(u32, u128)>>>,
    pub unknown: bool,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = if std::env::var("RSX_SIMPLE").is_ok() { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            let t = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, bvs: HashMap::new(), bools: HashMap::new(), queries: 0, cache_hits: 0, sat: 0, unsat: 0, time: 0.0, max_query: 0.0, cache: HashMap::new(), unknown: false }
        }
    }
    fn sort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn num(&self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.sort(w)) }
    }
    fn boolean(&mut self, p: &Pool, e: u32) -> P {
        if let Some(r) = self.bools.get(&e) {
            return *r;
        }
        let n = p.n[e as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        unsafe {
            let r = match n.k {
                K::Const => {
                    if n.v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::Eq => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    Z3_mk_eq(c, a, b)
                }
                K::Ult => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                K::Ule => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                K::Slt => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                K::Sle => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                K::And => {
                    let x = [self.boolean(p, n.a), self.boolean(p, n.b)];
                    Z3_mk_and(c, 2, x.as_ptr())
                }
                K::Or => {
                    let x = [self.boolean(p, n.a), self.boolean(p, n.b)];
                    Z3_mk_or(c, 2, x.as_ptr())
                }
                K::Xor => {
                    if p.kv(n.b) == Some(1) {
                        let x = self.boolean(p, n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (a, b) = (self.boolean(p, n.a), self.boolean(p, n.b));
                        Z3_mk_xor(c, a, b)
                    }
                }
                K::Ite => {
                    let (x, a, b) = (self.boolean(p, n.a), self.boolean(p, n.b), self.boolean(p, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                _ => {
                    let x = self.bv_raw(p, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            };
            self.bools.insert(e, r);
            r
        }
    }
    fn bv(&mut self, p: &Pool, e: u32) -> P {
        if let Some(r) = self.bvs.get(&e) {
            return *r;
        }
        let n = p.n[e as usize];
        let r = if n.w == 1 && matches!(n.k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::And | K::Or | K::Xor | K::Ite) {
            let b = self.boolean(p, e);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(self.c, b, o, z) }
        } else {
            self.bv_raw(p, e)
        };
        self.bvs.insert(e, r);
        r
    }
    fn bv_raw(&mut self, p: &Pool, e: u32) -> P {
        let n = p.n[e as usize];
        let c = self.c;
        unsafe {
            match n.k {
                K::Const => self.num(n.v, n.w),
                K::Sym => {
                    let s = CString::new(format!("s{}", n.v)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(n.w))
                }
                K::Extract => {
                    let a = self.bv(p, n.a);
                    Z3_mk_extract(c, n.v as u32 + n.w - 1, n.v as u32, a)
                }
                K::ZExt => {
                    let a = self.bv(p, n.a);
                    Z3_mk_zero_ext(c, n.w - p.w(n.a), a)
                }
                K::SExt => {
                    let a = self.bv(p, n.a);
                    Z3_mk_sign_ext(c, n.w - p.w(n.a), a)
                }
                K::Ite => {
                    let x = self.boolean(p, n.a);
                    let (a, b) = (self.bv(p, n.b), self.bv(p, n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                k => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    match k {
                        K::Add => Z3_mk_bvadd(c, a, b),
                        K::Sub => Z3_mk_bvsub(c, a, b),
                        K::Mul => Z3_mk_bvmul(c, a, b),
                        K::UDiv => Z3_mk_bvudiv(c, a, b),
                        K::SDiv => Z3_mk_bvsdiv(c, a, b),
                        K::URem => Z3_mk_bvurem(c, a, b),
                        K::SRem => Z3_mk_bvsrem(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b),
                        K::LShr => Z3_mk_bvlshr(c, a, b),
                        K::AShr => Z3_mk_bvashr(c, a, b),
                        K::And => Z3_mk_bvand(c, a, b),
                        K::Or => Z3_mk_bvor(c, a, b),
                        K::Xor => Z3_mk_bvxor(c, a, b),
                        K::Concat => Z3_mk_concat(c, a, b),
                        k => panic!("z3 {k:?}"),
                    }
                }
            }
        }
    }
    /// conjunction satisfiable? Some(assignments of the symbols occurring) or None.
    pub fn check(&mut self, p: &Pool, cs: &[u32]) -> Option<Vec<(u32, u128)>> {
        let mut key: Vec<u32> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in &key {
                let b = self.boolean(p, *e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut syms = vec![];
                    let mut seen = std::collections::HashSet::new();
                    let mut st: Vec<u32> = key.clone();
                    while let Some(e) = st.pop() {
                        if !seen.insert(e) {
                            continue;
                        }
                        let n = p.n[e as usize];
                        match n.k {
                            K::Const => {}
                            K::Sym => syms.push((n.v as u32, e)),
                            K::Extract | K::ZExt | K::SExt => st.push(n.a),
                            K::Ite => {
                                st.push(n.a);
                                st.push(n.b);
                                st.push(n.c)
                            }
                            _ => {
                                st.push(n.a);
                                st.push(n.b)
                            }
                        }
                    }
                    let mut asg = vec![];
                    for (ix, e) in syms {
                        let t = self.bv(p, e);
                        let mut v: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, t, true, &mut v) {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, v)).to_str().unwrap().to_string();
                            asg.push((ix, s.parse::<u128>().unwrap_or(0)));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Some(asg)
                }
                -1 => {
                    self.unsat += 1;
                    None
                }
                _ => {
                    self.unknown = true;
                    None
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            if self.queries % 500 == 0 {
                Z3_solver_reset(self.c, self.s);
            }
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        self.cache.insert(key, r.clone());
        r
    }
}
