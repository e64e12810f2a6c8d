//! Z3 back end (C API).  Each query is the slice of the path condition that
//! shares input bytes with the formula asked about, so equal queries recur and
//! are answered from a table; everything else goes to the solver.

use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

use crate::expr::{node, vars, FxMap, Op, E};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

/// Assignment of some input bytes.
pub type Part = Rc<Vec<(u8, u8)>>;

pub struct Solver {
    ctx: P,
    slv: P,
    bv: FxMap<E, P>,
    bo: FxMap<E, P>,
    cache: FxMap<Vec<E>, Option<Part>>,
    pub asked: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub secs: f64,
    /// Distinct queries as SMT-LIB, with the answer, for cross-checking.
    pub log: Option<Vec<(String, bool)>>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let slv = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, slv);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, slv, p);
            Self { ctx, slv, bv: FxMap::default(), bo: FxMap::default(), cache: FxMap::default(),
                   asked: 0, cached: 0, sat: 0, unsat: 0, secs: 0.0, log: None }
        }
    }

    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }

    fn bv(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p }
        let n = node(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let s = CString::new(n.k.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w))
                }
                Op::Var => {
                    let s = CString::new(format!("b{}", n.k)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8))
                }
                Op::Ite => {
                    let (x, y, z) = (self.bo(n.a), self.bv(n.b), self.bv(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Concat => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_concat(c, x, y) }
                Op::Extract => {
                    let x = self.bv(n.a);
                    let lo = n.k as u32;
                    Z3_mk_extract(c, lo + n.w - 1, lo, x)
                }
                Op::ZExt => { let x = self.bv(n.a); Z3_mk_zero_ext(c, n.w - node(n.a).w, x) }
                Op::SExt => { let x = self.bv(n.a); Z3_mk_sign_ext(c, n.w - node(n.a).w, x) }
                Op::Eq | Op::Ult | Op::Slt => {
                    let x = self.bo(e);
                    let so = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_numeral(c, c"1".as_ptr(), so);
                    let zero = Z3_mk_numeral(c, c"0".as_ptr(), so);
                    Z3_mk_ite(c, x, one, zero)
                }
                op => {
                    let (x, y) = (self.bv(n.a), self.bv(n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    fn bo(&mut self, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) { return p }
        let n = node(e);
        assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => {
                    if node(n.a).w == 1 {
                        let (x, y) = (self.bo(n.a), self.bo(n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.bv(n.a), self.bv(n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvult(c, x, y) }
                Op::Slt => { let (x, y) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvslt(c, x, y) }
                Op::And => { let a = [self.bo(n.a), self.bo(n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or => { let a = [self.bo(n.a), self.bo(n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor => {
                    if crate::expr::as_const(n.b) == Some(1) { let x = self.bo(n.a); Z3_mk_not(c, x) }
                    else { let (x, y) = (self.bo(n.a), self.bo(n.b)); Z3_mk_xor(c, x, y) }
                }
                Op::Ite => {
                    let (x, y, z) = (self.bo(n.a), self.bo(n.b), self.bo(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bv(e);
                    let one = Z3_mk_numeral(c, c"1".as_ptr(), Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bo.insert(e, r);
        r
    }

    /// Is `pc ∧ q` satisfiable?  The given assignment covers exactly the bytes
    /// of the slice; `pc` must itself be satisfiable.  `Err` is "unknown".
    pub fn check(&mut self, pc: &[E], q: E) -> Result<Option<Part>, String> {
        if let Some(k) = crate::expr::as_const(q) {
            return Ok(if k == 1 { Some(Rc::new(vec![])) } else { None });
        }
        let mut set = vars(q);
        let mut key = vec![q];
        let mut rest: Vec<(E, u128)> = pc.iter().map(|&e| (e, vars(e))).collect();
        loop {
            let mut changed = false;
            rest.retain(|&(e, v)| if v & set != 0 { set |= v; key.push(e); changed = true; false }
                                  else { true });
            if !changed { break }
        }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return Ok(r.clone());
        }
        let t = Instant::now();
        self.asked += 1;
        let terms: Vec<P> = key.iter().map(|&e| self.bo(e)).collect();
        let c = self.ctx;
        let res = unsafe {
            Z3_solver_reset(c, self.slv);
            for p in terms { Z3_solver_assert(c, self.slv, p) }
            match Z3_solver_check(c, self.slv) {
                1 => {
                    let m = Z3_solver_get_model(c, self.slv);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for i in 0..128u32 {
                        if set >> i & 1 == 1 {
                            let v = self.bv(crate::expr::var(i));
                            let mut r: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            assert!(Z3_model_eval(c, m, v, true, &mut r));
                            assert!(Z3_get_numeral_uint64(c, r, &mut u));
                            out.push((i as u8, u as u8));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Some(Rc::new(out))
                }
                -1 => { self.unsat += 1; None }
                _ => return Err("solver answered unknown (resource limit)".into()),
            }
        };
        if let Some(log) = &mut self.log {
            let s = unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.slv)) };
            log.push((s.to_string_lossy().into_owned(), res.is_some()));
        }
        self.secs += t.elapsed().as_secs_f64();
        // A model must satisfy the formula; this guards the translation to Z3.
        if let Some(part) = &res {
            let mut mdl = vec![0u8; 128];
            for &(i, b) in part.iter() { mdl[i as usize] = b }
            for &e in &key {
                if crate::expr::eval(e, &mdl) != 1 {
                    return Err("solver model does not satisfy the query".into());
                }
            }
        }
        self.cache.insert(key, res.clone());
        Ok(res)
    }
}
