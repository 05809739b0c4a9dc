//! Minimal libz3 binding and the lowering of expressions to Z3 terms.
use crate::expr::{Ctx, Eid, Op};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_camel_case_types)]
type cs = *const c_char;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: cs) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: cs, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_get_const_interp(c: P, m: P, d: P) -> P;
    fn Z3_get_app_decl(c: P, a: P) -> P;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> cs;
    fn Z3_mk_tactic(c: P, n: *const std::os::raw::c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("symx: z3 error {}", code);
    std::process::exit(2);
}

pub struct Solver {
    c: P,
    s: P,
    memo: Vec<P>,      // as bit-vector (or Bool for w == 1)
    vars: Vec<(u32, P)>,
    stack: Vec<Eid>,   // asserted prefix, one push per entry
    pub queries: u64,
    pub time: f64,
    pub rlimit: u32,
    pub slow: bool,
    pub trace: Option<String>,
}

pub enum Res { Sat(Vec<u64>), Unsat, Unknown }

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, memo: Vec::new(), vars: Vec::new(), stack: Vec::new(), queries: 0, time: 0.0, rlimit, slow: false, trace: None }
        }
    }
    fn get(&self, e: Eid) -> P { self.memo.get(e as usize).copied().unwrap_or(std::ptr::null_mut()) }

    fn lower(&mut self, x: &Ctx, root: Eid) -> P {
        if self.memo.len() < x.nodes.len() { self.memo.resize(x.nodes.len(), std::ptr::null_mut()) }
        let mut work = vec![root];
        while let Some(&e) = work.last() {
            if !self.get(e).is_null() { work.pop(); continue }
            let n = x.n(e);
            let kids: &[u32] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::ZExt | Op::SExt | Op::Extract => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids { if self.get(k).is_null() { work.push(k); ready = false } }
            if !ready { continue }
            work.pop();
            let p = unsafe { self.build(x, e) };
            unsafe { Z3_inc_ref(self.c, p) }
            self.memo[e as usize] = p;
        }
        self.get(root)
    }
    /// Keeps a term which is not the result of `build` alive.
    unsafe fn keep(&self, p: P) -> P { Z3_inc_ref(self.c, p); p }
    unsafe fn bit(&self, v: u64) -> P { let s = self.keep(Z3_mk_bv_sort(self.c, 1)); self.keep(Z3_mk_unsigned_int64(self.c, v, s)) }
    /// bit-vector view of an already lowered node (width-1 nodes are lowered as Bool)
    unsafe fn bv(&self, x: &Ctx, e: Eid) -> P {
        let p = self.get(e);
        if x.w(e) == 1 {
            self.keep(Z3_mk_ite(self.c, p, self.bit(1), self.bit(0)))
        } else { p }
    }
    unsafe fn build(&mut self, x: &Ctx, e: Eid) -> P {
        let c = self.c;
        let n = x.n(e);
        let w = n.w as u32;
        if w == 1 {
            let a = self.get(n.a);
            let b = self.get(n.b);
            let aw = if matches!(n.op, Op::Const | Op::Var) { 1 } else { x.w(n.a) };
            return match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    let p = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.keep(Z3_mk_bool_sort(c)));
                    Z3_inc_ref(c, p);
                    self.vars.push((n.k as u32, p));
                    p
                }
                Op::And | Op::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, a, b),
                Op::Not => Z3_mk_not(c, a),
                Op::Ite => Z3_mk_ite(c, a, b, self.get(n.c)),
                Op::Eq => Z3_mk_eq(c, a, b),
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Extract => {
                    debug_assert!(aw > 1);
                    let p = self.keep(Z3_mk_extract(c, n.k as u32, n.k as u32, a));
                    Z3_mk_eq(c, p, self.bit(1))
                }
                _ => { // shifts/divisions of one-bit values
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    let p = self.keep(match n.op {
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        o => panic!("w1 {:?}", o),
                    });
                    Z3_mk_eq(c, p, self.bit(1))
                }
            };
        }
        match n.op {
            Op::Const => {
                let s = self.keep(Z3_mk_bv_sort(c, w));
                if n.k <= u64::MAX as u128 { Z3_mk_unsigned_int64(c, n.k as u64, s) }
                else { let t = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) }
            }
            Op::Var => {
                let s = CString::new(format!("v{}", n.k)).unwrap();
                let p = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.keep(Z3_mk_bv_sort(c, w)));
                Z3_inc_ref(c, p);
                self.vars.push((n.k as u32, p));
                p
            }
            Op::Ite => Z3_mk_ite(c, self.get(n.a), self.get(n.b), self.get(n.c)),
            Op::Not => Z3_mk_bvnot(c, self.get(n.a)),
            Op::ZExt => Z3_mk_zero_ext(c, w - x.w(n.a), self.bv(x, n.a)),
            Op::SExt => Z3_mk_sign_ext(c, w - x.w(n.a), self.bv(x, n.a)),
            Op::Extract => Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, self.get(n.a)),
            Op::Concat => Z3_mk_concat(c, self.bv(x, n.a), self.bv(x, n.b)),
            _ => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    o => panic!("lower {:?}", o),
                }
            }
        }
    }

    /// Is `pc` together with `q` satisfiable?
    pub fn check(&mut self, x: &Ctx, pc: &[Eid], q: Eid) -> Res {
        let t = Instant::now();
        self.queries += 1;
        unsafe {
            let mut k = 0;
            while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] { k += 1 }
            let drop = self.stack.len() - k;
            if drop > 0 {
                Z3_solver_pop(self.c, self.s, drop as u32);
                self.stack.truncate(k);
            }
            for &e in &pc[k..] {
                let p = self.lower(x, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, p);
                self.stack.push(e);
            }
            let p = self.lower(x, q);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, p);
            let mut r = Z3_solver_check(self.c, self.s);
            let mut fresh: Option<P> = None;
            if r == 0 {
                // the incremental solver gave up: the whole question at once, with preprocessing
                let n = CString::new("qfbv").unwrap();
                let t = Z3_mk_tactic(self.c, n.as_ptr());
                Z3_tactic_inc_ref(self.c, t);
                let s = Z3_mk_solver_from_tactic(self.c, t);
                Z3_solver_inc_ref(self.c, s);
                let pr = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, pr);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.c, pr, Z3_mk_string_symbol(self.c, k.as_ptr()), 60_000);
                Z3_solver_set_params(self.c, s, pr);
                for &e in pc { let p = self.lower(x, e); Z3_solver_assert(self.c, s, p) }
                Z3_solver_assert(self.c, s, p);
                r = Z3_solver_check(self.c, s);
                fresh = Some(s);
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, fresh.unwrap_or(self.s));
                    Z3_model_inc_ref(self.c, m);
                    let mut vals = vec![0u64; x.vars.len()];
                    for &(i, p) in &self.vars {
                        let v = Z3_model_get_const_interp(self.c, m, Z3_get_app_decl(self.c, p));
                        if v.is_null() { continue }
                        vals[i as usize] = if x.vars[i as usize].1 == 1 {
                            (Z3_get_bool_value(self.c, v) == 1) as u64
                        } else {
                            let mut o = 0u64;
                            Z3_get_numeral_uint64(self.c, v, &mut o);
                            o
                        };
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(vals)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some(s) = fresh { Z3_solver_dec_ref(self.c, s) }
            Z3_solver_pop(self.c, self.s, 1);
            if let Some(w) = &self.trace { eprintln!("Q {} {:.1}ms {} :: {}", r, t.elapsed().as_secs_f64()*1e3, w, x.show(q, 6)) }
            if self.slow && t.elapsed().as_secs_f64() > 1.0 { eprintln!("slow query {:.1} s ({}): {}", t.elapsed().as_secs_f64(), r, x.show(q, 14)) }
            self.time += t.elapsed().as_secs_f64();
            out
        }
    }
}
