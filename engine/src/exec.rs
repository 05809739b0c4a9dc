//! Symbolic execution of the parsed module.
use crate::expr::{mask, sext, Ctx, Eid, Op};
use crate::mem::{Mem, STACK_HI};
use crate::parse::{BOp, Callee, CastOp, Edge, In, Module, Opd, Pred, Ty, Val, I};
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use Val::{A, C, E};

#[derive(Clone)]
pub enum Input { Int(Rc<str>, Eid, u32), Bytes(Rc<str>, Rc<Vec<Eid>>), Choice(Rc<str>, u64) }

#[derive(Clone)]
pub struct Frame { f: u32, b: u32, ip: u32, regs: Vec<Val>, sp: u64, ret: u32, catch: bool }

#[derive(Clone, Default)]
pub struct Thread { frames: Vec<Frame>, sp: u64, done: bool }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    bump: u64,
    free: Vec<Vec<u64>>,
    th: Thread,
    cur: usize,
    others: Vec<Thread>, // slot `cur` is a placeholder
    pc: Vec<Eid>,
    known: Rc<HashMap<Eid, bool>>,
    kval: Rc<HashMap<Eid, u64>>,
    both: Rc<HashSet<Eid>>,
    cands: Rc<HashMap<Eid, Rc<Vec<u64>>>>,
    det: u64,
    ivs: Rc<Vec<(u32, i64, i64)>>, // bounds of variables (signed)
    model: Rc<Vec<u64>>,
    mid: usize,
    pub inputs: Vec<Input>,
    pub observes: Vec<(Rc<str>, Rc<Vec<Val>>)>,
    choices: Rc<Vec<(String, u64)>>,
    stdin: Rc<Vec<Val>>,
    stdin_pos: usize,
    stdout: Rc<Vec<u8>>,
    files: Rc<Vec<(Vec<u8>, u8)>>,
    errno_addr: u64,
    last_panic: Rc<str>,
    steps: u64,
    forced: bool, // re-executing after a concretisation fork
}

pub struct Limits { pub max_steps: u64, pub deadline: f64, pub max_paths: u64, pub procs: i32, pub max_viol: u64, pub witnesses: u64, pub after: f64 }

#[repr(C)]
pub struct Shared { pub active: std::sync::atomic::AtomicI32, pub stop: std::sync::atomic::AtomicI32, pub paths: std::sync::atomic::AtomicU64, pub viols: std::sync::atomic::AtomicU64, /* milliseconds from the start to the first violation */ pub first: std::sync::atomic::AtomicU64 }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub steps: u64, pub forks: u64, pub concs: u64,
    pub checks: BTreeMap<String, (u64, u64)>, // label -> evaluated, decided by solver
    pub covers: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub viols: u64, pub states: u64, pub infeasible: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Int, Bytes, Assume, Check, Cover, Choose, Pick, Decide, Catch, Spawn, Yield, Alive, Observe, End, Log, Args, Stdin, File, Maybe, Panicked, Stdout, Gap, Exit,
    Malloc, Calloc, Realloc, Free, Memalign, Bcmp, Memcmp, Strlen, Write, Read, Stat, Syscall, Getenv, Errno, Abort, Ret0, RetM1, Getcwd, Getrandom, Sysconf, ClockGettime, Memcpy,
    Panic, Fail,
}

/// How one instruction ended.
enum Stop { Path, Child }
type R<T> = Result<T, Stop>;

pub struct Engine {
    pub m: Rc<Module>,
    pub x: Ctx,
    pub s: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub lim: Limits,
    pub shared: *mut Shared,
    pub visited: Vec<bool>,
    bi: Vec<Option<B>>,
    next_mid: usize,
    pub out: String,
    pub children: Vec<i32>,
    pub t0: std::time::Instant,
    pub is_root: bool,
    pub verbose: bool,
    pub trace: bool,
    nwit: u64,
    ngap: u64,
    since: u64,
    nviol: u64,
    labels_viol: HashSet<String>,
    pub entry: String,
}

fn builtin(n: &str, defined: bool) -> Option<B> {
    Some(match n {
        "sym_int" => B::Int, "sym_bytes" => B::Bytes, "sym_assume" => B::Assume, "sym_check" => B::Check, "sym_cover" => B::Cover,
        "sym_choose" => B::Choose, "sym_pick" => B::Pick, "sym_decide" => B::Decide, "sym_catch" => B::Catch, "sym_spawn" => B::Spawn,
        "sym_yield" => B::Yield, "sym_alive" => B::Alive, "sym_observe" => B::Observe, "sym_end" => B::End, "sym_log" => B::Log,
        "sym_args" => B::Args, "sym_stdin" => B::Stdin, "sym_file" => B::File, "sym_maybe" => B::Maybe, "sym_panicked" => B::Panicked, "sym_stdout" => B::Stdout, "sym_gap" => B::Gap,
        "malloc" => B::Malloc, "calloc" => B::Calloc, "realloc" => B::Realloc, "free" => B::Free, "posix_memalign" | "aligned_alloc" => B::Memalign,
        "bcmp" => B::Bcmp, "memcmp" => B::Memcmp, "strlen" => B::Strlen, "memcpy" | "memmove" => B::Memcpy,
        "write" => B::Write, "read" => B::Read, "stat64" | "lstat64" => B::Stat, "syscall" => B::Syscall, "getenv" => B::Getenv,
        "__errno_location" => B::Errno, "abort" => B::Abort, "exit" | "_exit" => B::Exit, "getcwd" => B::Getcwd, "getrandom" => B::Getrandom,
        "sysconf" => B::Sysconf, "clock_gettime" => B::ClockGettime,
        "__cxa_thread_atexit_impl" | "sched_yield" | "munmap" | "close" | "sigaction" | "sigaltstack" | "pthread_key_create" | "pthread_setspecific" | "signal" | "fflush" => B::Ret0,
        "isatty" | "ioctl" | "gettid" => B::Ret0,
        "open64" | "fstat64" | "readlink" | "mmap64" | "poll" | "writev" | "nanosleep" => B::RetM1,
        _ => {
            if n.contains("9panicking") && n.contains("4core") && (n.contains("panic") ) && !n.contains("Location") {
                return Some(B::Panic);
            }
            if n.contains("9panicking") && (n.contains("11begin_panic") || n.contains("15begin_panic_handler") || n.contains("20rust_panic_with_hook") || n.contains("10rust_panic")) { return Some(B::Panic) }
            if n.contains("18handle_alloc_error") || n.contains("13unwrap_failed") || n.contains("13expect_failed") || n.contains("17capacity_overflow") || n.contains("16slice_index_fail") || n.contains("slice_error_fail") { return Some(B::Panic) }
            if !defined { return Some(B::Fail) }
            return None;
        }
    })
}

impl Engine {
    pub fn new(m: Rc<Module>, x: Ctx, lim: Limits, shared: *mut Shared, out: String) -> Self {
        let bi = m.funcs.iter().map(|f| if f.name.starts_with("llvm.") { None } else { builtin(&f.name, f.defined) }).collect();
        let visited = vec![false; m.nblocks as usize];
        Engine { m, x, s: Solver::new(10_000_000), work: vec![], st: Stats::default(), lim, shared, visited, bi, next_mid: 1, out, children: vec![],
            t0: std::time::Instant::now(), is_root: true, verbose: false, trace: std::env::var("SYMX_TRACE").is_ok(), nwit: 0, ngap: 0, since: 0, nviol: 0, labels_viol: HashSet::new(), entry: String::new() }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for (a, d) in &self.m.data { mem.write_bytes(*a, d, true).unwrap(); if d.is_empty() { mem.fill(*a, 1, 0, 0, true).unwrap() } }
        // make sure that globals without an initialiser are mapped too
        for (_, a) in &self.m.globals { if mem.page(*a).is_none() { mem.fill(*a, 1, 0, 0, true).unwrap() } }
        let errno_addr = 0x1000;
        mem.fill(errno_addr, 64, 0, 0, true).unwrap();
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| { eprintln!("symx: no entry point {}", entry); std::process::exit(2) });
        let nregs = self.m.funcs[f as usize].nregs as usize;
        let fr = Frame { f, b: 0, ip: 0, regs: vec![C(0); nregs], sp: STACK_HI - 64, ret: u32::MAX, catch: false };
        State {
            mem, bump: 0x2000_0000, free: vec![vec![]; 40], th: Thread { frames: vec![fr], sp: STACK_HI - 64, done: false }, cur: 0, others: vec![Thread::default()],
            pc: vec![], known: Default::default(), kval: Default::default(), both: Default::default(), cands: Default::default(), det: 0, ivs: Default::default(),
            model: Rc::new(vec![]), mid: 0, inputs: vec![], observes: vec![], choices: Default::default(), stdin: Default::default(), stdin_pos: 0,
            stdout: Default::default(), files: Default::default(), errno_addr, last_panic: "".into(), steps: 0, forced: false,
        }
    }

    // ------------------------------------------------------------ values
    fn ev(&mut self, st: &State, e: Eid) -> u128 { self.x.eval(e, &st.model, st.mid) }
    #[inline]
    fn mk(&mut self, st: &State, e: Eid) -> Val {
        let n = self.x.nodes[e as usize];
        if n.w > 64 { return E(e) }
        if n.op == Op::Const { return C(n.k as u64) }
        if self.x.sup[e as usize] & !st.det == 0 { return C(self.ev(st, e) as u64) }
        if n.w == 1 { if let Some(&b) = st.known.get(&e) { return C(b as u64) } }
        if let Some(&v) = st.kval.get(&e) { return C(v) }
        E(e)
    }
    #[inline]
    fn eid(&mut self, v: &Val, w: u32) -> Eid {
        match v { C(c) => self.x.cst(*c as u128, w), E(e) => { debug_assert_eq!(self.x.w(*e), w); *e } A(_) => panic!("aggregate as scalar") }
    }

    // ------------------------------------------------------------ path conditions
    fn new_model(&mut self, v: Vec<u64>) -> (Rc<Vec<u64>>, usize) { self.next_mid += 1; (Rc::new(v), self.next_mid) }

    // ------------------------------------------------------------ intervals
    /// Bounds of `e` as a signed number.
    fn iv(&self, st: &State, e: Eid, d: u32) -> Option<(i128, i128)> {
        let w = self.x.w(e);
        if w > 64 || w == 1 { return None }
        self.iv0(st, e, d).or(Some((-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)))
    }
    fn iv0(&self, st: &State, e: Eid, d: u32) -> Option<(i128, i128)> {
        let n = self.x.n(e);
        let w = n.w as u32;
        if d == 0 { return None }
        let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let fit = |l: i128, h: i128| if l >= smin && h <= smax { Some((l, h)) } else { None };
        match n.op {
            Op::Const => { let v = sext(n.k, w); Some((v as i128, v as i128)) }
            Op::Var => Some(st.ivs.iter().find(|v| v.0 == n.k as u32).map_or((smin, smax), |v| (v.1 as i128, v.2 as i128))),
            Op::Add => { let (a, b) = (self.iv(st, n.a, d - 1)?, self.iv(st, n.b, d - 1)?); fit(a.0 + b.0, a.1 + b.1) }
            Op::Sub => { let (a, b) = (self.iv(st, n.a, d - 1)?, self.iv(st, n.b, d - 1)?); fit(a.0 - b.1, a.1 - b.0) }
            Op::Mul => { let (a, k) = (self.iv(st, n.a, d - 1)?, sext(self.x.cval(n.b)?, w) as i128); if a.0.abs().max(a.1.abs()) > 1i128 << 62 || k.abs() > 1i128 << 62 { return None } if k >= 0 { fit(a.0 * k, a.1 * k) } else { fit(a.1 * k, a.0 * k) } }
            Op::SExt => self.iv(st, n.a, d - 1),
            Op::ZExt => { if self.x.w(n.a) == 1 { return Some((0, 1)) } let a = self.iv(st, n.a, d - 1)?; if a.0 >= 0 { Some(a) } else { Some((0, mask(self.x.w(n.a)) as i128)) } }
            Op::Extract if n.k == 0 => { let a = self.iv(st, n.a, d - 1)?; fit(a.0, a.1) }
            Op::Concat => { let k = self.x.w(n.b); let a = self.iv(st, n.a, d - 1)?; Some((a.0 << k, (a.1 << k) + if self.x.cval(n.b) == Some(0) { 0 } else { (1i128 << k) - 1 })) }
            Op::AShr => { let k = self.x.cval(n.b)?; if k >= w as u128 { return None } let a = self.iv(st, n.a, d - 1)?; Some((a.0 >> k, a.1 >> k)) }
            Op::And => { let k = self.x.cval(n.b)?; if k as i128 > smax { return None } let a = self.iv(st, n.a, d - 1); match a { Some(a) if a.0 >= 0 => Some((0, a.1.min(k as i128))), _ => Some((0, k as i128)) } }
            Op::SDiv => { let k = sext(self.x.cval(n.b)?, w) as i128; if k <= 0 { return None } let a = self.iv(st, n.a, d - 1)?; Some((a.0 / k, a.1 / k)) }
            Op::UDiv => { let k = self.x.cval(n.b)? as i128; if k <= 0 || k > smax { return None } let a = self.iv(st, n.a, d - 1); match a { Some(a) if a.0 >= 0 => Some((a.0 / k, a.1 / k)), _ => fit(0, mask(w) as i128 / k) } }
            Op::URem => { let k = self.x.cval(n.b)? as i128; if k <= 0 || k > smax { return None } let a = self.iv(st, n.a, d - 1); match a { Some(a) if a.0 >= 0 => Some((0, a.1.min(k - 1))), _ => Some((0, k - 1)) } }
            Op::LShr => { let k = self.x.cval(n.b)?; if k == 0 || k >= w as u128 { return None } let a = self.iv(st, n.a, d - 1); match a { Some(a) if a.0 >= 0 => Some((a.0 >> k, a.1 >> k)), _ => Some((0, mask(w) as i128 >> k)) } }
            Op::Shl => { let k = self.x.cval(n.b)?; if k >= w as u128 { return None } let a = self.iv(st, n.a, d - 1)?; fit(a.0 << k, a.1 << k) }
            Op::Ite => {
                match self.ivc(st, n.a, d - 1) {
                    Some(true) => self.iv(st, n.b, d - 1),
                    Some(false) => self.iv(st, n.c, d - 1),
                    None => { let (a, b) = (self.iv(st, n.b, d - 1)?, self.iv(st, n.c, d - 1)?); Some((a.0.min(b.0), a.1.max(b.1))) }
                }
            }
            _ => None,
        }
    }
    /// Truth of a condition, as far as intervals tell.
    fn ivc(&self, st: &State, c: Eid, d: u32) -> Option<bool> {
        let n = self.x.n(c);
        if d == 0 { return None }
        if let Some(&b) = st.known.get(&c) { return Some(b) }
        match n.op {
            Op::Const => Some(n.k == 1),
            Op::Not => self.ivc(st, n.a, d - 1).map(|b| !b),
            Op::And => match (self.ivc(st, n.a, d - 1), self.ivc(st, n.b, d - 1)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Op::Or => match (self.ivc(st, n.a, d - 1), self.ivc(st, n.b, d - 1)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            Op::Slt | Op::Sle | Op::Ult | Op::Ule | Op::Eq => {
                let (a, b) = (self.iv(st, n.a, d - 1)?, self.iv(st, n.b, d - 1)?);
                if matches!(n.op, Op::Ult | Op::Ule) && (a.0 < 0 || b.0 < 0) { return None }
                match n.op {
                    Op::Slt | Op::Ult => if a.1 < b.0 { Some(true) } else if a.0 >= b.1 { Some(false) } else { None },
                    Op::Sle | Op::Ule => if a.1 <= b.0 { Some(true) } else if a.0 > b.1 { Some(false) } else { None },
                    _ => if a.0 == a.1 && a == b { Some(true) } else if a.1 < b.0 || b.1 < a.0 { Some(false) } else { None },
                }
            }
            _ => None,
        }
    }
    /// `e` is known to lie within these bounds.
    fn narrow(&mut self, st: &mut State, e: Eid, lo: i128, hi: i128) {
        let n = self.x.n(e);
        let w = n.w as u32;
        if w > 64 || w == 1 { return }
        match n.op {
            Op::Var => {
                let cur = self.iv(st, e, 2).unwrap();
                let (l, h) = (lo.max(cur.0), hi.min(cur.1));
                if (l, h) == cur || l > h { return }
                let v = Rc::make_mut(&mut st.ivs);
                match v.iter_mut().find(|v| v.0 == n.k as u32) { Some(x) => { x.1 = l as i64; x.2 = h as i64 } None => v.push((n.k as u32, l as i64, h as i64)) }
                if l == h && n.k < 63 { st.det |= 1 << n.k as u64 }
            }
            Op::Add => if let Some(k) = self.x.cval(n.b) {
                let k = sext(k, w) as i128;
                if let Some(a) = self.iv(st, n.a, 12) {
                    let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    if a.0 + k >= smin && a.1 + k <= smax { self.narrow(st, n.a, lo - k, hi - k) }
                }
            },
            Op::SExt => self.narrow(st, n.a, lo, hi),
            Op::ZExt => if let Some(a) = self.iv(st, n.a, 12) { if a.0 >= 0 { self.narrow(st, n.a, lo, hi) } },
            _ => {}
        }
    }
    fn learn_iv(&mut self, st: &mut State, c: Eid, b: bool) {
        let n = self.x.n(c);
        if self.x.w(n.a) > 64 || self.x.w(n.a) == 1 { return }
        let (Some(p), Some(q)) = (self.iv(st, n.a, 12), self.iv(st, n.b, 12)) else {
            // unsigned bounds also fix the sign
            if b && matches!(n.op, Op::Ult | Op::Ule) {
                if let Some(q) = self.iv(st, n.b, 12) { if q.0 >= 0 { self.narrow(st, n.a, 0, q.1 - (n.op == Op::Ult) as i128) } }
            }
            return
        };
        match (n.op, b) {
            (Op::Eq, true) => { self.narrow(st, n.a, q.0, q.1); self.narrow(st, n.b, p.0, p.1) }
            (Op::Eq, false) => {
                if q.0 == q.1 { if p.0 == q.0 { self.narrow(st, n.a, p.0 + 1, p.1) } else if p.1 == q.0 { self.narrow(st, n.a, p.0, p.1 - 1) } }
            }
            (Op::Slt, true) => { self.narrow(st, n.a, i128::MIN / 2, q.1 - 1); self.narrow(st, n.b, p.0 + 1, i128::MAX / 2) }
            (Op::Slt, false) => { self.narrow(st, n.a, q.0, i128::MAX / 2); self.narrow(st, n.b, i128::MIN / 2, p.1) }
            (Op::Sle, true) => { self.narrow(st, n.a, i128::MIN / 2, q.1); self.narrow(st, n.b, p.0, i128::MAX / 2) }
            (Op::Sle, false) => { self.narrow(st, n.a, q.0 + 1, i128::MAX / 2); self.narrow(st, n.b, i128::MIN / 2, p.1 - 1) }
            (Op::Ult, true) => if q.0 >= 0 { self.narrow(st, n.a, 0, q.1 - 1) },
            (Op::Ule, true) => if q.0 >= 0 { self.narrow(st, n.a, 0, q.1) },
            (Op::Ult, false) => if q.0 >= 0 && p.0 >= 0 { self.narrow(st, n.a, q.0, i128::MAX / 2) },
            (Op::Ule, false) => if q.0 >= 0 && p.0 >= 0 { self.narrow(st, n.a, q.0 + 1, i128::MAX / 2) },
            _ => {}
        }
    }
    fn learn(&mut self, st: &mut State, c: Eid, b: bool) {
        if matches!(self.x.n(c).op, Op::Eq | Op::Slt | Op::Sle | Op::Ult | Op::Ule) { self.learn_iv(st, c, b) }
        Rc::make_mut(&mut st.known).insert(c, b);
        let n = self.x.n(c);
        match n.op {
            Op::And if b && n.w == 1 => { self.learn(st, n.a, true); self.learn(st, n.b, true) }
            Op::Or if !b && n.w == 1 => { self.learn(st, n.a, false); self.learn(st, n.b, false) }
            Op::Not if n.w == 1 => self.learn(st, n.a, !b),
            Op::Eq if b => {
                if let Some(k) = self.x.cval(n.b) {
                    let w = self.x.w(n.a);
                    if w <= 64 {
                        Rc::make_mut(&mut st.kval).insert(n.a, k as u64);
                        let an = self.x.n(n.a);
                        if an.op == Op::Var && an.k < 63 { st.det |= 1 << an.k as u64 }
                    }
                }
            }
            Op::Var if n.w == 1 && n.k < 63 => st.det |= 1 << n.k as u64,
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let o = self.x.not(c); Rc::make_mut(&mut st.known).insert(o, !b); }
            _ => {}
        }
        if n.op == Op::Eq || n.op == Op::Or || n.op == Op::And { let o = self.x.not(c); Rc::make_mut(&mut st.known).insert(o, !b); }
    }
    /// Add `c` (true under the current model) to the path condition.
    fn add(&mut self, st: &mut State, c: Eid) {
        if self.x.cval(c).is_some() { return }
        st.pc.push(c);
        self.learn(st, c, true);
    }
    fn query(&mut self, st: &State, c: Eid) -> Res {
        match self.s.check(&self.x, &st.pc, c) {
            Res::Unknown => { *self.st.incomplete.entry("solver returned unknown".into()).or_default() += 1; Res::Unknown }
            r => r,
        }
    }
    /// Truth of `c`: the value under the current model, and a model of the other side when that is feasible.
    fn decide(&mut self, st: &mut State, c: Eid) -> (bool, Option<Vec<u64>>) {
        if let Some(k) = self.x.cval(c) { return (k == 1, None) }
        if let Some(&b) = st.known.get(&c) { return (b, None) }
        let d = self.ev(st, c) == 1;
        if self.x.sup[c as usize] & !st.det == 0 { return (d, None) }
        if let Some(b) = self.ivc(st, c, 12) { debug_assert!(b == d); self.learn(st, c, d); return (d, None) }
        let other = if d { self.x.not(c) } else { c };
        match self.query(st, other) {
            Res::Sat(m) => (d, Some(m)),
            _ => { self.learn(st, c, d); (d, None) }
        }
    }

    fn pause(&mut self, st: &mut State) -> R<()> {
        // hand a pending state to a new process when there is room
        let sh = unsafe { &*self.shared };
        use std::sync::atomic::Ordering::SeqCst;
        let first = sh.first.load(SeqCst);
        if first != 0 && self.t0.elapsed().as_millis() as u64 > first + (self.lim.after * 1000.0) as u64 { sh.stop.store(1, SeqCst) }
        if sh.stop.load(SeqCst) != 0 { *self.st.incomplete.entry("stopped early".into()).or_default() += 1; return Err(Stop::Path) }
        if self.t0.elapsed().as_secs_f64() > self.lim.deadline {
            sh.stop.store(1, SeqCst);
            return Err(self.incomplete("time limit"));
        }
        if !self.work.is_empty() && sh.active.load(SeqCst) < self.lim.procs {
            if sh.active.fetch_add(1, SeqCst) < self.lim.procs {
                let pid = unsafe { libc_fork() };
                if pid == 0 {
                    let s = self.work.swap_remove(0);
                    self.work.clear();
                    self.work.push(s);
                    self.st = Stats::default();
                    self.s.queries = 0;
                    self.s.time = 0.0;
                    self.children.clear();
                    self.is_root = false;
                    self.nwit = 0; self.ngap = 0;
                    self.visited.iter_mut().for_each(|v| *v = false);
                    let _ = st;
                    return Err(Stop::Child);
                } else if pid > 0 {
                    self.children.push(pid);
                    self.work.remove(0);
                } else { sh.active.fetch_sub(1, SeqCst); }
            } else { sh.active.fetch_sub(1, SeqCst); }
        }
        Ok(())
    }

    /// Push a sibling state which continues at the current instruction (to be re-executed) under `c`.
    fn sibling(&mut self, st: &State, fr: &Frame, c: Eid, m: Vec<u64>) {
        let mut o = st.clone();
        o.th.frames.push(fr.clone());
        let (m, id) = self.new_model(m);
        o.model = m;
        o.mid = id;
        o.pc.push(c);
        self.learn(&mut o, c, true);
        if self.split(st, c) { self.settle(&mut o, c) }
        self.st.forks += 1;
        self.work.push(o);
    }

    /// The concrete value of `v` on this path; other values continue in sibling states.
    fn conc(&mut self, st: &mut State, fr: &Frame, v: &Val, w: u32) -> R<u64> {
        let e = match v { C(c) => return Ok(*c), E(e) => *e, A(_) => panic!("conc of aggregate") };
        if let Val::C(c) = self.mk(st, e) { return Ok(c) }
        let k = self.ev(st, e);
        let kc = self.x.cst(k, w);
        let eq = self.x.eq(e, kc);
        let ne = self.x.not(eq);
        if let Some((l, h)) = self.iv(st, e, 12) { if l == h && w > 1 { self.learn(st, eq, true); if w <= 64 { Rc::make_mut(&mut st.kval).insert(e, k as u64); } return Ok(k as u64) } }
        if w == 1 { if let Some(b) = self.ivc(st, e, 12) { self.learn(st, e, b); return Ok(b as u64) } }
        self.st.concs += 1;
        match self.query(st, ne) {
            Res::Sat(m) => {
                self.sibling(st, fr, ne, m);
                self.add(st, eq);
                if w <= 64 { Rc::make_mut(&mut st.kval).insert(e, k as u64); }
                self.settle(st, e);
                self.pause(st)?;
            }
            _ => { self.learn(st, eq, true); if w <= 64 { Rc::make_mut(&mut st.kval).insert(e, k as u64); } self.settle(st, e); }
        }
        Ok(k as u64)
    }
    /// After `e` was fixed: are the variables it depends on fixed as well?
    fn settle(&mut self, st: &mut State, e: Eid) {
        let mut vs = vec![];
        let mut seen = HashSet::new();
        let mut wk = vec![e];
        while let Some(e) = wk.pop() {
            if !seen.insert(e) || seen.len() > 200 { if seen.len() > 200 { return } continue }
            let n = self.x.n(e);
            match n.op {
                Op::Const => {}
                Op::Var => vs.push((e, n.k)),
                Op::Not | Op::ZExt | Op::SExt | Op::Extract => wk.push(n.a),
                Op::Ite => { wk.push(n.a); wk.push(n.b); wk.push(n.c) }
                _ => { wk.push(n.a); wk.push(n.b) }
            }
        }
        if vs.len() > 3 { return }
        for (v, k) in vs {
            if k >= 63 || st.det >> (k as u64) & 1 == 1 { continue }
            let c = self.ev(st, v);
            let w = self.x.w(v);
            let kc = self.x.cst(c, w);
            let eq = self.x.eq(v, kc);
            let ne = self.x.not(eq);
            if let Some((l, h)) = self.iv(st, v, 2) {
                if l == h { self.learn(st, eq, true); st.det |= 1 << k as u64; continue }
            }
            if let Res::Unsat = self.s.check(&self.x, &st.pc, ne) { self.learn(st, eq, true); st.det |= 1 << k as u64; }
        }
    }

    // ------------------------------------------------------------ memory
    fn crash(&mut self, st: &mut State, fr: &Frame, what: &str) -> Stop {
        let f = self.m.funcs[fr.f as usize].name.clone();
        let l = format!("crash: {} in {}", what, f);
        self.violation(st, &l, None);
        Stop::Path
    }
    fn load_s(&mut self, st: &mut State, fr: &Frame, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        if n <= 8 {
            match st.mem.read(a, n) {
                Ok(Some(v)) => return Ok(C(if w < 64 { v & ((1u64 << w) - 1) } else { v })),
                Ok(None) => {}
                Err(()) => return Err(self.crash(st, fr, &format!("invalid read at {:#x}", a))),
            }
        }
        let mut r: Option<Eid> = None;
        for i in (0..n).rev() {
            let (b, s) = match st.mem.byte(a + i) { Some(x) => x, None => return Err(self.crash(st, fr, &format!("invalid read at {:#x}", a + i))) };
            let e = if s != 0 { s } else { self.x.cst(b as u128, 8) };
            r = Some(match r { None => e, Some(h) => self.x.concat(h, e) });
        }
        let mut e = r.unwrap();
        if w % 8 != 0 { e = self.x.extract(e, 0, w) }
        Ok(self.mk(st, e))
    }
    fn load(&mut self, st: &mut State, fr: &Frame, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => self.load_s(st, fr, a, *w),
            Ty::Ptr | Ty::F64 => self.load_s(st, fr, a, 64),
            Ty::F32 => self.load_s(st, fr, a, 32),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let b = self.load_s(st, fr, a, n * e.bits())?;
                self.bitcast(st, fr, &b, &Ty::Int(n * e.bits()), t)
            }
            Ty::Vec(n, e) => { let s = e.size(); let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load(st, fr, a + i * s, e)?) } Ok(A(v.into())) }
            Ty::Arr(n, e) => { let s = e.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load(st, fr, a + i * s, e)?) } Ok(A(v.into())) }
            Ty::St(_, f) => { let mut v = vec![]; for i in 0..f.len() { v.push(self.load(st, fr, a + t.field_off(i as u64), &f[i])?) } Ok(A(v.into())) }
            _ => panic!("load {:?}", t),
        }
    }
    fn store_s(&mut self, st: &mut State, fr: &Frame, a: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let r = match v {
            C(c) if n <= 8 => st.mem.write(a, n, *c),
            _ => {
                let mut e = self.eid(v, w);
                if w % 8 != 0 { e = self.x.zext(e, n as u32 * 8) }
                let mut r = Ok(());
                for i in 0..n {
                    let b = self.x.extract(e, 8 * i as u32, 8);
                    let x = match self.x.cval(b) { Some(k) => st.mem.set(a + i, k as u8, 0), None => st.mem.set(a + i, 0, b) };
                    if x.is_err() { r = x; break }
                }
                r
            }
        };
        r.map_err(|_| self.crash(st, fr, &format!("invalid write at {:#x}", a)))
    }
    fn store(&mut self, st: &mut State, fr: &Frame, a: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Int(w), _) => self.store_s(st, fr, a, *w, v),
            (Ty::Ptr, _) | (Ty::F64, _) => self.store_s(st, fr, a, 64, v),
            (Ty::F32, _) => self.store_s(st, fr, a, 32, v),
            (Ty::Vec(n, e), _) if e.bits() % 8 != 0 => {
                let b = self.bitcast(st, fr, v, t, &Ty::Int(n * e.bits()))?;
                self.store_s(st, fr, a, n * e.bits(), &b)
            }
            (Ty::Vec(_, e), A(x)) | (Ty::Arr(_, e), A(x)) => { let s = e.size(); for (i, k) in x.iter().enumerate() { self.store(st, fr, a + i as u64 * s, e, k)? } Ok(()) }
            (Ty::St(_, f), A(x)) => { for i in 0..f.len() { self.store(st, fr, a + t.field_off(i as u64), &f[i], &x[i])? } Ok(()) }
            _ => panic!("store {:?} {:?}", t, v),
        }
    }
    /// All feasible values of an address, if there are at most `max`.
    fn addrs(&mut self, st: &mut State, e: Eid, max: usize) -> Option<Rc<Vec<u64>>> {
        let mut v = vec![];
        let mut pc = st.pc.clone();
        let mut k = self.ev(st, e) as u64;
        let w = self.x.w(e);
        loop {
            v.push(k);
            if v.len() > max { return None }
            let kc = self.x.cst(k as u128, w);
            let eq = self.x.eq(e, kc);
            let ne = self.x.not(eq);
            pc.push(ne);
            let t = self.x.tru();
            match self.s.check(&self.x, &pc, t) {
                Res::Sat(m) => { self.next_mid += 1; let id = self.next_mid; k = self.x.eval(e, &m, id) as u64; }
                Res::Unsat => break,
                Res::Unknown => return None,
            }
        }
        v.sort();
        Some(Rc::new(v))
    }
    /// All addresses that `e` may stand for by its bounds (some may be infeasible).
    fn span(&mut self, st: &mut State, e: Eid, size: u64) -> Option<Rc<Vec<u64>>> {
        let (l, h) = self.iv(st, e, 12)?;
        if l <= 0 || h < l || h - l > 4096 || !st.mem.mapped(l as u64, (h - l) as u64 + size) { return None }
        Some(Rc::new((l as u64..=h as u64).collect()))
    }
    /// The places that an access at `e` may mean; nothing if they are too many.
    fn places(&mut self, st: &mut State, e: Eid, size: u64, store: bool) -> Option<Rc<Vec<u64>>> {
        if let Some(c) = st.cands.get(&e) { return if c.is_empty() { None } else { Some(c.clone()) } }
        let wide = if size == 1 || (size == 2 && !store) { self.span(st, e, size).filter(|s| s.len() > 64) } else { None };
        if self.trace { eprintln!("PLACES {} {:?} {}", size, self.iv(st, e, 12), self.x.show(e, 6)) }
        let r = if wide.as_ref().map_or(false, |s| s.len() <= 256) { wide } else { match self.addrs(st, e, if wide.is_some() { 8 } else { 64 }) { Some(v) => Some(v), None => wide } };
        Rc::make_mut(&mut st.cands).insert(e, r.clone().unwrap_or_default());
        r
    }
    /// Does `e` depend on nothing but variables that are split on rather than merged?
    #[inline]
    fn split(&self, st: &State, e: Eid) -> bool { let s = self.x.sup[e as usize] & !st.det; s & !self.x.ext == 0 }
    fn ite_val(&mut self, st: &State, c: Eid, a: &Val, b: &Val, t: &Ty) -> Val {
        match (t, a, b) {
            (Ty::Vec(_, e), A(x), A(y)) | (Ty::Arr(_, e), A(x), A(y)) => A(x.iter().zip(y.iter()).map(|(p, q)| self.ite_val(st, c, p, q, e)).collect::<Vec<_>>().into()),
            (Ty::St(_, f), A(x), A(y)) => A((0..f.len()).map(|i| self.ite_val(st, c, &x[i], &y[i], &f[i])).collect::<Vec<_>>().into()),
            _ => {
                if let (C(p), C(q)) = (a, b) { if p == q { return C(*p) } }
                let w = t.bits();
                let p = self.eid(a, w);
                let q = self.eid(b, w);
                let e = self.x.ite(c, p, q);
                self.mk(st, e)
            }
        }
    }

    // ------------------------------------------------------------ operators
    fn bitcast(&mut self, st: &State, _fr: &Frame, v: &Val, from: &Ty, to: &Ty) -> R<Val> {
        if from.bits() != to.bits() { panic!("bitcast {:?} {:?}", from, to) }
        // to one integer
        let tot = from.bits();
        let whole: Val = match (from, v) {
            (Ty::Vec(_, e), A(x)) => {
                let ew = e.bits();
                if tot <= 64 && x.iter().all(|k| matches!(k, C(_))) {
                    let mut r = 0u64;
                    for (i, k) in x.iter().enumerate() { if let C(c) = k { r |= c << (ew * i as u32) } }
                    C(r)
                } else {
                    let mut r: Option<Eid> = None;
                    for k in x.iter().rev() { let e = self.eid(k, ew); r = Some(match r { None => e, Some(h) => self.x.concat(h, e) }) }
                    E(r.unwrap())
                }
            }
            _ => v.clone(),
        };
        Ok(match to {
            Ty::Vec(n, e) => {
                let ew = e.bits();
                let mut o = vec![];
                for i in 0..*n {
                    o.push(match &whole {
                        C(c) => C((c >> (ew * i)) & mask(ew) as u64),
                        E(x) => { let y = self.x.extract(*x, ew * i, ew); self.mk(st, y) }
                        _ => panic!(),
                    });
                }
                A(o.into())
            }
            _ => match whole { E(e) => self.mk(st, e), v => v },
        })
    }
    #[inline]
    fn bin_c(o: BOp, w: u32, a: u64, b: u64) -> Option<u64> {
        let m = mask(w) as u64;
        Some(match o {
            BOp::Add => a.wrapping_add(b) & m,
            BOp::Sub => a.wrapping_sub(b) & m,
            BOp::Mul => a.wrapping_mul(b) & m,
            BOp::And => a & b,
            BOp::Or => a | b,
            BOp::Xor => a ^ b,
            BOp::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
            BOp::LShr => if b >= w as u64 { 0 } else { a >> b },
            BOp::AShr => { let s = b.min(w as u64 - 1) as u32; ((sext(a as u128, w) >> s) as u64) & m }
            BOp::UDiv => if b == 0 { return None } else { a / b },
            BOp::URem => if b == 0 { return None } else { a % b },
            BOp::SDiv => if b == 0 { return None } else { (sext(a as u128, w).wrapping_div(sext(b as u128, w)) as u64) & m },
            BOp::SRem => if b == 0 { return None } else { (sext(a as u128, w).wrapping_rem(sext(b as u128, w)) as u64) & m },
        })
    }
    fn xop(o: BOp) -> Op {
        match o { BOp::Add => Op::Add, BOp::Sub => Op::Sub, BOp::Mul => Op::Mul, BOp::UDiv => Op::UDiv, BOp::SDiv => Op::SDiv, BOp::URem => Op::URem, BOp::SRem => Op::SRem,
            BOp::And => Op::And, BOp::Or => Op::Or, BOp::Xor => Op::Xor, BOp::Shl => Op::Shl, BOp::LShr => Op::LShr, BOp::AShr => Op::AShr }
    }
    fn bin(&mut self, st: &State, o: BOp, w: u32, a: &Val, b: &Val) -> Val {
        if w <= 64 { if let (C(p), C(q)) = (a, b) { if let Some(v) = Self::bin_c(o, w, *p, *q) { return C(v) } } }
        let p = self.eid(a, w);
        let q = self.eid(b, w);
        let e = self.x.bin(Self::xop(o), p, q);
        self.mk(st, e)
    }
    #[inline]
    fn cmp_c(p: Pred, w: u32, a: u64, b: u64) -> bool {
        let sh = 64 - w;
        let (x, y) = (((a << sh) as i64) >> sh, ((b << sh) as i64) >> sh);
        match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b,
            Pred::Slt => x < y, Pred::Sle => x <= y, Pred::Sgt => x > y, Pred::Sge => x >= y }
    }
    fn cmp_e(&mut self, p: Pred, a: Eid, b: Eid) -> Eid {
        match p {
            Pred::Eq => self.x.eq(a, b),
            Pred::Ne => { let e = self.x.eq(a, b); self.x.not(e) }
            Pred::Ult => self.x.bin(Op::Ult, a, b),
            Pred::Ule => self.x.bin(Op::Ule, a, b),
            Pred::Ugt => self.x.bin(Op::Ult, b, a),
            Pred::Uge => self.x.bin(Op::Ule, b, a),
            Pred::Slt => self.x.bin(Op::Slt, a, b),
            Pred::Sle => self.x.bin(Op::Sle, a, b),
            Pred::Sgt => self.x.bin(Op::Slt, b, a),
            Pred::Sge => self.x.bin(Op::Sle, b, a),
        }
    }
    fn cmp(&mut self, st: &State, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if w <= 64 { if let (C(x), C(y)) = (a, b) { return C(Self::cmp_c(p, w, *x, *y) as u64) } }
        let x = self.eid(a, w);
        let y = self.eid(b, w);
        let e = self.cmp_e(p, x, y);
        self.mk(st, e)
    }
    fn cast(&mut self, st: &State, k: CastOp, fw: u32, tw: u32, v: &Val) -> Val {
        if let C(c) = v {
            match k {
                CastOp::Trunc => return C(c & mask(tw) as u64),
                CastOp::ZExt if tw <= 64 => return C(*c),
                CastOp::SExt if tw <= 64 => return C(sext(*c as u128, fw) as u64 & mask(tw) as u64),
                _ => {}
            }
        }
        let e = self.eid(v, fw);
        let r = match k { CastOp::Trunc => self.x.extract(e, 0, tw), CastOp::ZExt => self.x.zext(e, tw), CastOp::SExt => self.x.sext(e, tw) };
        self.mk(st, r)
    }
    /// Select without forking unless the values are pointers.
    fn select(&mut self, st: &mut State, fr: &Frame, c: &Val, a: &Val, b: &Val, t: &Ty) -> R<Val> {
        let e = match c { C(1) => return Ok(a.clone()), C(_) => return Ok(b.clone()), E(e) => *e, A(_) => panic!() };
        if self.split(st, e) { let k = self.conc(st, fr, c, 1)?; return Ok(if k == 1 { a.clone() } else { b.clone() }) }
        if !st.both.contains(&e) {
            match self.decide(st, e) {
                (true, None) => return Ok(a.clone()),
                (false, None) => return Ok(b.clone()),
                _ => { Rc::make_mut(&mut st.both).insert(e); }
            }
        }
        if *t == Ty::Ptr || matches!(t, Ty::F32 | Ty::F64) {
            if let (C(p), C(q)) = (a, b) { if p == q { return Ok(C(*p)) } }
            let k = self.conc(st, fr, c, 1)?;
            return Ok(if k == 1 { a.clone() } else { b.clone() });
        }
        Ok(self.ite_val(st, e, a, b, t))
    }

    // ------------------------------------------------------------ reports
    fn inputs_text(&mut self, st: &State, model: &[u64]) -> String {
        self.next_mid += 1;
        let id = self.next_mid;
        let mut o = String::new();
        for i in &st.inputs {
            match i {
                Input::Int(n, e, w) => { let v = self.x.eval(*e, model, id); o.push_str(&format!("I {} {} {}\n", n, w, v)) }
                Input::Bytes(n, v) => {
                    o.push_str(&format!("B {} ", n));
                    for e in v.iter() { o.push_str(&format!("{:02x}", self.x.eval(*e, model, id))) }
                    o.push('\n');
                }
                Input::Choice(n, v) => o.push_str(&format!("C {} {}\n", n, v)),
            }
        }
        o
    }
    fn violation(&mut self, st: &State, label: &str, model: Option<&[u64]>) {
        use std::sync::atomic::Ordering::SeqCst;
        self.st.viols += 1;
        let sh = unsafe { &*self.shared };
        let _ = sh.first.compare_exchange(0, 1 + self.t0.elapsed().as_millis() as u64, SeqCst, SeqCst);
        if !self.labels_viol.insert(label.to_string()) && self.nviol > 0 { 
            if sh.viols.fetch_add(1, SeqCst) >= 200 { sh.stop.store(1, SeqCst) }
            return 
        }
        let m = match model { Some(m) => m.to_vec(), None => (*st.model).clone() };
        let t = self.inputs_text(st, &m);
        let f = format!("{}/viol.{}.{}.txt", self.out, std::process::id(), self.nviol);
        self.nviol += 1;
        std::fs::write(&f, format!("E {}\nL {}\n{}", self.entry, label, t)).unwrap();
        if self.verbose { eprintln!("violation: {}\n{}", label, t) }
        if sh.viols.fetch_add(1, SeqCst) + 1 >= self.lim.max_viol { sh.stop.store(1, SeqCst) }
    }
    fn finish(&mut self, st: &State) {
        use std::sync::atomic::Ordering::SeqCst;
        self.st.paths += 1;
        let sh = unsafe { &*self.shared };
        let n = sh.paths.fetch_add(1, SeqCst) + 1;
        if n >= self.lim.max_paths { *self.st.incomplete.entry("path limit".into()).or_default() += 1; sh.stop.store(1, SeqCst) }
        // sampled witnesses: the first paths of each process, then ever more rarely
        if self.nwit < self.lim.witnesses && (self.st.paths & (self.st.paths - 1)) == 0 {
            let model = st.model.clone();
            let mut t = self.inputs_text(st, &model);
            for (l, v) in &st.observes {
                t.push_str(&format!("O {} ", l));
                for b in v.iter() {
                    let c = match b { C(c) => *c as u8, E(e) => self.x.eval(*e, &model, st.mid) as u8, _ => 0 };
                    t.push_str(&format!("{:02x}", c));
                }
                t.push('\n');
            }
            let f = format!("{}/wit.{}.{}.txt", self.out, std::process::id(), self.nwit);
            self.nwit += 1;
            std::fs::write(&f, format!("E {}\n{}", self.entry, t)).unwrap();
        }
    }
    fn incomplete(&mut self, why: &str) -> Stop {
        if self.verbose && !self.st.incomplete.contains_key(why) { eprintln!("incomplete: {}", why) }
        *self.st.incomplete.entry(why.to_string()).or_default() += 1;
        Stop::Path
    }

    // ------------------------------------------------------------ running
    pub fn run_all(&mut self) {
        use std::sync::atomic::Ordering::SeqCst;
        while let Some(s) = self.work.pop() {
            let sh = unsafe { &*self.shared };
            if sh.stop.load(SeqCst) != 0 {
                *self.st.incomplete.entry("stopped early".into()).or_default() += 1;
                self.work.clear();
                break;
            }
            match self.run(s) { Err(Stop::Child) | Err(Stop::Path) | Ok(()) => {} }
        }
    }

    fn run(&mut self, mut st: State) -> R<()> {
        let m = self.m.clone();
        self.st.states += 1;
        loop {
            // the running frame is held outside of the state
            let mut fr = match st.th.frames.pop() { Some(f) => f, None => return Ok(()) };
            let r = self.exec(&m, &mut st, &mut fr);
            match r {
                Ok(true) => st.th.frames.push(fr),  // frame is suspended (call or switch of thread); new frame already handled
                Ok(false) => {}
                Err(Stop::Child) => return Err(Stop::Child),
                Err(Stop::Path) => return Ok(()),
            }
        }
    }
    /// Adds up the steps, and looks at the limits now and then.
    #[inline]
    fn count(&mut self, st: &mut State, n: &mut u64) -> R<()> {
        st.steps += *n;
        self.st.steps += *n;
        self.since += *n;
        *n = 0;
        if self.since > 0xffff { self.since = 0; self.watch(st) } else { Ok(()) }
    }
    fn watch(&mut self, st: &mut State) -> R<()> {
        if st.steps > self.lim.max_steps {
            // the replay decides whether it would have ended
            self.violation(st, "the program does not end", None);
            return Err(self.incomplete("step limit"))
        }
        self.pause(st)
    }
    fn push_call(&mut self, m: &Module, st: &mut State, fr: &mut Frame, f: u32, args: Vec<Val>, dst: u32, catch: bool) {
        let fun = &m.funcs[f as usize];
        let mut regs = vec![C(0); fun.nregs as usize];
        for (i, (r, _)) in fun.params.iter().enumerate() { if let Some(v) = args.get(i) { regs[*r as usize] = v.clone() } }
        let n = Frame { f, b: 0, ip: 0, regs, sp: st.th.sp, ret: dst, catch };
        let caller = std::mem::replace(fr, n);
        st.th.frames.push(caller);
        if st.th.frames.len() > 4000 { *self.st.incomplete.entry("call depth".into()).or_default() += 1; }
    }

    #[inline]
    fn get(fr: &Frame, o: &Opd) -> Val { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    #[inline]
    fn gref<'a>(fr: &'a Frame, o: &'a Opd) -> &'a Val { match o { Opd::R(r) => &fr.regs[*r as usize], Opd::K(v) => v } }
    fn jump(&mut self, m: &Module, fr: &mut Frame, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = Self::get(fr, &e.moves[0].1); fr.regs[e.moves[0].0 as usize] = v }
            _ => {
                let v: smallv::V = e.moves.iter().map(|(_, o)| Self::get(fr, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(v) { fr.regs[*d as usize] = v }
            }
        }
        fr.b = e.to;
        fr.ip = 0;
        self.visited[(m.funcs[fr.f as usize].base_block + e.to) as usize] = true;
    }

    /// Run until the frame stack changes in a way that needs the outer loop.
    /// Ok(true): push `fr` back; Ok(false): `fr` is finished.
    fn exec(&mut self, m: &Module, st: &mut State, fr: &mut Frame) -> R<bool> {
        if self.s.slow && self.trace { self.s.trace = Some(m.funcs[fr.f as usize].name.clone()) }
        let mut n: u64 = 0;
        'frame: loop {
            let fun = &m.funcs[fr.f as usize];
            if fr.ip == 0 && fr.b == 0 { self.visited[fun.base_block as usize] = true }
            loop {
                let blk = &fun.blocks[fr.b as usize];
                n += 1;
                if n & 0x3fff == 0 { self.count(st, &mut n)? }
                let ins = &blk.ins[fr.ip as usize];
                match ins {
                    I::Bin(o, w, d, a, b) => {
                        let v = match (Self::gref(fr, a), Self::gref(fr, b)) {
                            (C(x), C(y)) if *w <= 64 => match Self::bin_c(*o, *w, *x, *y) { Some(v) => C(v), None => return Err(self.crash(st, fr, "division by zero")) },
                            (x, y) => { let (x, y) = (x.clone(), y.clone()); self.bin(st, *o, *w, &x, &y) }
                        };
                        fr.regs[*d as usize] = v;
                    }
                    I::ICmp(p, w, d, a, b) => {
                        let v = match (Self::gref(fr, a), Self::gref(fr, b)) {
                            (C(x), C(y)) => C(Self::cmp_c(*p, *w, *x, *y) as u64),
                            (x, y) => {
                                let (x, y) = (x.clone(), y.clone());
                                let v = self.cmp(st, *p, *w, &x, &y);
                                if fun.sort && matches!(v, E(_)) { C(self.conc(st, fr, &v, 1)?) } else { v }
                            }
                        };
                        fr.regs[*d as usize] = v;
                    }
                    I::Load(d, t, a) => {
                        let av = Self::get(fr, a);
                        let v = match av {
                            C(p) => self.load(st, fr, p, t)?,
                            E(e) => match self.mk(st, e) {
                                C(p) => self.load(st, fr, p, t)?,
                                _ if self.split(st, e) => { let p = self.conc(st, fr, &E(e), 64)?; self.load(st, fr, p, t)? }
                                _ => match self.places(st, e, t.size(), false) {
                                    Some(c) => {
                                        let mut r: Option<Val> = None;
                                        for &p in c.iter() {
                                            if !st.mem.mapped(p, t.size()) { r = None; break }
                                            let v = self.load(st, fr, p, t)?;
                                            r = Some(match r {
                                                None => v,
                                                Some(o) => { let k = self.x.cst(p as u128, 64); let q = self.x.eq(e, k); self.ite_val(st, q, &v, &o, t) }
                                            });
                                        }
                                        match r { Some(v) => v, None => { let p = self.conc(st, fr, &E(e), 64)?; self.load(st, fr, p, t)? } }
                                    }
                                    None => { let p = self.conc(st, fr, &E(e), 64)?; self.load(st, fr, p, t)? }
                                },
                            },
                            A(_) => panic!("load from aggregate"),
                        };
                        fr.regs[*d as usize] = v;
                    }
                    I::Store(t, v, a) => {
                        let vv = Self::get(fr, v);
                        match Self::get(fr, a) {
                            C(p) => self.store(st, fr, p, t, &vv)?,
                            E(e) => match self.mk(st, e) {
                                C(p) => self.store(st, fr, p, t, &vv)?,
                                _ if self.split(st, e) => { let p = self.conc(st, fr, &E(e), 64)?; self.store(st, fr, p, t, &vv)? }
                                _ => match self.places(st, e, t.size(), true) {
                                    Some(c) if c.iter().all(|&p| st.mem.mapped(p, t.size())) => {
                                        for &p in c.iter() {
                                            let o = self.load(st, fr, p, t)?;
                                            let k = self.x.cst(p as u128, 64);
                                            let q = self.x.eq(e, k);
                                            let n = self.ite_val(st, q, &vv, &o, t);
                                            self.store(st, fr, p, t, &n)?;
                                        }
                                    }
                                    _ => { let p = self.conc(st, fr, &E(e), 64)?; self.store(st, fr, p, t, &vv)? }
                                },
                            },
                            A(_) => panic!("store to aggregate"),
                        }
                    }
                    I::Gep(d, base, off, terms) => {
                        let b = Self::get(fr, base);
                        let v = if let C(p) = b {
                            let mut r = p.wrapping_add(*off as u64);
                            let mut sy: Option<Eid> = None;
                            for (o, w, s) in terms.iter() {
                                match Self::gref(fr, o) {
                                    C(i) => { let sh = 64 - w; r = r.wrapping_add(((((*i << sh) as i64) >> sh).wrapping_mul(*s)) as u64) }
                                    E(e) => { let e = *e; let x = self.x.sext(e, 64); let k = self.x.cst(*s as i128 as u128, 64); let y = self.x.bin(Op::Mul, x, k); sy = Some(match sy { None => y, Some(z) => self.x.bin(Op::Add, z, y) }) }
                                    A(_) => panic!(),
                                }
                            }
                            match sy { None => C(r), Some(e) => { let k = self.x.cst(r as u128, 64); let e = self.x.bin(Op::Add, e, k); self.mk(st, e) } }
                        } else if let E(mut r) = b {
                            let k = self.x.cst(*off as i128 as u128, 64);
                            r = self.x.bin(Op::Add, r, k);
                            for (o, w, s) in terms.iter() {
                                let i = Self::get(fr, o);
                                let i = self.eid(&i, *w);
                                let i = self.x.sext(i, 64);
                                let k = self.x.cst(*s as i128 as u128, 64);
                                let y = self.x.bin(Op::Mul, i, k);
                                r = self.x.bin(Op::Add, r, y);
                            }
                            self.mk(st, r)
                        } else { panic!("gep on vector") };
                        fr.regs[*d as usize] = v;
                    }
                    I::Cast(k, fw, tw, d, a) => { let v = Self::get(fr, a); let r = self.cast(st, *k, *fw, *tw, &v); fr.regs[*d as usize] = r }
                    I::Copy(d, a) => { let v = Self::get(fr, a); fr.regs[*d as usize] = v }
                    I::Br(e) => { self.jump(m, fr, e); continue }
                    I::CondBr(c, a, b) => {
                        let t = match Self::gref(fr, c) {
                            C(k) => *k == 1,
                            E(e) => {
                                let e = *e;
                                match self.decide(st, e) {
                                    (t, None) => t,
                                    (t, Some(mo)) => {
                                        let ne = self.x.not(e);
                                        let (mine, theirs) = if t { (e, ne) } else { (ne, e) };
                                        self.sibling(st, fr, theirs, mo);
                                        let sp = self.split(st, e);
                                        self.add(st, mine);
                                        if sp { self.settle(st, e) }
                                        self.count(st, &mut n)?;
                                        self.pause(st)?;
                                        t
                                    }
                                }
                            }
                            A(_) => panic!(),
                        };
                        self.jump(m, fr, if t { a } else { b });
                        continue;
                    }
                    I::Switch(w, v, def, cs) => {
                        let val = Self::get(fr, v);
                        let k = match &val {
                            C(c) => *c,
                            E(e) => match self.mk(st, *e) { C(c) => c, _ => {
                                // which edge under the current model; the others stay with a sibling
                                let e = *e;
                                let k = self.ev(st, e) as u64;
                                let kc = self.x.cst(k as u128, *w);
                                let (cond, fixed) = match cs.binary_search_by_key(&k, |c| c.0) {
                                    Ok(_) => (self.x.eq(e, kc), true),
                                    Err(_) => {
                                        let mut r = self.x.tru();
                                        for (c, _) in cs.iter() { let c = self.x.cst(*c as u128, *w); let q = self.x.eq(e, c); let q = self.x.not(q); r = self.x.bin(Op::And, r, q) }
                                        (r, false)
                                    }
                                };
                                let nc = self.x.not(cond);
                                match self.query(st, nc) {
                                    Res::Sat(mo) => { self.sibling(st, fr, nc, mo); self.add(st, cond); if fixed { self.settle(st, e) } self.pause(st)?; }
                                    _ => { self.learn(st, cond, true); if fixed { self.settle(st, e) } }
                                }
                                k
                            } },
                            A(_) => panic!(),
                        };
                        match cs.binary_search_by_key(&k, |c| c.0) { Ok(i) => self.jump(m, fr, &cs[i].1), Err(_) => self.jump(m, fr, def) }
                        continue;
                    }
                    I::Select(d, c, a, b, t) => {
                        let cv = Self::get(fr, c);
                        let v = match &cv {
                            C(1) => Self::get(fr, a),
                            C(_) => Self::get(fr, b),
                            E(_) => { let (x, y) = (Self::get(fr, a), Self::get(fr, b)); self.select(st, fr, &cv, &x, &y, t)? }
                            A(cs) => {
                                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                                let et = t.field(0);
                                match (x, y) { (A(x), A(y)) => { let mut o = vec![]; for i in 0..cs.len() { o.push(self.select(st, fr, &cs[i], &x[i], &y[i], &et)?) } A(o.into()) } _ => panic!() }
                            }
                        };
                        fr.regs[*d as usize] = v;
                    }
                    I::Alloca(d, size, al, cnt) => {
                        let c = Self::get(fr, cnt);
                        let c = self.conc(st, fr, &c, 64)?;
                        let al = (*al).max(16);
                        st.th.sp = (st.th.sp - size * c) & !(al - 1);
                        fr.regs[*d as usize] = C(st.th.sp);
                    }
                    I::Ret(v) => {
                        let val = v.as_ref().map(|o| Self::get(fr, o));
                        st.th.sp = fr.sp;
                        self.count(st, &mut n)?;
                        match st.th.frames.pop() {
                            None => { if self.thread_end(st)? { return Ok(false) } }
                            Some(mut c) => {
                                if fr.catch { if fr.ret != u32::MAX { c.regs[fr.ret as usize] = C(0) } }
                                else if fr.ret != u32::MAX { c.regs[fr.ret as usize] = val.unwrap_or(C(0)) }
                                *fr = c;
                                // invoke continues at its normal edge
                                if let I::Call(_, _, _, _, Some(e)) = &m.funcs[fr.f as usize].blocks[fr.b as usize].ins[fr.ip as usize - 1] { self.jump(m, fr, e) }
                                continue 'frame;
                            }
                        }
                    }
                    I::Call(d, callee, args, rt, inv) => {
                        let f = match callee {
                            Callee::Func(f) => *f,
                            Callee::Ind(o) => {
                                let v = Self::get(fr, o);
                                let a = self.conc(st, fr, &v, 64)?;
                                match m.by_addr.get(&a) { Some(f) => *f, None => return Err(self.crash(st, fr, &format!("call of {:#x}", a))) }
                            }
                            Callee::Intr(i) => {
                                let v = self.intrinsic(st, fr, i, args, rt)?;
                                if let (Some(d), Some(v)) = (d, v) { fr.regs[*d as usize] = v }
                                fr.ip += 1;
                                if let Some(e) = inv { self.jump(m, fr, e) }
                                continue;
                            }
                        };
                        let dst = d.unwrap_or(u32::MAX);
                        match self.bi[f as usize] {
                            None => {
                                let av: Vec<Val> = args.iter().map(|(o, _)| Self::get(fr, o)).collect();
                                fr.ip += 1;
                                self.count(st, &mut n)?;
                                self.push_call(m, st, fr, f, av, dst, false);
                                continue 'frame;
                            }
                            Some(b) => {
                                let av: Vec<Val> = args.iter().map(|(o, _)| Self::get(fr, o)).collect();
                                match self.builtin(m, st, fr, b, f, &av, dst, args)? {
                                    Bo::Val(v) => {
                                        if dst != u32::MAX { fr.regs[dst as usize] = v }
                                        fr.ip += 1;
                                        if let Some(e) = inv { self.jump(m, fr, e) }
                                        continue;
                                    }
                                    Bo::Entered => continue 'frame,
                                    Bo::Gone => return Ok(false),
                                }
                            }
                        }
                    }
                    I::ExtractValue(d, a, ix) => {
                        let mut v = Self::get(fr, a);
                        for &i in ix.iter() { v = match v { A(x) => x[i as usize].clone(), _ => panic!("extractvalue") } }
                        fr.regs[*d as usize] = v;
                    }
                    I::InsertValue(d, a, v, ix) => {
                        let x = Self::get(fr, a);
                        let v = Self::get(fr, v);
                        fn ins(x: &Val, v: Val, ix: &[u32]) -> Val {
                            if ix.is_empty() { return v }
                            match x { A(y) => { let mut y = y.to_vec(); y[ix[0] as usize] = ins(&y[ix[0] as usize], v, &ix[1..]); A(y.into()) } _ => panic!("insertvalue") }
                        }
                        fr.regs[*d as usize] = ins(&x, v, ix);
                    }
                    I::Rmw(o, w, d, a, v) => {
                        let av = Self::get(fr, a);
                        let p = self.conc(st, fr, &av, 64)?;
                        let old = self.load_s(st, fr, p, *w)?;
                        let v = Self::get(fr, v);
                        let nv = match &**o {
                            "xchg" => v,
                            "add" => self.bin(st, BOp::Add, *w, &old, &v),
                            "sub" => self.bin(st, BOp::Sub, *w, &old, &v),
                            "and" => self.bin(st, BOp::And, *w, &old, &v),
                            "or" => self.bin(st, BOp::Or, *w, &old, &v),
                            "xor" => self.bin(st, BOp::Xor, *w, &old, &v),
                            o => { let c = self.cmp(st, match o { "umax" => Pred::Ugt, "umin" => Pred::Ult, "max" => Pred::Sgt, _ => Pred::Slt }, *w, &old, &v); self.select(st, fr, &c, &old, &v, &Ty::Int(*w))? }
                        };
                        self.store_s(st, fr, p, *w, &nv)?;
                        fr.regs[*d as usize] = old;
                    }
                    I::CmpXchg(w, d, a, c, nw) => {
                        let av = Self::get(fr, a);
                        let p = self.conc(st, fr, &av, 64)?;
                        let old = self.load_s(st, fr, p, *w)?;
                        let cv = Self::get(fr, c);
                        let q = self.cmp(st, Pred::Eq, *w, &old, &cv);
                        let k = self.conc(st, fr, &q, 1)?;
                        if k == 1 { let nv = Self::get(fr, nw); self.store_s(st, fr, p, *w, &nv)? }
                        fr.regs[*d as usize] = A(vec![old, C(k)].into());
                    }
                    I::VBin(o, w, d, a, b) => {
                        let r = match (Self::get(fr, a), Self::get(fr, b)) { (A(x), A(y)) => { let v: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(st, *o, *w, p, q)).collect(); A(v.into()) } _ => panic!() };
                        fr.regs[*d as usize] = r;
                    }
                    I::VICmp(o, w, d, a, b) => {
                        let r = match (Self::get(fr, a), Self::get(fr, b)) { (A(x), A(y)) => { let v: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.cmp(st, *o, *w, p, q)).collect(); A(v.into()) } _ => panic!() };
                        fr.regs[*d as usize] = r;
                    }
                    I::VCast(k, fw, tw, d, a) => {
                        let r = match Self::get(fr, a) { A(x) => { let v: Vec<Val> = x.iter().map(|p| self.cast(st, *k, *fw, *tw, p)).collect(); A(v.into()) } _ => panic!() };
                        fr.regs[*d as usize] = r;
                    }
                    I::Bitcast(f, t, d, a) => { let v = Self::get(fr, a); let r = self.bitcast(st, fr, &v, f, t)?; fr.regs[*d as usize] = r }
                    I::ExtractElt(d, a, i) => {
                        let iv = Self::get(fr, i);
                        let i = self.conc(st, fr, &iv, 64)?;
                        let r = match Self::get(fr, a) { A(x) => x[i as usize].clone(), _ => panic!() };
                        fr.regs[*d as usize] = r;
                    }
                    I::InsertElt(d, a, v, i) => {
                        let iv = Self::get(fr, i);
                        let i = self.conc(st, fr, &iv, 64)?;
                        let v = Self::get(fr, v);
                        let r = match Self::get(fr, a) { A(x) => { let mut x = x.to_vec(); x[i as usize] = v; A(x.into()) } _ => panic!() };
                        fr.regs[*d as usize] = r;
                    }
                    I::Shuffle(d, a, b, mk) => {
                        let r = match (Self::get(fr, a), Self::get(fr, b)) {
                            (A(x), A(y)) => { let v: Vec<Val> = mk.iter().map(|&i| { let i = i as usize; if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() } }).collect(); A(v.into()) }
                            _ => panic!(),
                        };
                        fr.regs[*d as usize] = r;
                    }
                    I::FBin(o, t, d, a, b) => {
                        let w = t.bits();
                        if w == 0 || matches!(t, Ty::Vec(..)) { return Err(self.incomplete("vector floating point")) }
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let x = self.conc(st, fr, &x, w)?;
                        let y = self.conc(st, fr, &y, w)?;
                        let r = if w == 64 {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            (match &**o { "fadd" => p + q, "fsub" => p - q, "fmul" => p * q, "fdiv" => p / q, "fneg" => -p, _ => p % q }).to_bits()
                        } else {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match &**o { "fadd" => p + q, "fsub" => p - q, "fmul" => p * q, "fdiv" => p / q, "fneg" => -p, _ => p % q }).to_bits() as u64
                        };
                        fr.regs[*d as usize] = C(r);
                    }
                    I::FCmp(o, t, d, a, b) => {
                        let w = t.bits();
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let x = self.conc(st, fr, &x, w)?;
                        let y = self.conc(st, fr, &y, w)?;
                        let (p, q) = if w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                        let un = p.is_nan() || q.is_nan();
                        let r = match &**o {
                            "oeq" => p == q, "ogt" => p > q, "oge" => p >= q, "olt" => p < q, "ole" => p <= q, "one" => !un && p != q, "ord" => !un,
                            "ueq" => un || p == q, "ugt" => un || p > q, "uge" => un || p >= q, "ult" => un || p < q, "ule" => un || p <= q, "une" => p != q, "uno" => un,
                            "true" => true, _ => false,
                        };
                        fr.regs[*d as usize] = C(r as u64);
                    }
                    I::FCast(o, ft, tt, d, a) => {
                        let v = Self::get(fr, a);
                        let fw = ft.bits();
                        let x = self.conc(st, fr, &v, fw)?;
                        let is64 = *tt == Ty::F64;
                        let r = match &**o {
                            "uitofp" => if is64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 },
                            "sitofp" => { let s = sext(x as u128, fw) as i64; if is64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } }
                            "fpext" => (f32::from_bits(x as u32) as f64).to_bits(),
                            "fptrunc" => (f64::from_bits(x) as f32).to_bits() as u64,
                            "fptoui" => (if fw == 64 { f64::from_bits(x) as u64 } else { f32::from_bits(x as u32) as u64 }) & mask(tt.bits()) as u64,
                            _ => (if fw == 64 { f64::from_bits(x) as i64 } else { f32::from_bits(x as u32) as i64 }) as u64 & mask(tt.bits()) as u64,
                        };
                        fr.regs[*d as usize] = C(r);
                    }
                    I::Unreachable => return Err(self.crash(st, fr, "unreachable")),
                }
                fr.ip += 1;
            }
        }
    }

    /// The base frame of the current thread returned. True: another thread goes on; path ends otherwise.
    fn thread_end(&mut self, st: &mut State) -> R<bool> {
        if st.cur == 0 { self.finish(st); return Err(Stop::Path) }
        st.th.done = true;
        self.switch(st);
        Ok(true)
    }
    /// Round robin to the next thread which is not finished. The current frame must have been saved.
    fn switch(&mut self, st: &mut State) {
        let n = st.others.len();
        for k in 1..=n {
            let t = (st.cur + k) % n;
            if t == st.cur { break }
            if !st.others[t].done {
                let new = std::mem::take(&mut st.others[t]);
                let old = std::mem::replace(&mut st.th, new);
                st.others[st.cur] = old;
                st.cur = t;
                return;
            }
        }
    }

    fn unwind(&mut self, m: &Module, st: &mut State, fr: &mut Frame) -> R<Bo> {
        // the running frame itself may be the catching one
        let mut f = fr.clone();
        loop {
            if f.catch {
                st.th.sp = f.sp;
                let mut c = st.th.frames.pop().unwrap();
                if f.ret != u32::MAX { c.regs[f.ret as usize] = C(1) }
                *fr = c;
                if let I::Call(_, _, _, _, Some(e)) = &m.funcs[fr.f as usize].blocks[fr.b as usize].ins[fr.ip as usize - 1] { self.jump(m, fr, e) }
                return Ok(Bo::Entered);
            }
            match st.th.frames.pop() {
                Some(n) => f = n,
                None => {
                    if st.cur == 0 {
                        let l = format!("uncaught panic: {}", st.last_panic);
                        self.violation(st, &l, None);
                        return Err(Stop::Path);
                    }
                    st.th.done = true;
                    self.switch(st);
                    return Ok(Bo::Gone);
                }
            }
        }
    }

    fn alloc(&mut self, st: &mut State, n: u64, al: u64, zero: bool) -> u64 {
        if n > 0x4000_0000 { return 0 }
        let sz = (n.max(1) + 15) / 16 * 16;
        let al = al.max(16);
        // a header of 16 bytes before the block keeps its size class
        let cl = if sz <= 256 { None } else { Some(64 - (sz - 1).leading_zeros()) };
        let cap = match cl { None => sz, Some(c) => 1u64 << c };
        let key = match cl { None => (sz / 16) as usize, Some(c) => 17 + c as usize - 8 };
        if st.free.len() <= key { st.free.resize(key + 1, vec![]) }
        let p = if al == 16 { st.free[key].pop() } else { None };
        let p = match p {
            Some(p) => p,
            None => {
                let p = (st.bump + 16 + al - 1) / al * al;
                st.bump = p + cap;
                if st.bump > 0xA000_0000 { *self.st.incomplete.entry("heap exhausted".into()).or_default() += 1; return 0 }
                st.mem.fill(p - 16, 16, 0, 0, true).unwrap();
                st.mem.write(p - 16, 8, key as u64).unwrap();
                p
            }
        };
        st.mem.write(p - 8, 8, n).unwrap();
        st.mem.fill(p, sz, if zero { 0 } else { 0xA5 }, 0, true).unwrap();
        p
    }
    fn bytes_of(&mut self, st: &State, a: u64, n: u64) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n { let (b, s) = st.mem.byte(a + i)?; v.push(if s != 0 { self.ev(st, s) as u8 } else { b }) }
        Some(v)
    }
    fn str_of(&mut self, st: &State, a: &Val, n: &Val) -> String {
        match (a, n) { (C(a), C(n)) => String::from_utf8_lossy(&self.bytes_of(st, *a, *n).unwrap_or_default()).into_owned(), _ => "?".into() }
    }
    fn val_bytes(&mut self, st: &State, a: u64, n: u64) -> Option<Vec<Val>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n { let (b, s) = st.mem.byte(a + i)?; v.push(if s != 0 { E(s) } else { C(b as u64) }) }
        Some(v)
    }
    fn fresh(&mut self, st: &mut State, name: &str, w: u32) -> Eid {
        // The same position on different paths shares its variable: keyed by name and occurrence.
        let e = self.x.var(name, w);
        let need = self.x.vars.len();
        if st.model.len() < need { Rc::make_mut(&mut st.model).resize(need, 0) }
        e
    }
    /// A location argument, if the last pointer argument looks like one.
    fn location(&mut self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let C(p) = a {
                if *p < crate::parse::GLOBAL_BASE || *p >= 0x2000_0000 { continue }
                let f = |o: u64, n: u64| st.mem.read(p + o, n).ok().flatten();
                if let (Some(s), Some(l), Some(line)) = (f(0, 8), f(8, 8), f(16, 4)) {
                    if s >= crate::parse::GLOBAL_BASE && s < 0x2000_0000 && l > 0 && l < 300 {
                        if let Some(b) = self.bytes_of(st, s, l) {
                            let t = String::from_utf8_lossy(&b).into_owned();
                            if t.ends_with(".rs") { return format!("{}:{}", t, line) }
                        }
                    }
                }
            }
        }
        "?".into()
    }

    fn builtin(&mut self, m: &Module, st: &mut State, fr: &mut Frame, b: B, f: u32, a: &[Val], dst: u32, args: &[(Opd, Ty)]) -> R<Bo> {
        let w = |i: usize| args.get(i).map_or(64, |x| x.1.bits());
        macro_rules! cc { ($i:expr) => {{ let v = a[$i].clone(); self.conc(st, fr, &v, w($i))? }} }
        Ok(Bo::Val(match b {
            B::Int => { // (name, len, width) -> u64
                let n = self.str_of(st, &a[0], &a[1]);
                let wd = cc!(2) as u32 & 0xff;
                let e = self.named_var(st, &n, wd);
                if cc!(2) & 0x100 != 0 { let s = self.x.sup[e as usize]; if s >> 63 == 0 { self.x.ext |= s } }
                st.inputs.push(Input::Int(n.as_str().into(), e, wd));
                let z = self.x.zext(e, 64);
                self.mk(st, z)
            }
            B::Bytes => { // (name, len, ptr, n)
                let n = self.str_of(st, &a[0], &a[1]);
                let p = cc!(2);
                let k = cc!(3);
                let mut v = vec![];
                for i in 0..k {
                    let e = self.named_var(st, &format!("{}.{}", n, i), 8);
                    v.push(e);
                    if st.mem.set(p + i, 0, e).is_err() { return Err(self.crash(st, fr, "sym_bytes")) }
                }
                st.inputs.push(Input::Bytes(n.as_str().into(), Rc::new(v)));
                C(0)
            }
            B::Assume => {
                match &a[0] {
                    C(c) => if *c & 1 == 0 { self.st.infeasible += 1; return Err(Stop::Path) },
                    E(e) => {
                        let c = self.x.extract(*e, 0, 1);
                        if let Some(&k) = st.known.get(&c) { if !k { return Err(Stop::Path) } }
                        else if self.ev(st, c) == 1 { self.add(st, c) }
                        else {
                            match self.query(st, c) {
                                Res::Sat(mo) => { let (mo, id) = self.new_model(mo); st.model = mo; st.mid = id; self.add(st, c) }
                                _ => { self.st.infeasible += 1; return Err(Stop::Path) }
                            }
                        }
                    }
                    _ => panic!(),
                }
                C(0)
            }
            B::Check => { // (cond, msg, len)
                let l = self.str_of(st, &a[1], &a[2]);
                let ent = self.st.checks.entry(l.clone()).or_default();
                ent.0 += 1;
                match &a[0] {
                    C(c) => if *c & 1 == 0 { self.violation(st, &l, None); return Err(Stop::Path) },
                    E(e) => {
                        let c = self.x.extract(*e, 0, 1);
                        let nc = self.x.not(c);
                        let known = st.known.get(&c).copied();
                        if known == Some(true) { return Ok(Bo::Val(C(0))) }
                        ent.1 += 1;
                        if self.ev(st, c) == 0 { self.violation(st, &l, None) }
                        else { match self.query(st, nc) { Res::Sat(mo) => self.violation(st, &l, Some(&mo)), _ => {} } }
                        // continue where the check holds
                        if self.ev(st, c) == 1 { self.add(st, c) }
                        else { match self.query(st, c) { Res::Sat(mo) => { let (mo, id) = self.new_model(mo); st.model = mo; st.mid = id; self.add(st, c) } _ => return Err(Stop::Path) } }
                    }
                    _ => panic!(),
                }
                C(0)
            }
            B::Cover => { let l = self.str_of(st, &a[0], &a[1]); *self.st.covers.entry(l).or_default() += 1; C(0) }
            B::Choose => { // (name, len, n)
                let n = self.str_of(st, &a[0], &a[1]);
                let k = cc!(2);
                if k == 0 { return Err(Stop::Path) }
                // siblings enter the instruction again with the choice already made
                let forced = Rc::make_mut(&mut st.choices).pop();
                let v = match forced {
                    Some((_, v)) => v,
                    None => {
                        for v in (1..k).rev() {
                            let mut o = st.clone();
                            Rc::make_mut(&mut o.choices).push((n.clone(), v));
                            o.th.frames.push(fr.clone());
                            self.st.forks += 1;
                            self.work.push(o);
                        }
                        // this state must also be marked, since `pause` may not run it again
                        0
                    }
                };
                st.inputs.push(Input::Choice(n.as_str().into(), v));
                if v == 0 { self.pause(st)?; }
                C(v)
            }
            B::Pick => { let v = a[0].clone(); C(self.conc(st, fr, &v, 64)?) }
            B::Decide => {
                match &a[0] { C(c) => C(c & 1), E(e) => { let c = self.x.extract(*e, 0, 1); let v = self.mk(st, c); C(self.conc(st, fr, &v, 1)?) } _ => panic!() }
            }
            B::Maybe => match &a[0] {
                C(c) => C(c & 1),
                E(e) => { let c = self.x.extract(*e, 0, 1); match self.decide(st, c) { (b, None) => C(b as u64), _ => C(2) } }
                _ => panic!(),
            },
            B::Catch => { // (fn, data)
                let fp = cc!(0);
                let f = match m.by_addr.get(&fp) { Some(f) => *f, None => return Err(self.crash(st, fr, "sym_catch")) };
                fr.ip += 1;
                self.push_call(m, st, fr, f, vec![a[1].clone()], dst, true);
                return Ok(Bo::Entered);
            }
            B::Panicked => { // copy the last panic message into (ptr, cap) -> len
                let p = cc!(0);
                let cap = cc!(1);
                let s: Vec<u8> = st.last_panic.bytes().take(cap as usize).collect();
                let _ = st.mem.write_bytes(p, &s, false);
                C(s.len() as u64)
            }
            B::Spawn => {
                let fp = cc!(0);
                let f = match m.by_addr.get(&fp) { Some(f) => *f, None => return Err(self.crash(st, fr, "sym_spawn")) };
                let fun = &m.funcs[f as usize];
                let mut regs = vec![C(0); fun.nregs as usize];
                if let Some((r, _)) = fun.params.first() { regs[*r as usize] = a[1].clone() }
                let tid = st.others.len();
                let sp = STACK_HI - 64 - tid as u64 * 0x200_0000;
                st.others.push(Thread { frames: vec![Frame { f, b: 0, ip: 0, regs, sp, ret: u32::MAX, catch: false }], sp, done: false });
                C(tid as u64)
            }
            B::Yield => {
                fr.ip += 1;
                st.th.frames.push(fr.clone());
                self.switch(st);
                return Ok(Bo::Gone);
            }
            B::Alive => { let t = cc!(0) as usize; if t == u32::MAX as usize || t as u64 == u64::MAX { C(st.others.iter().enumerate().filter(|(i, t)| *i != st.cur && !t.done).count() as u64) } else { C((t == st.cur || t < st.others.len() && !st.others[t].done) as u64) } }
            B::Observe => {
                let l = self.str_of(st, &a[0], &a[1]);
                let p = cc!(2);
                let n = cc!(3);
                let v = self.val_bytes(st, p, n).unwrap_or_default();
                st.observes.push((l.as_str().into(), Rc::new(v)));
                C(0)
            }
            B::End => { self.finish(st); return Err(Stop::Path) }
            B::Log => { let l = self.str_of(st, &a[0], &a[1]); if self.verbose { eprintln!("log: {}", l) } C(0) }
            B::Args => { // (ptr to concatenated NUL-terminated arguments, total length)
                let p = cc!(0);
                let n = cc!(1);
                let b = match self.val_bytes(st, p, n) { Some(b) => b, None => return Err(self.crash(st, fr, "sym_args")) };
                let buf = self.alloc(st, n + 1, 16, true);
                st.mem.copy(buf, p, n).unwrap();
                let mut ptrs = vec![];
                let mut s = 0;
                for (i, c) in b.iter().enumerate() { if let C(0) = c { ptrs.push(buf + s as u64); s = i + 1 } }
                let argv = self.alloc(st, 8 * (ptrs.len() as u64 + 2), 16, true);
                for (i, p) in ptrs.iter().enumerate() { st.mem.write(argv + 8 * i as u64, 8, *p).unwrap() }
                // run std's own start-up hook
                for ia in m.init_array.clone() {
                    let fp = st.mem.read(ia, 8).ok().flatten().unwrap_or(0);
                    if let Some(&f) = m.by_addr.get(&fp) {
                        if m.funcs[f as usize].name.contains("args") {
                            fr.ip += 1;
                            self.push_call(m, st, fr, f, vec![C(ptrs.len() as u64), C(argv), C(argv + 8 * (ptrs.len() as u64 + 1))], u32::MAX, false);
                            return Ok(Bo::Entered);
                        }
                    }
                }
                return Err(self.incomplete("no argument start-up hook"));
            }
            B::Stdin => { let p = cc!(0); let n = cc!(1); let v = self.val_bytes(st, p, n).unwrap_or_default(); st.stdin = Rc::new(v); st.stdin_pos = 0; C(0) }
            B::Stdout => { // copy captured output to (ptr, cap) -> length
                let p = cc!(0); let cap = cc!(1);
                let s: Vec<u8> = st.stdout.iter().copied().take(cap as usize).collect();
                let _ = st.mem.write_bytes(p, &s, false);
                C(st.stdout.len() as u64)
            }
            B::File => { let p = cc!(0); let n = cc!(1); let k = cc!(2); let s = self.bytes_of(st, p, n).unwrap_or_default(); Rc::make_mut(&mut st.files).push((s, k as u8)); C(0) }

            B::Malloc => { let n = cc!(0); C(self.alloc(st, n, 16, false)) }
            B::Calloc => { let x = cc!(0); let y = cc!(1); C(self.alloc(st, x.saturating_mul(y), 16, true)) }
            B::Memalign => { let p = cc!(0); let al = cc!(1); let n = cc!(2); let r = self.alloc(st, n, al, false); st.mem.write(p, 8, r).map_err(|_| Stop::Path)?; C(if r == 0 { 12 } else { 0 }) }
            B::Realloc => {
                let p = cc!(0);
                let n = cc!(1);
                if p == 0 { return Ok(Bo::Val(C(self.alloc(st, n, 16, false)))) }
                let old = match st.mem.read(p - 8, 8) { Ok(Some(o)) => o, _ => return Err(self.crash(st, fr, "realloc of a bad pointer")) };
                let q = self.alloc(st, n, 16, false);
                if q != 0 {
                    st.mem.copy(q, p, old.min(n)).unwrap();
                    let key = st.mem.read(p - 16, 8).unwrap().unwrap() as usize;
                    if key < st.free.len() { st.free[key].push(p) }
                }
                C(q)
            }
            B::Free => {
                let p = cc!(0);
                if p != 0 {
                    match st.mem.read(p - 16, 8) { Ok(Some(k)) if (k as usize) < st.free.len() => { if p % 4096 != 0 || true { st.free[k as usize].push(p) } } _ => return Err(self.crash(st, fr, "free of a bad pointer")) }
                }
                C(0)
            }
            B::Memcpy => { let d = cc!(0); let s = cc!(1); let n = cc!(2); if st.mem.copy(d, s, n).is_err() { return Err(self.crash(st, fr, "invalid copy")) } C(d) }
            B::Bcmp | B::Memcmp => {
                let p = cc!(0);
                let q = cc!(1);
                let n = cc!(2);
                let (x, y) = match (self.val_bytes(st, p, n), self.val_bytes(st, q, n)) { (Some(x), Some(y)) => (x, y), _ => return Err(self.crash(st, fr, "invalid compare")) };
                let conc = x.iter().chain(y.iter()).all(|v| matches!(v, C(_)));
                if conc {
                    let mut r = 0i64;
                    for (i, j) in x.iter().zip(y.iter()) { if let (C(i), C(j)) = (i, j) { if i != j { r = if i < j { -1 } else { 1 }; break } } }
                    C(r as u64 & 0xffff_ffff)
                } else if b == B::Bcmp {
                    let mut c = self.x.tru();
                    for (i, j) in x.iter().zip(y.iter()) { let i = self.eid(i, 8); let j = self.eid(j, 8); let e = self.x.eq(i, j); c = self.x.bin(Op::And, c, e) }
                    let (z, o) = (self.x.cst(0, 32), self.x.cst(1, 32));
                    let e = self.x.ite(c, z, o);
                    self.mk(st, e)
                } else {
                    let mut r = self.x.cst(0, 32);
                    let (mi, pl) = (self.x.cst(0xffff_ffff, 32), self.x.cst(1, 32));
                    for (i, j) in x.iter().zip(y.iter()).rev() {
                        let i = self.eid(i, 8); let j = self.eid(j, 8);
                        let lt = self.x.bin(Op::Ult, i, j);
                        let gt = self.x.bin(Op::Ult, j, i);
                        let t = self.x.ite(gt, pl, r);
                        r = self.x.ite(lt, mi, t);
                    }
                    self.mk(st, r)
                }
            }
            B::Strlen => {
                let p = cc!(0);
                let mut n = 0;
                loop {
                    let (b, s) = match st.mem.byte(p + n) { Some(x) => x, None => return Err(self.crash(st, fr, "strlen")) };
                    if s != 0 {
                        let z = self.x.cst(0, 8);
                        let e = self.x.eq(s, z);
                        let v = self.mk(st, e);
                        if self.conc(st, fr, &v, 1)? == 1 { break }
                    } else if b == 0 { break }
                    n += 1;
                }
                C(n)
            }
            B::Write => {
                let fd = cc!(0);
                let p = cc!(1);
                let n = cc!(2);
                let b = self.bytes_of(st, p, n).unwrap_or_default();
                if fd == 1 || fd == 2 { Rc::make_mut(&mut st.stdout).extend_from_slice(&b) }
                C(n)
            }
            B::Read => {
                let p = cc!(1);
                let n = cc!(2);
                let mut k = 0;
                // one line at a time, as a terminal would give it
                while k < n && st.stdin_pos < st.stdin.len() {
                    let v = st.stdin[st.stdin_pos].clone();
                    self.store_s(st, fr, p + k, 8, &v)?;
                    st.stdin_pos += 1;
                    k += 1;
                }
                C(k)
            }
            B::Stat => {
                let p = cc!(0);
                let o = cc!(1);
                let mut s = vec![];
                let mut i = 0;
                while let Some((b, y)) = st.mem.byte(p + i) { let b = if y != 0 { self.ev(st, y) as u8 } else { b }; if b == 0 { break } s.push(b); i += 1 }
                let kind = st.files.iter().find(|(n, _)| *n == s).map(|x| x.1);
                match kind {
                    Some(k) => {
                        let _ = st.mem.fill(o, 144, 0, 0, false);
                        let _ = st.mem.write(o + 24, 4, if k == 1 { 0o100644 } else { 0o040755 });
                        C(0)
                    }
                    None => { let _ = st.mem.write(st.errno_addr, 4, 2); C(0xffff_ffff) }
                }
            }
            B::Syscall if matches!(a.first(), Some(C(318))) => { let p = cc!(1); let n = cc!(2); let _ = st.mem.fill(p, n, 7, 0, false); C(n) }
            B::Syscall => { let _ = st.mem.write(st.errno_addr, 4, 38); C(u64::MAX) }
            B::Getenv | B::Getcwd => C(0),
            B::Errno => C(st.errno_addr),
            B::Ret0 => C(0),
            B::RetM1 => { let _ = st.mem.write(st.errno_addr, 4, 2); C(mask(w(usize::MAX).min(64)) as u64) }
            B::Getrandom => { let p = cc!(0); let n = cc!(1); let _ = st.mem.fill(p, n, 7, 0, false); C(n) }
            B::Sysconf => C(4096),
            B::ClockGettime => { let p = cc!(1); let _ = st.mem.write(p, 8, 1000); let _ = st.mem.write(p + 8, 8, 0); C(0) }
            B::Gap => {
                let l = self.str_of(st, &a[0], &a[1]);
                // what the models do not cover is still run on the real program, with the inputs that led here
                if self.ngap < 4 {
                    let t = self.inputs_text(st, &st.model.clone());
                    std::fs::write(format!("{}/gap.{}.{}.txt", self.out, std::process::id(), self.ngap), format!("E {}\n{}", self.entry, t)).unwrap();
                    self.ngap += 1;
                }
                return Err(self.incomplete(&format!("outside the model: {}", l)))
            }
            B::Exit => {
                let c = cc!(0);
                st.last_panic = format!("exit {}", c as u32 as i32).as_str().into();
                return self.unwind(m, st, fr);
            }
            B::Abort => { return Err(self.crash(st, fr, "abort")) }
            B::Panic => {
                let loc = self.location(st, a);
                let n = m.funcs[f as usize].name.clone();
                // when the panic is inlined std code in our own frames, name the caller
                let caller = m.funcs[fr.f as usize].name.clone();
                st.last_panic = format!("{} [{} in {}]", loc, short(&n), short(&caller)).as_str().into();
                return self.unwind(m, st, fr);
            }
            B::Fail => {
                let n = m.funcs[f as usize].name.clone();
                return Err(self.incomplete(&format!("unsupported external function {}", n)));
            }
        }))
    }

    /// Variables are shared by name and occurrence on the path, so that sibling paths reuse solver terms.
    fn named_var(&mut self, st: &mut State, name: &str, w: u32) -> Eid {
        let key = (name.to_string(), w, st.inputs.len());
        let e = match VARS.with(|v| v.borrow().get(&key).copied()) {
            Some(e) => e,
            None => { let e = self.fresh(st, name, w); VARS.with(|v| v.borrow_mut().insert(key, e)); e }
        };
        let need = self.x.vars.len();
        if st.model.len() < need { Rc::make_mut(&mut st.model).resize(need, 0); self.next_mid += 1; st.mid = self.next_mid; }
        e
    }

    fn intrinsic(&mut self, st: &mut State, fr: &Frame, i: &In, args: &[(Opd, Ty)], rt: &Ty) -> R<Option<Val>> {
        let a: Vec<Val> = args.iter().map(|(o, _)| Self::get(fr, o)).collect();
        let t = args.first().map(|x| x.1.clone()).unwrap_or(Ty::Void);
        if let (Ty::Vec(_, et), A(_)) = (&t, a.first().unwrap_or(&C(0))) {
            if !matches!(i, In::RedOr | In::RedAnd | In::RedAdd | In::RedUMax | In::RedUMin | In::RedMul | In::RedXor) {
                // element-wise
                let lanes: Vec<Rc<[Val]>> = a.iter().filter_map(|v| if let A(x) = v { Some(x.clone()) } else { None }).collect();
                let mut o = vec![];
                for k in 0..lanes[0].len() {
                    let mut av: Vec<Val> = lanes.iter().map(|l| l[k].clone()).collect();
                    for v in &a[lanes.len()..] { av.push(v.clone()) }
                    o.push(self.intr_scalar(st, fr, i, &av, et, &rt.field(0), args)?.unwrap_or(C(0)));
                }
                return Ok(Some(A(o.into())));
            }
        }
        self.intr_scalar(st, fr, i, &a, &t, rt, args)
    }
    fn intr_scalar(&mut self, st: &mut State, fr: &Frame, i: &In, a: &[Val], t: &Ty, rt: &Ty, args: &[(Opd, Ty)]) -> R<Option<Val>> {
        let w = t.bits();
        macro_rules! cc { ($i:expr, $w:expr) => {{ let v = a[$i].clone(); self.conc(st, fr, &v, $w)? }} }
        Ok(Some(match i {
            In::Memcpy => {
                let d = cc!(0, 64); let s = cc!(1, 64); let n = cc!(2, args[2].1.bits());
                if st.mem.copy(d, s, n).is_err() { return Err(self.crash(st, fr, &format!("invalid copy {:#x} {:#x} {}", d, s, n))) }
                return Ok(None);
            }
            In::Memset => {
                let d = cc!(0, 64); let n = cc!(2, args[2].1.bits());
                let (b, s) = match &a[1] { C(c) => (*c as u8, 0), E(e) => (0, *e), _ => panic!() };
                if st.mem.fill(d, n, b, s, false).is_err() { return Err(self.crash(st, fr, "invalid memset")) }
                return Ok(None);
            }
            In::UMax | In::UMin | In::SMax | In::SMin => {
                let p = match i { In::UMax => Pred::Ugt, In::UMin => Pred::Ult, In::SMax => Pred::Sgt, _ => Pred::Slt };
                let c = self.cmp(st, p, w, &a[0], &a[1]);
                self.select(st, fr, &c, &a[0], &a[1], t)?
            }
            In::USubSat => { let c = self.cmp(st, Pred::Ult, w, &a[0], &a[1]); let d = self.bin(st, BOp::Sub, w, &a[0], &a[1]); self.select(st, fr, &c, &C(0), &d, t)? }
            In::UAddSat => { let d = self.bin(st, BOp::Add, w, &a[0], &a[1]); let c = self.cmp(st, Pred::Ult, w, &d, &a[0]); self.select(st, fr, &c, &C(mask(w) as u64), &d, t)? }
            In::SSubSat | In::SAddSat => {
                let x = self.eid(&a[0], w); let y = self.eid(&a[1], w);
                let (x, y) = (self.x.sext(x, w + 1), self.x.sext(y, w + 1));
                let r = self.x.bin(if *i == In::SAddSat { Op::Add } else { Op::Sub }, x, y);
                let hi = self.x.cst(mask(w - 1), w + 1);
                let lo = self.x.cst(!mask(w - 1), w + 1);
                let gt = self.x.bin(Op::Slt, hi, r);
                let lt = self.x.bin(Op::Slt, r, lo);
                let q = self.x.ite(lt, lo, r);
                let q = self.x.ite(gt, hi, q);
                let q = self.x.extract(q, 0, w);
                self.mk(st, q)
            }
            In::UAddO | In::USubO | In::SAddO | In::SSubO | In::UMulO | In::SMulO => {
                let o = match i { In::UAddO | In::SAddO => BOp::Add, In::USubO | In::SSubO => BOp::Sub, _ => BOp::Mul };
                let signed = matches!(i, In::SAddO | In::SSubO | In::SMulO);
                let r = self.bin(st, o, w, &a[0], &a[1]);
                let ov = if let (C(x), C(y)) = (&a[0], &a[1]) {
                    if signed {
                        let (p, q) = (sext(*x as u128, w), sext(*y as u128, w));
                        let z = match o { BOp::Add => p + q, BOp::Sub => p - q, _ => p * q };
                        C((z != sext(z as u128 & mask(w), w)) as u64)
                    } else {
                        let (p, q) = (*x as u128, *y as u128);
                        C(match o { BOp::Add => p + q > mask(w), BOp::Sub => p < q, _ => p * q > mask(w) } as u64)
                    }
                } else {
                    let ext = if o == BOp::Mul { w } else { 1 };
                    if w + ext > 128 { return Err(self.incomplete("wide multiplication")) }
                    let x = self.eid(&a[0], w); let y = self.eid(&a[1], w);
                    let (x, y) = if signed { (self.x.sext(x, w + ext), self.x.sext(y, w + ext)) } else { (self.x.zext(x, w + ext), self.x.zext(y, w + ext)) };
                    let full = self.x.bin(Self::xop(o), x, y);
                    let tr = self.x.extract(full, 0, w);
                    let back = if signed { self.x.sext(tr, w + ext) } else { self.x.zext(tr, w + ext) };
                    let e = self.x.eq(full, back);
                    let e = self.x.not(e);
                    self.mk(st, e)
                };
                A(vec![r, ov].into())
            }
            In::Ctlz | In::Cttz | In::Ctpop | In::Bitrev => match &a[0] {
                C(c) => C(match i {
                    In::Ctlz => (c.leading_zeros() - (64 - w)) as u64,
                    In::Cttz => (c.trailing_zeros()).min(w) as u64,
                    In::Ctpop => c.count_ones() as u64,
                    _ => c.reverse_bits() >> (64 - w),
                }),
                E(e) if w <= 64 => {
                    let e = *e;
                    let mut r;
                    match i {
                        In::Ctlz => { r = self.x.cst(w as u128, w); for k in 0..w { let b = self.x.extract(e, k, 1); let v = self.x.cst((w - 1 - k) as u128, w); r = self.x.ite(b, v, r) } }
                        In::Cttz => { r = self.x.cst(w as u128, w); for k in (0..w).rev() { let b = self.x.extract(e, k, 1); let v = self.x.cst(k as u128, w); r = self.x.ite(b, v, r) } }
                        In::Ctpop => { r = self.x.cst(0, w); for k in 0..w { let b = self.x.extract(e, k, 1); let z = self.x.zext(b, w); r = self.x.bin(Op::Add, r, z) } }
                        _ => { r = self.x.extract(e, 0, 1); for k in 1..w { let b = self.x.extract(e, k, 1); r = self.x.concat(r, b) } }
                    }
                    self.mk(st, r)
                }
                _ => return Err(self.incomplete("bit counting on wide values")),
            },
            In::Bswap => match &a[0] {
                C(c) => C(c.swap_bytes() >> (64 - w)),
                E(e) => {
                    let e = *e;
                    let mut r = self.x.extract(e, 0, 8);
                    for k in 1..w / 8 { let b = self.x.extract(e, 8 * k, 8); r = self.x.concat(r, b) }
                    self.mk(st, r)
                }
                _ => panic!(),
            },
            In::Fshl | In::Fshr => {
                let s = cc!(2, w) % w as u64;
                let s = if *i == In::Fshl { s as u32 } else { (w - s as u32) % w };
                if s == 0 { return Ok(Some(if *i == In::Fshl { a[0].clone() } else { a[1].clone() })) }
                if let (C(x), C(y), true) = (&a[0], &a[1], w <= 64) {
                    return Ok(Some(C(((x << s) | (y >> (w - s))) & mask(w) as u64)));
                }
                let h = self.eid(&a[0], w); let l = self.eid(&a[1], w);
                let h = self.x.extract(h, 0, w - s);
                let l = self.x.extract(l, w - s, s);
                let e = self.x.concat(h, l);
                self.mk(st, e)
            }
            In::Abs => { let c = self.cmp(st, Pred::Slt, w, &a[0], &C(0)); let n = self.bin(st, BOp::Sub, w, &C(0), &a[0]); self.select(st, fr, &c, &n, &a[0], t)? }
            In::UCmp | In::SCmp => {
                let rw = rt.bits();
                let lt = self.cmp(st, if *i == In::UCmp { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                let gt = self.cmp(st, if *i == In::UCmp { Pred::Ugt } else { Pred::Sgt }, w, &a[0], &a[1]);
                let q = self.select(st, fr, &gt, &C(1), &C(0), rt)?;
                self.select(st, fr, &lt, &C(mask(rw) as u64), &q, rt)?
            }
            In::IsConst => C(0),
            In::Expect => a[0].clone(),
            In::LoadRel => {
                let b = cc!(0, 64); let o = cc!(1, args[1].1.bits());
                let v = self.load_s(st, fr, b.wrapping_add(o), 32)?;
                match v { C(c) => C(b.wrapping_add(c as u32 as i32 as i64 as u64)), _ => return Err(self.incomplete("symbolic relative load")) }
            }
            In::TlsAddr => a[0].clone(),
            In::Trap => return Err(self.crash(st, fr, "trap")),
            In::Nop => C(0),
            In::RedOr | In::RedAnd | In::RedAdd | In::RedUMax | In::RedUMin | In::RedMul | In::RedXor => {
                let l = match &a[0] { A(l) => l.clone(), _ => panic!() };
                let ew = t.field(0).bits();
                let mut r = l[0].clone();
                for k in &l[1..] {
                    r = match i {
                        In::RedOr => self.bin(st, BOp::Or, ew, &r, k),
                        In::RedAnd => self.bin(st, BOp::And, ew, &r, k),
                        In::RedAdd => self.bin(st, BOp::Add, ew, &r, k),
                        In::RedMul => self.bin(st, BOp::Mul, ew, &r, k),
                        In::RedXor => self.bin(st, BOp::Xor, ew, &r, k),
                        _ => { let c = self.cmp(st, if *i == In::RedUMax { Pred::Ugt } else { Pred::Ult }, ew, &r, k); self.select(st, fr, &c, &r, k, &t.field(0))? }
                    };
                }
                r
            }
            In::F(n) => {
                let mut v = vec![];
                for k in 0..a.len() { v.push(cc!(k, args[k].1.bits())) }
                let f = |b: u64| if w == 64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
                let p = f(v[0]);
                let r = if n.starts_with("fabs") { p.abs() } else if n.starts_with("floor") { p.floor() } else if n.starts_with("ceil") { p.ceil() }
                    else if n.starts_with("trunc") { p.trunc() } else if n.starts_with("roundeven") || n.starts_with("rint") || n.starts_with("nearbyint") { p.round_ties_even() }
                    else if n.starts_with("round") { p.round() } else if n.starts_with("sqrt") { p.sqrt() } else if n.starts_with("copysign") { p.copysign(f(v[1])) }
                    else if n.starts_with("minnum") { p.min(f(v[1])) } else if n.starts_with("maxnum") { p.max(f(v[1])) }
                    else if n.starts_with("fptoui.sat") {
                        let x = if w == 64 { p as u64 } else { f32::from_bits(v[0] as u32) as u64 };
                        return Ok(Some(C(x.min(mask(rt.bits()) as u64))));
                    }
                    else { return Err(self.incomplete(&format!("float intrinsic {}", n))) };
                C(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 })
            }
            In::Other(n) => return Err(self.incomplete(&format!("unsupported intrinsic {}", n))),
        }))
    }
}

enum Bo { Val(Val), Entered, Gone }

thread_local! { static VARS: std::cell::RefCell<HashMap<(String, u32, usize), Eid>> = Default::default(); }

mod smallv { pub type V = Vec<super::Val>; }

fn short(n: &str) -> String { n.to_string() }

extern "C" { #[link_name = "fork"] fn libc_fork() -> i32; }
