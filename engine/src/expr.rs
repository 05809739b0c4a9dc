//! Hash-consed bit-vector expressions with eager simplification.
use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Not, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128, // constant value, or low bit for Extract, or variable index
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Eid, std::hash::BuildHasherDefault<Fx>>,
    pub range: Vec<(u64, u64)>, // unsigned interval, meaningful for w <= 64
    pub ext: u64, // variables that are split on
    pub sup: Vec<u64>, // variables below (bit 63: any variable with a higher number)
    pub vars: Vec<(String, u16)>,
    memo: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
    memo_model: usize,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128 }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn eval_op(op: Op, w: u32, aw: u32, a: u128, b: u128, k: u128) -> u128 {
    let m = mask(w);
    (match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        SRem => { let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Not => !a,
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sext(a, w) >> s) as u128 }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        ZExt => a,
        SExt => sext(a, aw) as u128,
        Extract => a >> (k as u32),
        Concat => unreachable!(),
        _ => unreachable!(),
    }) & m
}

impl Ctx {
    pub fn new() -> Self {
        Ctx { nodes: Vec::new(), map: HashMap::default(), range: Vec::new(), sup: Vec::new(), ext: 0, vars: Vec::new(),
            memo: Vec::new(), memo_ep: Vec::new(), epoch: 1, memo_model: 0 }
    }
    #[inline] pub fn n(&self, e: Eid) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: Eid) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn cval(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Const { Some(n.k) } else { None }
    }
    fn intern(&mut self, n: Node) -> Eid {
        if let Some(&e) = self.map.get(&n) { return e }
        let r = self.calc_range(&n);
        // fully determined by range: a constant after all
        if n.op != Const && n.op != Var && n.w <= 64 && r.0 == r.1 {
            let e = self.cst(r.0 as u128, n.w as u32);
            self.map.insert(n, e);
            return e;
        }
        let e = self.nodes.len() as Eid;
        self.nodes.push(n);
        self.range.push(r);
        let sup = match n.op {
            Const => 0,
            Var => 1u64 << (n.k as u64).min(63),
            Not | ZExt | SExt | Extract => self.sup[n.a as usize],
            Ite => self.sup[n.a as usize] | self.sup[n.b as usize] | self.sup[n.c as usize],
            _ => self.sup[n.a as usize] | self.sup[n.b as usize],
        };
        self.sup.push(sup);
        self.map.insert(n, e);
        e
    }
    fn calc_range(&self, n: &Node) -> (u64, u64) {
        let w = n.w as u32;
        if w > 64 { return (0, u64::MAX) }
        let m = mask(w) as u64;
        let full = (0, m);
        let r = |e: u32| -> (u64, u64) {
            if self.w(e) > 64 { (0, u64::MAX) } else { self.range[e as usize] }
        };
        match n.op {
            Const => (n.k as u64, n.k as u64),
            Var => full,
            ZExt => r(n.a),
            Extract => {
                if self.w(n.a) <= 64 {
                    let (lo, hi) = r(n.a);
                    let (lo, hi) = (lo >> n.k as u32, hi >> n.k as u32);
                    if hi <= m { (lo, hi) } else { full }
                } else { full }
            }
            Add => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => full }
            }
            Sub => { let (a, b) = (r(n.a), r(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
            Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => full }
            }
            UDiv => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
            URem => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { if a.1 < b.0 { a } else { (0, (b.1 - 1).min(a.1)) } } else { full } }
            And => { let (a, b) = (r(n.a), r(n.b)); (0, a.1.min(b.1)) }
            Or => { let (a, b) = (r(n.a), r(n.b));
                let top = a.1 | b.1; let bits = 64 - top.leading_zeros();
                (a.0.max(b.0), if bits == 0 { 0 } else { mask(bits) as u64 }) }
            Xor => { let (a, b) = (r(n.a), r(n.b));
                let top = a.1 | b.1; let bits = 64 - top.leading_zeros();
                (0, if bits == 0 { 0 } else { mask(bits) as u64 }) }
            LShr => { let a = r(n.a); (0, a.1) }
            Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Concat => {
                let wl = self.w(n.b);
                let (a, b) = (r(n.a), r(n.b));
                ((a.0 << wl) | b.0, (a.1 << wl) | b.1)
            }
            Ult => { let (a, b) = (r(n.a), r(n.b));
                if self.w(n.a) > 64 { full } else if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full } }
            Ule => { let (a, b) = (r(n.a), r(n.b));
                if self.w(n.a) > 64 { full } else if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { full } }
            Eq => { let (a, b) = (r(n.a), r(n.b));
                if self.w(n.a) > 64 { full } else if a.1 < b.0 || b.1 < a.0 { (0, 0) } else { full } }
            Slt | Sle => {
                let aw = self.w(n.a);
                if aw > 64 { return full }
                let half = 1u64 << (aw - 1);
                let s = |r: (u64, u64)| -> (i64, i64) {
                    let sx = |v: u64| sext(v as u128, aw) as i64;
                    if r.1 < half || r.0 >= half { (sx(r.0), sx(r.1)) }
                    else { (sx(half), (half - 1) as i64) }
                };
                let (a, b) = (s(r(n.a)), s(r(n.b)));
                if n.op == Slt { if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full } }
                else { if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { full } }
            }
            SExt => {
                let aw = self.w(n.a);
                let a = r(n.a);
                if a.1 < 1u64 << (aw - 1) { a } else { full }
            }
            _ => full,
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: Eid, b: Eid, c: Eid, k: u128) -> Eid {
        self.intern(Node { op, w: w as u16, a, b, c, k })
    }
    pub fn cst(&mut self, v: u128, w: u32) -> Eid {
        let k = v & mask(w);
        self.intern(Node { op: Const, w: w as u16, a: 0, b: 0, c: 0, k })
    }
    pub fn var(&mut self, name: &str, w: u32) -> Eid {
        let i = self.vars.len();
        self.vars.push((name.to_string(), w as u16));
        self.mk(Var, w, 0, 0, 0, i as u128)
    }
    pub fn tru(&mut self) -> Eid { self.cst(1, 1) }
    pub fn fls(&mut self) -> Eid { self.cst(0, 1) }

    pub fn not(&mut self, a: Eid) -> Eid {
        let n = self.n(a);
        let w = n.w as u32;
        match n.op {
            Const => self.cst(!n.k, w),
            Not => n.a,
            Ult if w == 1 => self.mk(Ule, 1, n.b, n.a, 0, 0),
            Ule if w == 1 => self.mk(Ult, 1, n.b, n.a, 0, 0),
            Slt if w == 1 => self.mk(Sle, 1, n.b, n.a, 0, 0),
            Sle if w == 1 => self.mk(Slt, 1, n.b, n.a, 0, 0),
            _ => self.mk(Not, w, a, 0, 0, 0),
        }
    }
    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let n = self.n(a);
        if n.w as u32 == w { return a }
        match n.op {
            Const => self.cst(n.k, w),
            ZExt => self.zext(n.a, w),
            // sums and multiples of constants that do not wrap are the same in any width
            Add | Mul if n.w > 8 && n.w <= 64 && self.cval(n.b).is_some() => {
                let k = self.cval(n.b).unwrap();
                let hi = self.range[n.a as usize].1 as u128;
                let top = if n.op == Add { Some(hi + k) } else { hi.checked_mul(k) };
                if k >> (n.w - 1) == 0 && top.map_or(false, |t| t <= mask(n.w as u32)) {
                    let x = self.zext(n.a, w);
                    let y = self.cst(k, w);
                    return self.bin(n.op, x, y);
                }
                self.mk(ZExt, w, a, 0, 0, 0)
            }
            _ => self.mk(ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w { return a }
        match n.op {
            Const => self.cst(sext(n.k, aw) as u128, w),
            ZExt => self.zext(n.a, w),
            SExt => self.sext(n.a, w),
            _ => {
                if aw <= 64 && self.range[a as usize].1 < 1u64 << (aw - 1) { return self.zext(a, w) }
                self.mk(SExt, w, a, 0, 0, 0)
            }
        }
    }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        if lo == 0 && w == aw { return a }
        debug_assert!(lo + w <= aw);
        match n.op {
            Const => return self.cst(n.k >> lo, w),
            Extract => return self.extract(n.a, lo + n.k as u32, w),
            Concat => {
                let bw = self.w(n.b);
                if lo >= bw { return self.extract(n.a, lo - bw, w) }
                if lo + w <= bw { return self.extract(n.b, lo, w) }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, lo + w - bw);
                return self.concat(h, l);
            }
            ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(0, w) }
                if lo + w <= iw { return self.extract(n.a, lo, w) }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w) }
                if lo < iw {
                    let l = self.extract(n.a, lo, iw - lo);
                    return self.sext(l, w);
                }
            }
            Ite => {
                let (b, c) = (self.n(n.b), self.n(n.c));
                if b.op == Const || c.op == Const || lo == 0 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            And | Or | Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Not => { let x = self.extract(n.a, lo, w); return self.not(x) }
            Add | Sub | Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w as u32 + ln.w as u32;
        if hn.op == Const && ln.op == Const { return self.cst((hn.k << ln.w) | ln.k, w) }
        if hn.op == Const && hn.k == 0 { return self.zext(l, w) }
        if hn.op == Extract && ln.op == Extract && hn.a == ln.a && hn.k == ln.k + ln.w as u128 {
            return self.extract(hn.a, ln.k as u32, w);
        }
        // the lower part may have been rewritten when it was cut off
        if hn.op == Extract && hn.k >= ln.w as u128 {
            let lo = hn.k as u32 - ln.w as u32;
            if matches!(self.n(hn.a).op, Add | Sub | Mul) && self.extract(hn.a, lo, ln.w as u32) == l { return self.extract(hn.a, lo, w) }
        }
        // concat(extract(x, hi..k), x') where l = concat(extract(x, k-1..), r)
        if ln.op == Concat {
            let a = self.n(ln.a);
            if hn.op == Extract && a.op == Extract && hn.a == a.a && hn.k == a.k + a.w as u128 {
                let x = self.extract(hn.a, a.k as u32, hn.w as u32 + a.w as u32);
                return self.concat(x, ln.b);
            }
            if hn.op == Const && a.op == Const {
                let x = self.cst((hn.k << a.w) | a.k, hn.w as u32 + a.w as u32);
                return self.concat(x, ln.b);
            }
        }
        if hn.op == Concat { // right-assoc: concat(concat(a,b), l) -> concat(a, concat(b,l))
            let x = self.concat(hn.b, l);
            return self.concat(hn.a, x);
        }
        if hn.op == ZExt {
            let x = self.concat(hn.a, l);
            return self.zext(x, w);
        }
        self.mk(Concat, w, h, l, 0, 0)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if a == b { return a }
        let cn = self.n(c);
        if cn.op == Const { return if cn.k == 1 { a } else { b } }
        if cn.op == Not { return self.ite(cn.a, b, a) }
        let w = self.w(a);
        let (an, bn) = (self.n(a), self.n(b));
        if w == 1 {
            if an.op == Const {
                return if an.k == 1 { self.bin(Or, c, b) } else { let nc = self.not(c); self.bin(And, nc, b) };
            }
            if bn.op == Const {
                return if bn.k == 0 { self.bin(And, c, a) } else { let nc = self.not(c); self.bin(Or, nc, a) };
            }
        }
        if an.op == Ite && an.a == c { return self.ite(c, an.b, b) }
        if bn.op == Ite && bn.a == c { return self.ite(c, a, bn.c) }
        self.mk(Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid { self.bin(Eq, a, b) }

    /// Low k bits known to be zero?
    fn low_zero(&self, e: Eid) -> u32 {
        let n = self.n(e);
        match n.op {
            Const => if n.k == 0 { n.w as u32 } else { n.k.trailing_zeros() },
            Concat => { let l = self.low_zero(n.b); if l == self.w(n.b) { l + self.low_zero(n.a) } else { l } }
            ZExt => { let l = self.low_zero(n.a); if l == self.w(n.a) { n.w as u32 } else { l } }
            _ => 0,
        }
    }

    fn holds_leaf(&self, t: Eid, q: Eid, op: Op, d: u32) -> bool {
        if t == q { return true }
        let n = self.n(t);
        d > 0 && n.op == op && (self.holds_leaf(n.a, q, op, d - 1) || self.holds_leaf(n.b, q, op, d - 1))
    }
    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let (an, bn) = (self.n(a), self.n(b));
        let aw = an.w as u32;
        debug_assert_eq!(an.w, bn.w, "{:?} {:?} {:?}", op, an, bn);
        let rw = match op { Eq | Ult | Ule | Slt | Sle => 1, _ => aw };
        let (ac, bc) = (an.op == Const, bn.op == Const);
        if ac && bc {
            let v = eval_op(op, rw, aw, an.k, bn.k, 0);
            return self.cst(v, rw);
        }
        let m = mask(aw);
        // commutative: constant to the right
        if ac && matches!(op, Add | Mul | And | Or | Xor | Eq) { return self.bin(op, b, a) }
        // x | y | x
        if !bc && matches!(op, Or | And) {
            if an.op == op && self.holds_leaf(a, b, op, 4) { return a }
            if bn.op == op && self.holds_leaf(b, a, op, 4) { return b }
        }
        if !bc && b < a && matches!(op, Add | Mul | And | Or | Xor | Eq) && !ac { return self.bin_n(op, b, a, rw) }
        match op {
            Add => {
                if bc {
                    if bn.k == 0 { return a }
                    if an.op == Add {
                        if let Some(k) = self.cval(an.b) {
                            let c = self.cst(k.wrapping_add(bn.k), aw);
                            return self.bin(Add, an.a, c);
                        }
                    }
                    if an.op == Ite && (self.cval(an.b).is_some() && self.cval(an.c).is_some()) {
                        let x = self.bin(Add, an.b, b); let y = self.bin(Add, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                if aw == 1 { return self.bin(Xor, a, b) }
            }
            Sub => {
                if a == b { return self.cst(0, aw) }
                if bc { let c = self.cst((bn.k).wrapping_neg(), aw); return self.bin(Add, a, c) }
                if aw == 1 { return self.bin(Xor, a, b) }
                // (x + c) - x, (x + c1) - (x + c2), x - (x + c)
                let split = |s: &Self, e: Eid, n: Node| -> (Eid, u128) {
                    if n.op == Add { if let Some(k) = s.cval(n.b) { return (n.a, k) } }
                    (e, 0)
                };
                let (xa, ka) = split(self, a, an);
                let (xb, kb) = split(self, b, bn);
                if xa == xb { return self.cst(ka.wrapping_sub(kb), aw) }
                // (x + y + c1) - (x + c2)
                let xn = self.n(xa);
                if xn.op == Add {
                    let o = if xn.a == xb { Some(xn.b) } else if xn.b == xb { Some(xn.a) } else { None };
                    if let Some(o) = o { let c = self.cst(ka.wrapping_sub(kb) & m, aw); return self.bin(Add, o, c) }
                }
            }
            Mul => if bc {
                if bn.k == 0 { return b }
                if bn.k == 1 { return a }
                if an.op == Mul { if let Some(k) = self.cval(an.b) { let c = self.cst(k.wrapping_mul(bn.k) & m, aw); return self.bin(Mul, an.a, c) } }
                if bn.k.is_power_of_two() {
                    let c = self.cst(bn.k.trailing_zeros() as u128, aw);
                    return self.bin(Shl, a, c);
                }
            },
            UDiv => if bc {
                if bn.k == 1 { return a }
                if bn.k != 0 && bn.k.is_power_of_two() {
                    let c = self.cst(bn.k.trailing_zeros() as u128, aw);
                    return self.bin(LShr, a, c);
                }
            },
            URem => if bc && bn.k != 0 && bn.k.is_power_of_two() {
                let c = self.cst(bn.k - 1, aw);
                return self.bin(And, a, c);
            },
            And => {
                if a == b { return a }
                if bc {
                    if bn.k == 0 { return b }
                    if bn.k == m { return a }
                    // low mask
                    if (bn.k & (bn.k + 1)) == 0 {
                        let k = bn.k.trailing_ones();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, aw);
                    }
                    // contiguous mask with low zeros
                    let tz = bn.k.trailing_zeros();
                    let sh = bn.k >> tz;
                    if (sh & (sh + 1)) == 0 {
                        let k = sh.trailing_ones();
                        let x = self.extract(a, tz, k);
                        let z = self.cst(0, tz);
                        let y = self.concat(x, z);
                        return self.zext(y, aw);
                    }
                    if an.op == And { if let Some(k) = self.cval(an.b) {
                        let c = self.cst(k & bn.k, aw); return self.bin(And, an.a, c); } }
                    if an.op == Ite && (self.cval(an.b).is_some() || self.cval(an.c).is_some()) {
                        let x = self.bin(And, an.b, b); let y = self.bin(And, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                if aw == 1 {
                    if an.op == Not && an.a == b || bn.op == Not && bn.a == a { return self.cst(0, 1) }
                    // a & (a & x) -> a & x
                    if bn.op == And && (bn.a == a || bn.b == a) { return b }
                    if an.op == And && (an.a == b || an.b == b) { return a }
                }
                if an.op == ZExt && bn.op == ZExt && self.w(an.a) == self.w(bn.a) {
                    let x = self.bin(And, an.a, bn.a);
                    return self.zext(x, aw);
                }
            }
            Or | Xor => {
                if a == b { return if op == Or { a } else { self.cst(0, aw) } }
                if bc {
                    if bn.k == 0 { return a }
                    if bn.k == m { return if op == Or { b } else { self.not(a) } }
                }
                if aw == 1 && op == Or {
                    if an.op == Not && an.a == b || bn.op == Not && bn.a == a { return self.cst(1, 1) }
                    if bn.op == Or && (bn.a == a || bn.b == a) { return b }
                    if an.op == Or && (an.a == b || an.b == b) { return a }
                }
                if an.op == ZExt && bn.op == ZExt && self.w(an.a) == self.w(bn.a) {
                    let x = self.bin(op, an.a, bn.a);
                    return self.zext(x, aw);
                }
                let (za, zb) = (self.low_zero(a), self.low_zero(b));
                let k = za.max(zb);
                if aw > 1 && k > 0 && k < aw {
                    let (x, y) = if za >= zb { (a, b) } else { (b, a) };
                    let xh = self.extract(x, k, aw - k);
                    let yh = self.extract(y, k, aw - k);
                    let yl = self.extract(y, 0, k);
                    let h = self.bin(op, xh, yh);
                    return self.concat(h, yl);
                }
            }
            Shl => if bc {
                if bn.k == 0 { return a }
                if bn.k >= aw as u128 { return self.cst(0, aw) }
                let k = bn.k as u32;
                let x = self.extract(a, 0, aw - k);
                let z = self.cst(0, k);
                return self.concat(x, z);
            },
            LShr => if bc {
                if bn.k == 0 { return a }
                if bn.k >= aw as u128 { return self.cst(0, aw) }
                let k = bn.k as u32;
                let x = self.extract(a, k, aw - k);
                return self.zext(x, aw);
            },
            AShr => if bc {
                if bn.k == 0 { return a }
                let k = (bn.k.min(aw as u128 - 1)) as u32;
                let x = self.extract(a, k, aw - k);
                return self.sext(x, aw);
            },
            Eq => {
                if a == b { return self.cst(1, 1) }
                if bc {
                    if aw == 1 { return if bn.k == 1 { a } else { self.not(a) } }
                    match an.op {
                        ZExt => {
                            let iw = self.w(an.a);
                            if bn.k > mask(iw) { return self.cst(0, 1) }
                            let c = self.cst(bn.k, iw);
                            return self.bin(Eq, an.a, c);
                        }
                        SExt => {
                            let iw = self.w(an.a);
                            let t = bn.k & mask(iw);
                            if (sext(t, iw) as u128) & m != bn.k { return self.cst(0, 1) }
                            let c = self.cst(t, iw);
                            return self.bin(Eq, an.a, c);
                        }
                        Concat => {
                            let lw = self.w(an.b);
                            let ch = self.cst(bn.k >> lw, aw - lw);
                            let cl = self.cst(bn.k, lw);
                            let x = self.bin(Eq, an.a, ch);
                            let y = self.bin(Eq, an.b, cl);
                            return self.bin(And, x, y);
                        }
                        Add => if let Some(k) = self.cval(an.b) {
                            let c = self.cst(bn.k.wrapping_sub(k), aw);
                            return self.bin(Eq, an.a, c);
                        },
                        Xor => if let Some(k) = self.cval(an.b) {
                            let c = self.cst(bn.k ^ k, aw);
                            return self.bin(Eq, an.a, c);
                        },
                        Not => { let c = self.cst(!bn.k, aw); return self.bin(Eq, an.a, c) }
                        Ite => {
                            if self.cval(an.b).is_some() || self.cval(an.c).is_some() {
                                let x = self.bin(Eq, an.b, b);
                                let y = self.bin(Eq, an.c, b);
                                return self.ite(an.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
                if an.op == ZExt && bn.op == ZExt {
                    let (x, y) = (self.w(an.a), self.w(bn.a));
                    let k = x.max(y);
                    let p = self.zext(an.a, k); let q = self.zext(bn.a, k);
                    return self.bin(Eq, p, q);
                }
                if an.op == SExt && bn.op == SExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(Eq, an.a, bn.a);
                }
                if an.op == Concat && bn.op == Concat && self.w(an.b) == self.w(bn.b) {
                    let x = self.bin(Eq, an.a, bn.a);
                    let y = self.bin(Eq, an.b, bn.b);
                    return self.bin(And, x, y);
                }
            }
            Ult | Ule => {
                if a == b { return self.cst((op == Ule) as u128, 1) }
                // sums which cannot wrap
                if aw <= 64 && an.op == Add {
                    let fits = |s: &Self, n: &Node| s.range[n.a as usize].1 as u128 + s.range[n.b as usize].1 as u128 <= mask(aw) as u128;
                    if fits(self, &an) {
                        if op == Ult && (an.a == b || an.b == b) { return self.cst(0, 1) }
                        if bn.op == Add && an.a == bn.a && fits(self, &bn) { return self.bin(op, an.b, bn.b) }
                    }
                }
                // strip common zero extension
                if an.op == ZExt && bn.op == ZExt {
                    let k = self.w(an.a).max(self.w(bn.a));
                    if k < aw {
                        let p = self.zext(an.a, k); let q = self.zext(bn.a, k);
                        return self.bin(op, p, q);
                    }
                }
                if an.op == ZExt && bc {
                    let iw = self.w(an.a);
                    if bn.k > mask(iw) { return self.cst(1, 1) }
                    let c = self.cst(bn.k, iw);
                    return self.bin(op, an.a, c);
                }
                if ac && bn.op == ZExt {
                    let iw = self.w(bn.a);
                    if an.k > mask(iw) { return self.cst(0, 1) }
                    let c = self.cst(an.k, iw);
                    return self.bin(op, c, bn.a);
                }
                if op == Ult && bc && bn.k == 1 { let z = self.cst(0, aw); return self.bin(Eq, a, z) }
                if op == Ult && bc && bn.k == 0 { return self.cst(0, 1) }
                if op == Ule && ac && an.k == 0 { return self.cst(1, 1) }
                if bc && an.op == Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                    let x = self.bin(op, an.b, b); let y = self.bin(op, an.c, b);
                    return self.ite(an.a, x, y);
                }
            }
            Slt | Sle => {
                if a == b { return self.cst((op == Sle) as u128, 1) }
                if bc && an.op == Ite && self.cval(an.b).is_some() && self.cval(an.c).is_some() {
                    let x = self.bin(op, an.b, b); let y = self.bin(op, an.c, b);
                    return self.ite(an.a, x, y);
                }
                if aw <= 64 {
                    let half = 1u64 << (aw - 1);
                    if self.range[a as usize].1 < half && self.range[b as usize].1 < half {
                        return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                    }
                }
                if an.op == SExt && bn.op == SExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(op, an.a, bn.a);
                }
            }
            SDiv | SRem => {
                if aw <= 64 {
                    let half = 1u64 << (aw - 1);
                    if self.range[a as usize].1 < half && self.range[b as usize].1 < half {
                        return self.bin(if op == SDiv { UDiv } else { URem }, a, b);
                    }
                }
                if op == SDiv && bc && bn.k == 1 { return a }
            }
            _ => {}
        }
        self.bin_n(op, a, b, rw)
    }
    fn bin_n(&mut self, op: Op, a: Eid, b: Eid, rw: u32) -> Eid {
        // called with operands already ordered; re-enter simplification if order was just swapped
        let (an, bn) = (self.n(a), self.n(b));
        if a < b && an.op != Const && bn.op != Const && matches!(op, Add | Mul | And | Or | Xor | Eq) {
            // run the symmetric rules that look at both operands
            return self.bin_sym(op, a, b, rw);
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    fn bin_sym(&mut self, op: Op, a: Eid, b: Eid, rw: u32) -> Eid {
        let (an, bn) = (self.n(a), self.n(b));
        let aw = an.w as u32;
        match op {
            And if aw == 1 => {
                if an.op == Not && an.a == b || bn.op == Not && bn.a == a { return self.cst(0, 1) }
                if bn.op == And && (bn.a == a || bn.b == a) { return b }
                if an.op == And && (an.a == b || an.b == b) { return a }
            }
            Or if aw == 1 => {
                if an.op == Not && an.a == b || bn.op == Not && bn.a == a { return self.cst(1, 1) }
                if bn.op == Or && (bn.a == a || bn.b == a) { return b }
                if an.op == Or && (an.a == b || an.b == b) { return a }
            }
            And | Or | Xor if an.op == ZExt && bn.op == ZExt && self.w(an.a) == self.w(bn.a) => {
                let x = self.bin(op, an.a, bn.a);
                return self.zext(x, aw);
            }
            Or | Xor => {
                let (za, zb) = (self.low_zero(a), self.low_zero(b));
                let k = za.max(zb);
                if k > 0 && k < aw {
                    let (x, y) = if za >= zb { (a, b) } else { (b, a) };
                    let xh = self.extract(x, k, aw - k);
                    let yh = self.extract(y, k, aw - k);
                    let yl = self.extract(y, 0, k);
                    let h = self.bin(op, xh, yh);
                    return self.concat(h, yl);
                }
            }
            Eq => {
                if an.op == ZExt && bn.op == ZExt {
                    let (x, y) = (self.w(an.a), self.w(bn.a));
                    let k = x.max(y);
                    if k < aw {
                        let p = self.zext(an.a, k); let q = self.zext(bn.a, k);
                        return self.bin(Eq, p, q);
                    }
                }
                if an.op == SExt && bn.op == SExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(Eq, an.a, bn.a);
                }
                if an.op == Concat && bn.op == Concat && self.w(an.b) == self.w(bn.b) {
                    let x = self.bin(Eq, an.a, bn.a);
                    let y = self.bin(Eq, an.b, bn.b);
                    return self.bin(And, x, y);
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }

    /// Evaluate under a model (value per variable index).
    pub fn eval(&mut self, e: Eid, model: &[u64], model_id: usize) -> u128 {
        if self.memo_model != model_id { self.memo_model = model_id; self.epoch += 1; }
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, 0);
            self.memo_ep.resize(self.nodes.len() + 1024, 0);
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: Eid, model: &[u64]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            Const => return n.k,
            Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128 & mask(n.w as u32),
            _ => {}
        }
        if self.memo_ep[i] == self.epoch { return self.memo[i] }
        let v = match n.op {
            Ite => if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            Concat => { let h = self.ev(n.a, model); let l = self.ev(n.b, model); (h << self.w(n.b)) | l }
            Not => { let a = self.ev(n.a, model); !a & mask(n.w as u32) }
            ZExt | SExt | Extract => {
                let a = self.ev(n.a, model);
                eval_op(n.op, n.w as u32, self.w(n.a), a, 0, n.k)
            }
            _ => {
                let a = self.ev(n.a, model);
                let b = self.ev(n.b, model);
                eval_op(n.op, n.w as u32, self.w(n.a), a, b, 0)
            }
        };
        self.memo[i] = v;
        self.memo_ep[i] = self.epoch;
        v
    }
    pub fn show(&self, e: Eid, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Const => format!("{:#x}:{}", n.k, n.w),
            Var => format!("{}#{}", self.vars[n.k as usize].0, n.k),
            _ if depth == 0 => "..".into(),
            Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Not | ZExt | SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Extract => format!("(ext {}+{} {})", n.k, n.w, self.show(n.a, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
