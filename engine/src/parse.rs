//! Parser for textual LLVM IR (the subset rustc emits) into a pre-decoded form.
use crate::expr::Ctx;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u64), E(u32), A(Rc<[Val]>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>), St(bool, Rc<[Ty]>), Other }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => { let b = (*n as u64 * t.bits() as u64 + 7) / 8; b.next_power_of_two() }
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(packed, f) => {
                let mut o = 0;
                for t in f.iter() { let a = if *packed { 1 } else { t.align() }; o = (o + a - 1) / a * a + t.size(); }
                let a = if *packed { 1 } else { self.align() };
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::St(p, f) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => n * t.bits(), _ => 0 }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::St(packed, f) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k as u64 == i { return o }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn field(&self, i: u64) -> Ty {
        match self { Ty::St(_, f) => f[i as usize].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("field {:?}", self) }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt }

#[derive(Clone, Debug)]
pub struct Edge { pub to: u32, pub moves: Box<[(u32, Opd)]> }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ind(Opd), Intr(In) }

#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Memcpy, Memset, UMax, UMin, SMax, SMin, USubSat, UAddSat, SSubSat, SAddSat,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr,
    Abs, UCmp, SCmp, IsConst, Expect, LoadRel, TlsAddr, Trap, Nop,
    RedOr, RedAnd, RedAdd, RedUMax, RedUMin, RedMul, RedXor, F(Rc<str>), Other(Rc<str>),
}

pub fn intr(n: &str) -> In {
    let k = n.strip_prefix("llvm.").unwrap_or(n);
    let t: &[(&str, In)] = &[
        ("memcpy.", In::Memcpy), ("memmove.", In::Memcpy), ("memset.", In::Memset),
        ("umax.", In::UMax), ("umin.", In::UMin), ("smax.", In::SMax), ("smin.", In::SMin),
        ("usub.sat.", In::USubSat), ("uadd.sat.", In::UAddSat), ("ssub.sat.", In::SSubSat), ("sadd.sat.", In::SAddSat),
        ("uadd.with", In::UAddO), ("usub.with", In::USubO), ("umul.with", In::UMulO),
        ("sadd.with", In::SAddO), ("ssub.with", In::SSubO), ("smul.with", In::SMulO),
        ("ctlz.", In::Ctlz), ("cttz.", In::Cttz), ("ctpop.", In::Ctpop), ("bswap.", In::Bswap), ("bitreverse.", In::Bitrev),
        ("fshl.", In::Fshl), ("fshr.", In::Fshr), ("abs.", In::Abs), ("ucmp.", In::UCmp), ("scmp.", In::SCmp),
        ("is.constant", In::IsConst), ("expect", In::Expect), ("load.relative", In::LoadRel), ("threadlocal.address", In::TlsAddr),
        ("trap", In::Trap), ("ubsantrap", In::Trap), ("debugtrap", In::Trap), ("prefetch", In::Nop), ("x86.sse2.pause", In::Nop),
        ("stacksave", In::Nop), ("stackrestore", In::Nop), ("asm.empty", In::Nop), ("va_start", In::Nop), ("va_end", In::Nop),
        ("vector.reduce.or", In::RedOr), ("vector.reduce.and", In::RedAnd), ("vector.reduce.add", In::RedAdd),
        ("vector.reduce.umax", In::RedUMax), ("vector.reduce.umin", In::RedUMin), ("vector.reduce.mul", In::RedMul), ("vector.reduce.xor", In::RedXor),
    ];
    for (p, i) in t { if k.starts_with(p) { return i.clone() } }
    for p in ["fabs", "floor", "ceil", "trunc.f", "round.", "roundeven", "rint", "nearbyint", "sqrt", "copysign", "fma", "fmuladd", "fptoui.sat", "fptosi.sat", "minnum", "maxnum"] {
        if k.starts_with(p) { return In::F(k.into()) }
    }
    In::Other(n.into())
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BOp, u32, u32, Opd, Opd),
    VBin(BOp, u32, u32, Opd, Opd),
    ICmp(Pred, u32, u32, Opd, Opd),
    VICmp(Pred, u32, u32, Opd, Opd),
    Cast(CastOp, u32, u32, u32, Opd),
    VCast(CastOp, u32, u32, u32, Opd),
    Bitcast(Ty, Ty, u32, Opd),
    Copy(u32, Opd),
    Select(u32, Opd, Opd, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u32, u64, u64, Opd),
    Gep(u32, Opd, i64, Box<[(Opd, u32, i64)]>),
    Call(Option<u32>, Callee, Box<[(Opd, Ty)]>, Ty, Option<Edge>),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(u32, Opd, Edge, Box<[(u64, Edge)]>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractValue(u32, Opd, Box<[u32]>),
    InsertValue(u32, Opd, Opd, Box<[u32]>),
    ExtractElt(u32, Opd, Opd),
    InsertElt(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Box<[i32]>),
    Rmw(Rc<str>, u32, u32, Opd, Opd),
    CmpXchg(u32, u32, Opd, Opd, Opd),
    FBin(Rc<str>, Ty, u32, Opd, Opd),
    FCmp(Rc<str>, Ty, u32, Opd, Opd),
    FCast(Rc<str>, Ty, Ty, u32, Opd),
}

#[derive(Debug)]
pub struct Block { pub ins: Vec<I>, pub dbg: Vec<u32> }

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub addr: u64,
    pub base_block: u32,
    /// Part of the standard library's sorting, which moves values by the outcome of comparisons without branching.
    pub sort: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub by_addr: HashMap<u64, u32>,
    pub globals: HashMap<String, u64>,
    /// (address, bytes)
    pub data: Vec<(u64, Vec<u8>)>,
    pub init_array: Vec<u64>,
    pub nblocks: u32,
    pub meta: HashMap<u32, Meta>,
}

#[derive(Debug, Clone)]
pub enum Meta {
    Loc { scope: u32, inlined: u32, line: u32 },
    Sub { name: String, linkage: String, file: u32, line: u32 },
    Block { scope: u32 },
    File { name: String, dir: String },
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOBAL_BASE: u64 = 0x1800_0000;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),        // keyword or type word
    Local(&'a str),
    Global(String),
    Num(&'a str),
    Str(&'a str),
    Meta(&'a str),
    P(u8),
    End,
}

struct Lx<'a> { s: &'a [u8], p: usize, peeked: Option<(T<'a>, usize)> }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

fn unquote(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 && b[i + 1].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' { o.push(b'\\'); i += 2 }
        else { o.push(b[i]); i += 1 }
    }
    o
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { s: s.as_bytes(), p: 0, peeked: None } }
    fn str(&self, a: usize, b: usize) -> &'a str { std::str::from_utf8(&self.s[a..b]).unwrap() }
    fn lex(&mut self) -> T<'a> {
        let s = self.s;
        while self.p < s.len() && (s[self.p] == b' ' || s[self.p] == b'\t' || s[self.p] == b'\n') { self.p += 1 }
        if self.p >= s.len() || s[self.p] == b';' { return T::End }
        let c = s[self.p];
        let st = self.p;
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let name: String;
                let raw;
                if s.get(self.p) == Some(&b'"') {
                    self.p += 1;
                    let b = self.p;
                    while s[self.p] != b'"' { self.p += 1 }
                    raw = self.str(b, self.p);
                    self.p += 1;
                } else {
                    let b = self.p;
                    while self.p < s.len() && is_id(s[self.p]) { self.p += 1 }
                    raw = self.str(b, self.p);
                }
                if c == b'%' { T::Local(raw) } else { name = raw.to_string(); T::Global(name) }
            }
            b'"' => {
                self.p += 1;
                let b = self.p;
                while s[self.p] != b'"' { self.p += 1 }
                self.p += 1;
                T::Str(self.str(b, self.p - 1))
            }
            b'!' => {
                self.p += 1;
                while self.p < s.len() && is_id(s[self.p]) { self.p += 1 }
                T::Meta(self.str(st + 1, self.p))
            }
            b'#' => {
                self.p += 1;
                while self.p < s.len() && is_id(s[self.p]) { self.p += 1 }
                T::Id(self.str(st, self.p))
            }
            b'c' if s.get(self.p + 1) == Some(&b'"') => { self.p += 1; T::Id("c") }
            b'+' | b'-' | b'0'..=b'9' => {
                self.p += 1;
                while self.p < s.len() && (is_id(s[self.p]) || s[self.p] == b'+') { self.p += 1 }
                T::Num(self.str(st, self.p))
            }
            b'.' if s[self.p..].starts_with(b"...") => { self.p += 3; T::Id("...") }
            _ if is_id(c) => {
                while self.p < s.len() && is_id(s[self.p]) { self.p += 1 }
                T::Id(self.str(st, self.p))
            }
            _ => { self.p += 1; T::P(c) }
        }
    }
    fn peek(&mut self) -> T<'a> {
        if self.peeked.is_none() { let save = self.p; let t = self.lex(); let e = self.p; self.p = save; self.peeked = Some((t, e)); }
        self.peeked.as_ref().unwrap().0.clone()
    }
    fn next(&mut self) -> T<'a> {
        if let Some((t, e)) = self.peeked.take() { self.p = e; return t }
        self.lex()
    }
    fn isp(&mut self, c: u8) -> bool { self.peek() == T::P(c) }
    fn accp(&mut self, c: u8) -> bool { if self.isp(c) { self.next(); true } else { false } }
    fn expp(&mut self, c: u8) { let t = self.next(); if t != T::P(c) { panic!("expected '{}' got {:?} in: {}", c as char, t, String::from_utf8_lossy(&self.s[..self.s.len().min(600)])) } }
    fn isid(&mut self, w: &str) -> bool { matches!(self.peek(), T::Id(x) if x == w) }
    fn accid(&mut self, w: &str) -> bool { if self.isid(w) { self.next(); true } else { false } }
    fn skip_parens(&mut self) {
        self.expp(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, T::End => panic!("eof in parens"), _ => {} }
        }
    }
}

const VALUE_WORDS: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr",
    "ptrtoint", "inttoptr", "trunc", "bitcast", "sub", "add", "xor", "splat", "c", "asm", "ptrtoaddr", "icmp", "select", "zext", "sext", "mul", "and", "or", "shl", "lshr"];

pub struct P<'c> {
    pub x: &'c mut Ctx,
    named: HashMap<String, Ty>,
    syms: HashMap<String, u64>,
    fidx: HashMap<String, u32>,
}

impl<'c> P<'c> {
    fn ty(&mut self, l: &mut Lx) -> Ty {
        let t = l.next();
        let mut r = match t {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => Ty::Ptr,
            T::Id("float") => Ty::F32,
            T::Id("double") => Ty::F64,
            T::Id("label") | T::Id("token") | T::Id("half") | T::Id("fp128") | T::Id("x86_fp80") => Ty::Other,
            T::Id("metadata") => Ty::Other,
            T::Id(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            T::Local(n) => self.named.get(n).cloned().unwrap_or(Ty::Other),
            T::P(b'[') => {
                let n = match l.next() { T::Num(n) => n.parse::<u64>().unwrap(), o => panic!("array {:?}", o) };
                assert!(l.accid("x"));
                let t = self.ty(l);
                l.expp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'<') => {
                if l.isp(b'{') {
                    l.next();
                    let mut f = vec![];
                    if !l.accp(b'}') { loop { f.push(self.ty(l)); if !l.accp(b',') { break } } l.expp(b'}'); }
                    l.expp(b'>');
                    Ty::St(true, f.into())
                } else {
                    let n = match l.next() { T::Num(n) => n.parse::<u32>().unwrap(), o => panic!("vec {:?}", o) };
                    assert!(l.accid("x"));
                    let t = self.ty(l);
                    l.expp(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::P(b'{') => {
                let mut f = vec![];
                if !l.accp(b'}') { loop { f.push(self.ty(l)); if !l.accp(b',') { break } } l.expp(b'}'); }
                Ty::St(false, f.into())
            }
            o => panic!("type {:?} in {}", o, String::from_utf8_lossy(&l.s[..l.s.len().min(600)])),
        };
        if l.isid("addrspace") { l.next(); l.skip_parens(); }
        // function type
        while l.isp(b'(') && matches!(r, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::St(..) | Ty::F32 | Ty::F64) {
            // only in calls of varargs: `i32 (ptr, ...)`; the result type is what matters
            l.skip_parens();
            if l.accp(b'*') { r = Ty::Ptr; }
        }
        r
    }
    fn skip_attrs(&mut self, l: &mut Lx) {
        loop {
            match l.peek() {
                T::Id(w) if !VALUE_WORDS.contains(&w) => {
                    l.next();
                    if w == "align" && !l.isp(b'(') { l.next(); }
                    else if l.isp(b'(') { l.skip_parens(); }
                }
                T::Str(_) => { l.next(); if l.accp(b'=') { l.next(); } }
                _ => break,
            }
        }
    }
    fn cst(&mut self, v: u128, w: u32) -> Val {
        if w <= 64 { Val::C((v & crate::expr::mask(w)) as u64) } else { Val::E(self.x.cst(v, w)) }
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => self.cst(0, *w),
            Ty::Vec(n, e) => { let z = self.zero(e); Val::A(vec![z; *n as usize].into()) }
            Ty::Arr(n, e) => { if *n > 1 << 16 { panic!("large array constant as operand") } let z = self.zero(e); Val::A(vec![z; *n as usize].into()) }
            Ty::St(_, f) => { let v: Vec<Val> = f.iter().map(|t| self.zero(t)).collect(); Val::A(v.into()) }
            _ => Val::C(0),
        }
    }
    fn num(&mut self, s: &str, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => {
                let v = if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() }
                    else if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 }
                    else { s.parse::<u128>().unwrap() };
                self.cst(v, *w)
            }
            Ty::F32 | Ty::F64 => {
                let d = if let Some(x) = match s { "+inf" => Some(f64::INFINITY), "-inf" => Some(f64::NEG_INFINITY), "+qnan" => Some(f64::NAN), "-qnan" => Some(-f64::NAN), _ => None } { x }
                    else if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) }
                    else { s.parse::<f64>().unwrap() };
                Val::C(if *t == Ty::F64 { d.to_bits() } else { (d as f32).to_bits() as u64 })
            }
            _ => panic!("num {} {:?}", s, t),
        }
    }
    fn cu(&self, v: &Val) -> u64 { match v { Val::C(c) => *c, Val::E(e) => self.x.cval(*e).unwrap() as u64, _ => panic!("cu") } }
    /// constant of a known type
    fn konst(&mut self, l: &mut Lx, t: &Ty) -> Val {
        match l.next() {
            T::Num(n) => self.num(n, t),
            T::Id("true") => Val::C(1),
            T::Id("false") => Val::C(0),
            T::Id(h) if h.starts_with("f0x") && h[3..].bytes().all(|c| c.is_ascii_hexdigit()) => Val::C(u64::from_str_radix(&h[3..], 16).unwrap()),
            T::Id("inf") => Val::C(if *t == Ty::F64 { f64::INFINITY.to_bits() } else { f32::INFINITY.to_bits() as u64 }),
            T::Id("qnan" | "nan") => Val::C(if *t == Ty::F64 { f64::NAN.to_bits() } else { f32::NAN.to_bits() as u64 }),
            T::Id("null") | T::Id("none") => Val::C(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") => self.zero(t),
            T::Global(g) => Val::C(*self.syms.get(&g).unwrap_or_else(|| panic!("symbol {}", g))),
            T::Id("c") => match l.next() {
                T::Str(s) => { let b = unquote(s); Val::A(b.into_iter().map(|c| Val::C(c as u64)).collect::<Vec<_>>().into()) }
                o => panic!("c {:?}", o),
            },
            T::Id("splat") => {
                l.expp(b'(');
                let et = self.ty(l);
                let v = self.konst(l, &et);
                l.expp(b')');
                match t { Ty::Vec(n, _) => Val::A(vec![v; *n as usize].into()), _ => panic!("splat") }
            }
            T::P(b'{') | T::P(b'[') => {
                let mut v = vec![];
                if !(l.accp(b'}') || l.accp(b']')) {
                    loop { let et = self.ty(l); v.push(self.konst(l, &et)); if !l.accp(b',') { break } }
                    l.next();
                }
                Val::A(v.into())
            }
            T::P(b'<') => {
                let st = l.accp(b'{');
                let mut v = vec![];
                if !(st && l.accp(b'}')) {
                    loop { let et = self.ty(l); v.push(self.konst(l, &et)); if !l.accp(b',') { break } }
                    if st { l.expp(b'}') }
                }
                l.expp(b'>');
                Val::A(v.into())
            }
            T::Id("getelementptr") => {
                while !l.isp(b'(') { l.next(); if l.isid("inrange") { l.next(); l.skip_parens(); } }
                l.expp(b'(');
                let bt = self.ty(l);
                l.expp(b',');
                self.ty(l);
                let b = self.konst(l, &Ty::Ptr);
                let mut a = self.cu(&b) as i64;
                let mut cur = bt;
                let mut first = true;
                while l.accp(b',') {
                    l.accid("inrange");
                    let it = self.ty(l);
                    let k = self.konst(l, &it);
                    let w = it.bits();
                    let i = crate::expr::sext(self.cu(&k) as u128, w) as i64;
                    if first { a += i * cur.size() as i64; first = false }
                    else { a += match &cur { Ty::St(..) => cur.field_off(i as u64) as i64, _ => i * cur.field(0).size() as i64 }; cur = cur.field(if matches!(cur, Ty::St(..)) { i as u64 } else { 0 }); }
                }
                l.expp(b')');
                Val::C(a as u64)
            }
            T::Id(op @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" | "zext")) => {
                l.expp(b'(');
                let st = self.ty(l);
                let v = self.konst(l, &st);
                assert!(l.accid("to"), "{}", op);
                let dt = self.ty(l);
                l.expp(b')');
                if op == "bitcast" { return v }
                let c = self.cu(&v);
                self.cst(c as u128, dt.bits())
            }
            T::Id(op @ ("sub" | "add" | "xor" | "mul" | "and")) => {
                while !l.isp(b'(') { l.next(); }
                l.expp(b'(');
                let at = self.ty(l);
                let a = self.konst(l, &at);
                l.expp(b',');
                let bt = self.ty(l);
                let b = self.konst(l, &bt);
                l.expp(b')');
                let (a, b) = (self.cu(&a), self.cu(&b));
                let v = match op { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), "and" => a & b, _ => a ^ b };
                self.cst(v as u128, at.bits())
            }
            o => panic!("const {:?} in {}", o, String::from_utf8_lossy(&l.s[..l.s.len().min(600)])),
        }
    }
}

struct FnP { regs: HashMap<String, u32>, blocks: HashMap<String, u32> }
impl FnP {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
}

impl<'c> P<'c> {
    fn opd(&mut self, f: &mut FnP, l: &mut Lx, t: &Ty) -> Opd {
        if let T::Local(n) = l.peek() { l.next(); return Opd::R(f.reg(n)) }
        if l.isid("asm") { while !matches!(l.peek(), T::P(b'(') | T::End) { l.next(); } return Opd::K(Val::C(0)) }
        Opd::K(self.konst(l, t))
    }
    fn tyopd(&mut self, f: &mut FnP, l: &mut Lx) -> (Ty, Opd) {
        let t = self.ty(l);
        if t == Ty::Other { // metadata operand
            let mut d = 0;
            loop {
                match l.peek() {
                    T::P(b')') | T::P(b',') if d == 0 => break,
                    T::End => break,
                    T::P(b'(') | T::P(b'{') => d += 1,
                    T::P(b')') | T::P(b'}') => d -= 1,
                    _ => {}
                }
                l.next();
            }
            return (t, Opd::K(Val::C(0)));
        }
        self.skip_attrs(l);
        let o = self.opd(f, l, &t);
        (t, o)
    }
    fn block(&mut self, f: &FnP, l: &mut Lx) -> u32 {
        assert!(l.accid("label"));
        match l.next() { T::Local(n) => *f.blocks.get(n).unwrap_or_else(|| panic!("label {}", n)), o => panic!("label {:?}", o) }
    }
}

fn skip_flags(l: &mut Lx) {
    loop {
        match l.peek() {
            T::Id(w) if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "volatile" | "atomic" | "weak" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inrange") => { l.next(); }
            _ => break,
        }
    }
}

fn binop(s: &str) -> Option<BOp> {
    Some(match s {
        "add" => BOp::Add, "sub" => BOp::Sub, "mul" => BOp::Mul, "udiv" => BOp::UDiv, "sdiv" => BOp::SDiv, "urem" => BOp::URem, "srem" => BOp::SRem,
        "and" => BOp::And, "or" => BOp::Or, "xor" => BOp::Xor, "shl" => BOp::Shl, "lshr" => BOp::LShr, "ashr" => BOp::AShr,
        _ => return None,
    })
}
fn pred(s: &str) -> Pred {
    match s {
        "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
        "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, o => panic!("pred {}", o),
    }
}

fn name_of(line: &str) -> (String, &str) {
    // `@name = rest`
    let l = &line[1..];
    if let Some(q) = l.strip_prefix('"') {
        let e = q.find('"').unwrap();
        (q[..e].to_string(), q[e + 1..].trim_start().strip_prefix('=').unwrap().trim_start())
    } else {
        let e = l.find(' ').unwrap();
        (l[..e].to_string(), l[e..].trim_start().strip_prefix('=').unwrap().trim_start())
    }
}

fn def_name(line: &str) -> String {
    let a = line.find('@').unwrap() + 1;
    let r = &line[a..];
    if let Some(q) = r.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() }
    else { r[..r.find('(').unwrap()].to_string() }
}

pub fn parse(text: &str, x: &mut Ctx) -> Module {
    let lines: Vec<&str> = text.lines().collect();
    let mut p = P { x, named: HashMap::new(), syms: HashMap::new(), fidx: HashMap::new() };
    let mut funcs: Vec<Func> = vec![];
    let mut by_addr = HashMap::new();
    let mut meta = HashMap::new();
    let mut glob: Vec<(String, Ty, &str, bool, bool)> = vec![]; // name, type, init text, external, in init_array
    let mut alias: Vec<(String, &str)> = vec![];
    let mut bodies: Vec<(usize, usize, u32)> = vec![];
    let mut i = 0;
    let mut ga = GLOBAL_BASE;
    let mut globals = HashMap::new();
    let mut init_array = vec![];
    while i < lines.len() {
        let s = lines[i];
        let b = s.as_bytes();
        if b.is_empty() { i += 1; continue }
        match b[0] {
            b'%' if s.contains(" = type ") => {
                let k = s.find(" = type ").unwrap();
                let n = s[1..k].trim_matches('"').to_string();
                let mut l = Lx::new(&s[k + 8..]);
                if !l.isid("opaque") { let t = p.ty(&mut l); p.named.insert(n, t); }
            }
            b'@' => {
                let (n, rest) = name_of(s);
                let mut l = Lx::new(rest);
                let mut ext = false;
                let mut is_alias = false;
                loop {
                    match l.next() {
                        T::Id("global") | T::Id("constant") => break,
                        T::Id("alias") => { is_alias = true; break }
                        T::Id("external") | T::Id("extern_weak") => ext = true,
                        T::Id(_) => { if l.isp(b'(') { l.skip_parens() } }
                        o => panic!("global {:?} {}", o, n),
                    }
                }
                if is_alias { alias.push((n, rest)); i += 1; continue }
                let t = p.ty(&mut l);
                let al = 16.max(t.align());
                ga = (ga + al - 1) / al * al;
                p.syms.insert(n.clone(), if ext { 0 } else { ga });
                globals.insert(n.clone(), ga);
                let ia = rest.contains("section \".init_array");
                if ia { init_array.push(ga) }
                if !ext { ga += t.size().max(1); }
                let at = l.p;
                glob.push((n, t, &rest[at..], ext, ia));
            }
            b'd' if s.starts_with("define") || s.starts_with("declare") => {
                let n = def_name(s);
                let k = funcs.len() as u32;
                let addr = FUNC_BASE + 16 * k as u64;
                let weak = s.contains("extern_weak");
                funcs.push(Func { name: n.clone(), params: vec![], nregs: 0, blocks: vec![], defined: s.starts_with("define"), addr, base_block: 0, sort: n.contains("5slice4sort") || n.contains("slice..sort") });
                by_addr.insert(addr, k);
                p.syms.insert(n.clone(), if weak { 0 } else { addr });
                p.fidx.insert(n, k);
                if s.starts_with("define") {
                    let st = i;
                    while lines[i] != "}" { i += 1 }
                    bodies.push((st, i, k));
                }
            }
            b'!' => {
                if let Some(m) = parse_meta(s) { meta.insert(m.0, m.1); }
            }
            _ => {}
        }
        i += 1;
    }
    for (n, rest) in alias {
        // `... alias TY, ptr @target`
        let t = rest.rfind('@').map(|k| def_target(&rest[k..])).unwrap();
        let a = p.syms[&t];
        p.syms.insert(n.clone(), a);
        if let Some(&k) = p.fidx.get(&t) { p.fidx.insert(n, k); }
    }
    let mut data = vec![];
    for (n, t, rest, ext, _) in &glob {
        if *ext || n.starts_with("llvm.used") || n.starts_with("llvm.compiler") { continue }
        let mut l = Lx::new(rest);
        let mut bytes = vec![0u8; t.size() as usize];
        if l.isid("zeroinitializer") || l.isid("undef") { /* zero */ }
        else { let v = p.konst(&mut l, t); to_bytes(p.x, &v, t, &mut bytes); }
        data.push((p.syms[n], bytes));
    }
    let mut nblocks = 0;
    for (a, b, k) in bodies {
        let (params, nregs, blocks) = body(&mut p, &lines[a..b]);
        let f = &mut funcs[k as usize];
        f.params = params;
        f.nregs = nregs;
        f.base_block = nblocks;
        nblocks += blocks.len() as u32;
        f.blocks = blocks;
    }
    let fidx = std::mem::take(&mut p.fidx);
    Module { funcs, fidx, by_addr, globals, data, init_array, nblocks, meta }
}

fn def_target(r: &str) -> String {
    let r = &r[1..];
    if let Some(q) = r.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() }
    else { r.split(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c))).next().unwrap().to_string() }
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let mut from = 0;
    while let Some(p) = s[from..].find(k) {
        let p = p + from;
        let pre = s.as_bytes()[p - 1];
        if (pre == b'(' || pre == b' ') && s[p + k.len()..].starts_with(": ") {
            let r = &s[p + k.len() + 2..];
            if let Some(q) = r.strip_prefix('"') { return Some(&q[..q.find('"').unwrap()]) }
            return Some(&r[..r.find(|c| c == ',' || c == ')').unwrap()]);
        }
        from = p + 1;
    }
    None
}

fn parse_meta(s: &str) -> Option<(u32, Meta)> {
    let e = s.find(" = ")?;
    let id: u32 = s[1..e].parse().ok()?;
    let r = &s[e + 3..];
    let r = r.strip_prefix("distinct ").unwrap_or(r);
    let m = |v: Option<&str>| v.and_then(|v| v.strip_prefix('!')).and_then(|v| v.parse().ok()).unwrap_or(u32::MAX);
    let n = |v: Option<&str>| v.and_then(|v| v.parse().ok()).unwrap_or(0);
    if r.starts_with("!DILocation(") {
        return Some((id, Meta::Loc { scope: m(field(r, "scope")), inlined: m(field(r, "inlinedAt")), line: n(field(r, "line")) }));
    }
    if r.starts_with("!DISubprogram(") {
        return Some((id, Meta::Sub { name: field(r, "name").unwrap_or("").into(), linkage: field(r, "linkageName").unwrap_or("").into(), file: m(field(r, "file")), line: n(field(r, "line")) }));
    }
    if r.starts_with("!DILexicalBlock") { return Some((id, Meta::Block { scope: m(field(r, "scope")) })) }
    if r.starts_with("!DIFile(") { return Some((id, Meta::File { name: field(r, "filename").unwrap_or("").into(), dir: field(r, "directory").unwrap_or("").into() })) }
    None
}

pub fn to_bytes(x: &Ctx, v: &Val, t: &Ty, out: &mut [u8]) {
    match (t, v) {
        (Ty::Arr(_, e), Val::A(a)) => { let s = e.size() as usize; for (i, k) in a.iter().enumerate() { to_bytes(x, k, e, &mut out[i * s..i * s + s]) } }
        (Ty::Vec(_, e), Val::A(a)) => { let s = e.size() as usize; for (i, k) in a.iter().enumerate() { to_bytes(x, k, e, &mut out[i * s..i * s + s]) } }
        (Ty::St(_, f), Val::A(a)) => for (i, k) in a.iter().enumerate() { let o = t.field_off(i as u64) as usize; let s = f[i].size() as usize; to_bytes(x, k, &f[i], &mut out[o..o + s]) },
        (_, Val::C(c)) => { let n = out.len(); for i in 0..n.min(8) { out[i] = (c >> (8 * i)) as u8 } }
        (_, Val::E(e)) => { let c = x.cval(*e).unwrap(); let n = out.len(); for i in 0..n.min(16) { out[i] = (c >> (8 * i)) as u8 } }
        _ => panic!("to_bytes"),
    }
}

fn dbg_of(s: &str) -> u32 {
    match s.rfind("!dbg !") {
        Some(k) => { let r = &s[k + 6..]; let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()); r[..e].parse().unwrap_or(u32::MAX) }
        None => u32::MAX,
    }
}

fn body(p: &mut P, lines: &[&str]) -> (Vec<(u32, Ty)>, u32, Vec<Block>) {
    let mut f = FnP { regs: HashMap::new(), blocks: HashMap::new() };
    let mut params = vec![];
    let mut unnamed = 0;
    // header
    {
        let h = lines[0];
        let at = h.find('@').unwrap();
        let r = &h[at..];
        let open = if r.as_bytes()[1] == b'"' { let q = r[2..].find('"').unwrap() + 3; q } else { r.find('(').unwrap() };
        let mut l = Lx::new(&r[open..]);
        l.expp(b'(');
        if !l.accp(b')') {
            loop {
                if l.accid("...") { break }
                let t = p.ty(&mut l);
                p.skip_attrs(&mut l);
                match l.peek() { T::Local(n) => { if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1 } l.next(); let k = f.reg(n); params.push((k, t)) } o => panic!("param {:?} in {}", o, h) }
                if !l.accp(b',') { break }
            }
        }
    }
    // gather logical lines per block
    let mut blks: Vec<(String, Vec<String>)> = vec![];
    let mut k = 1;
    while k < lines.len() {
        let s = lines[k];
        if s.is_empty() || s.starts_with(';') { k += 1; continue }
        if !s.starts_with(' ') {
            // label
            let e = if s.starts_with('"') { s[1..].find('"').unwrap() + 2 } else { s.find(':').unwrap() };
            blks.push((s[..e].trim_matches('"').to_string(), vec![]));
            k += 1;
            continue;
        }
        if s.trim_start().starts_with("#dbg") { k += 1; continue }
        if s.trim_start().starts_with(';') { k += 1; continue }
        let mut t = s.to_string();
        if s.contains("switch ") && s.trim_end().ends_with('[') {
            loop { k += 1; t.push(' '); t.push_str(lines[k]); if lines[k].trim_start().starts_with(']') { break } }
        }
        // invoke / landingpad continuation
        while k + 1 < lines.len() && lines[k + 1].starts_with("          ") { k += 1; t.push(' '); t.push_str(lines[k].trim_start()); }
        if blks.is_empty() { blks.push(("".into(), vec![])) }
        blks.last_mut().unwrap().1.push(t);
        k += 1;
    }
    // the unnamed entry block has the first unused number: harmless unless referred to, which LLVM forbids
    for (i, (n, _)) in blks.iter().enumerate() { f.blocks.insert(n.clone(), i as u32); }
    if blks[0].0.is_empty() { /* phis may name the entry block by number */ f.blocks.insert(format!("{}", unnamed), 0); }
    // phis: block -> [(dst, ty, [(opd, from)])]
    let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = vec![];
    for (_, ins) in &blks {
        let mut v = vec![];
        for s in ins {
            let Some(e) = s.find(" = phi ") else { if s.contains(" = ") || !s.trim_start().starts_with('%') { break } else { continue } };
            let mut l = Lx::new(s);
            let d = match l.next() { T::Local(n) => f.reg(n), _ => panic!() };
            let _ = e;
            l.expp(b'='); l.next();
            skip_flags(&mut l);
            let t = p.ty(&mut l);
            let mut inc = vec![];
            loop {
                l.expp(b'[');
                let o = p.opd(&mut f, &mut l, &t);
                l.expp(b',');
                let from = match l.next() { T::Local(n) => *f.blocks.get(n).unwrap_or_else(|| panic!("phi from {} in {}", n, lines[0])), o => panic!("phi {:?}", o) };
                l.expp(b']');
                inc.push((o, from));
                if !l.accp(b',') { break }
                if !l.isp(b'[') { break }
            }
            v.push((d, inc));
        }
        phis.push(v);
    }
    let edge = |to: u32, from: u32| -> Edge {
        let mut m = vec![];
        for (d, inc) in &phis[to as usize] {
            let o = inc.iter().find(|(_, b)| *b == from).unwrap_or_else(|| panic!("phi edge")).0.clone();
            if let Opd::R(r) = &o { if r == d { continue } }
            m.push((*d, o));
        }
        Edge { to, moves: m.into() }
    };
    let mut out = vec![];
    for (bi, (_, ins)) in blks.iter().enumerate() {
        let bi = bi as u32;
        let mut v = Vec::with_capacity(ins.len());
        let mut dv = Vec::with_capacity(ins.len());
        for s in ins {
            if s.contains(" = phi ") && s.trim_start().starts_with('%') && s.split(" = ").nth(1).map_or(false, |r| r.starts_with("phi ")) { continue }
            if let Some(i) = instr(p, &mut f, s, bi, &edge) { v.push(i); dv.push(dbg_of(s)); }
        }
        out.push(Block { ins: v, dbg: dv });
    }
    (params, f.regs.len() as u32, out)
}

fn instr(p: &mut P, f: &mut FnP, s: &str, bi: u32, edge: &dyn Fn(u32, u32) -> Edge) -> Option<I> {
    let mut lx = Lx::new(s);
    let l = &mut lx;
    let mut dst = None;
    if let T::Local(n) = l.peek() { l.next(); dst = Some(f.reg(n)); l.expp(b'='); }
    let mut op = match l.next() { T::Id(w) => w, o => panic!("instr {:?}: {}", o, s) };
    while matches!(op, "tail" | "musttail" | "notail") { op = match l.next() { T::Id(w) => w, o => panic!("{:?}", o) } }
    let d = dst.unwrap_or(u32::MAX);
    if let Some(b) = binop(op) {
        skip_flags(l);
        let t = p.ty(l);
        let a = p.opd(f, l, &t);
        l.expp(b',');
        let c = p.opd(f, l, &t);
        return Some(match &t { Ty::Vec(_, e) => I::VBin(b, e.bits(), d, a, c), _ => I::Bin(b, t.bits(), d, a, c) });
    }
    Some(match op {
        "icmp" => {
            skip_flags(l);
            let pr = match l.next() { T::Id(w) => pred(w), o => panic!("{:?}", o) };
            let t = p.ty(l);
            let a = p.opd(f, l, &t);
            l.expp(b',');
            let c = p.opd(f, l, &t);
            match &t { Ty::Vec(_, e) => I::VICmp(pr, e.bits(), d, a, c), _ => I::ICmp(pr, t.bits(), d, a, c) }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            skip_flags(l);
            let (t, a) = p.tyopd(f, l);
            assert!(l.accid("to"), "{}", s);
            let u = p.ty(l);
            if op == "bitcast" { return Some(I::Bitcast(t, u, d, a)) }
            if let (Ty::Vec(_, x), Ty::Vec(_, y)) = (&t, &u) {
                let k = match op { "zext" => CastOp::ZExt, "sext" => CastOp::SExt, _ => CastOp::Trunc };
                return Some(I::VCast(k, x.bits(), y.bits(), d, a));
            }
            let (x, y) = (t.bits(), u.bits());
            if x == y { return Some(I::Copy(d, a)) }
            let k = match op { "sext" => CastOp::SExt, _ => if y > x { CastOp::ZExt } else { CastOp::Trunc } };
            I::Cast(k, x, y, d, a)
        }
        "freeze" => { let (_, a) = p.tyopd(f, l); I::Copy(d, a) }
        "select" => {
            skip_flags(l);
            let (_, c) = p.tyopd(f, l);
            l.expp(b',');
            let (t, a) = p.tyopd(f, l);
            l.expp(b',');
            let (_, b) = p.tyopd(f, l);
            I::Select(d, c, a, b, t)
        }
        "load" => {
            skip_flags(l);
            let t = p.ty(l);
            l.expp(b',');
            let (_, a) = p.tyopd(f, l);
            I::Load(d, t, a)
        }
        "store" => {
            skip_flags(l);
            let (t, v) = p.tyopd(f, l);
            l.expp(b',');
            let (_, a) = p.tyopd(f, l);
            I::Store(t, v, a)
        }
        "alloca" => {
            let t = p.ty(l);
            let mut n = Opd::K(Val::C(1));
            let mut al = t.align();
            while l.accp(b',') {
                if l.accid("align") { if let T::Num(k) = l.next() { al = k.parse().unwrap() } }
                else if matches!(l.peek(), T::Meta(_)) { break }
                else { let (_, o) = p.tyopd(f, l); n = o }
            }
            I::Alloca(d, t.size(), al, n)
        }
        "getelementptr" => {
            skip_flags(l);
            let bt = p.ty(l);
            l.expp(b',');
            let (_, base) = p.tyopd(f, l);
            let mut off = 0i64;
            let mut terms = vec![];
            let mut cur = bt;
            let mut first = true;
            while l.accp(b',') {
                if matches!(l.peek(), T::Meta(_)) { break }
                let (it, o) = p.tyopd(f, l);
                let w = it.bits();
                let scale;
                if first { scale = cur.size() as i64; first = false }
                else {
                    if let Ty::St(..) = cur {
                        let i = match &o { Opd::K(v) => p.cu(v), _ => panic!("struct gep") };
                        off += cur.field_off(i) as i64;
                        cur = cur.field(i);
                        continue;
                    }
                    cur = cur.field(0);
                    scale = cur.size() as i64;
                }
                match &o {
                    Opd::K(v) => { let i = crate::expr::sext(p.cu(v) as u128, w) as i64; off += i * scale }
                    _ => terms.push((o, w, scale)),
                }
            }
            I::Gep(d, base, off, terms.into())
        }
        "call" | "invoke" => {
            // flags, cc, ret attrs
            skip_flags(l);
            loop {
                match l.peek() {
                    T::Id(w) if matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())) => break,
                    T::Id(_) => { l.next(); if l.isp(b'(') { l.skip_parens() } else if let T::Num(_) = l.peek() { l.next(); } }
                    T::Str(_) => { l.next(); }
                    _ => break,
                }
            }
            let rt = p.ty(l);
            if l.isid("asm") {
                // only empty inline assembly (optimisation barrier) is expected
                let t = s.contains("\"\", ");
                while !l.isp(b'(') { l.next(); }
                return Some(I::Call(dst, Callee::Intr(intr(if t { "asm.empty" } else { "asm" })), Box::new([]), rt, None));
            }
            let mut iname = String::new();
            let callee = match l.peek() {
                T::Global(g) => {
                    l.next();
                    if g.starts_with("llvm.") { iname = g.clone(); Callee::Intr(intr(&g)) }
                    else { Callee::Func(*p.fidx.get(&g).unwrap_or_else(|| panic!("callee {}", g))) }
                }
                _ => { let o = p.opd(f, l, &Ty::Ptr); Callee::Ind(o) }
            };
            l.expp(b'(');
            let mut args = vec![];
            if !l.accp(b')') {
                loop { let (t, o) = p.tyopd(f, l); args.push((o, t)); if !l.accp(b',') { break } }
                l.expp(b')');
            }
            let mut e = None;
            if op == "invoke" {
                while !l.isid("to") { if l.next() == T::End { panic!("invoke {}", s) } }
                l.next();
                let b = p.block(f, l);
                e = Some(edge(b, bi));
            } else if let Callee::Intr(_) = &callee {
                let n: &str = &iname;
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant") || n == "llvm.x86.sse2.pause" { return None }
            }
            I::Call(dst, callee, args.into(), rt, e)
        }
        "br" => {
            if l.isid("label") { let b = p.block(f, l); I::Br(edge(b, bi)) }
            else {
                let (_, c) = p.tyopd(f, l);
                l.expp(b',');
                let a = p.block(f, l);
                l.expp(b',');
                let b = p.block(f, l);
                I::CondBr(c, edge(a, bi), edge(b, bi))
            }
        }
        "switch" => {
            let (t, v) = p.tyopd(f, l);
            l.expp(b',');
            let def = p.block(f, l);
            l.expp(b'[');
            let mut cs = vec![];
            while !l.accp(b']') {
                let ct = p.ty(l);
                let k = p.konst(l, &ct);
                let k = p.cu(&k);
                l.expp(b',');
                let b = p.block(f, l);
                cs.push((k, edge(b, bi)));
            }
            cs.sort_by_key(|c| c.0);
            I::Switch(t.bits(), v, edge(def, bi), cs.into())
        }
        "ret" => {
            if l.isid("void") { I::Ret(None) } else { let (_, o) = p.tyopd(f, l); I::Ret(Some(o)) }
        }
        "unreachable" => I::Unreachable,
        "landingpad" => I::Copy(d, Opd::K(Val::C(0))),
        "resume" => I::Unreachable,
        "extractvalue" => {
            let (_, a) = p.tyopd(f, l);
            let mut ix = vec![];
            while l.accp(b',') { match l.next() { T::Num(n) => ix.push(n.parse().unwrap()), _ => break } }
            I::ExtractValue(d, a, ix.into())
        }
        "insertvalue" => {
            let (_, a) = p.tyopd(f, l);
            l.expp(b',');
            let (_, v) = p.tyopd(f, l);
            let mut ix = vec![];
            while l.accp(b',') { match l.next() { T::Num(n) => ix.push(n.parse().unwrap()), _ => break } }
            I::InsertValue(d, a, v, ix.into())
        }
        "extractelement" => {
            let (_, a) = p.tyopd(f, l);
            l.expp(b',');
            let (_, i) = p.tyopd(f, l);
            I::ExtractElt(d, a, i)
        }
        "insertelement" => {
            let (_, a) = p.tyopd(f, l);
            l.expp(b',');
            let (_, v) = p.tyopd(f, l);
            l.expp(b',');
            let (_, i) = p.tyopd(f, l);
            I::InsertElt(d, a, v, i)
        }
        "shufflevector" => {
            let (_, a) = p.tyopd(f, l);
            l.expp(b',');
            let (_, b) = p.tyopd(f, l);
            l.expp(b',');
            let t = p.ty(l);
            let n = match &t { Ty::Vec(n, _) => *n, _ => panic!() };
            let m: Vec<i32> = if l.isid("poison") || l.isid("undef") || l.isid("zeroinitializer") { vec![0; n as usize] } else {
                // elements may be poison
                let mut m = vec![];
                if l.isid("splat") { let v = p.konst(l, &t); if let Val::A(a) = v { for e in a.iter() { m.push(p.cu(e) as i32) } } }
                else {
                    l.expp(b'<');
                    loop { let et = p.ty(l); let v = p.konst(l, &et); m.push(p.cu(&v) as i32); if !l.accp(b',') { break } }
                    l.expp(b'>');
                }
                m
            };
            I::Shuffle(d, a, b, m.into())
        }
        "fence" => return None,
        "atomicrmw" => {
            skip_flags(l);
            let o = match l.next() { T::Id(w) => w, o => panic!("{:?}", o) };
            let (_, a) = p.tyopd(f, l);
            l.expp(b',');
            let (t, v) = p.tyopd(f, l);
            I::Rmw(o.into(), t.bits(), d, a, v)
        }
        "cmpxchg" => {
            skip_flags(l);
            let (_, a) = p.tyopd(f, l);
            l.expp(b',');
            let (t, c) = p.tyopd(f, l);
            l.expp(b',');
            let (_, n) = p.tyopd(f, l);
            I::CmpXchg(t.bits(), d, a, c, n)
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            skip_flags(l);
            let t = p.ty(l);
            let a = p.opd(f, l, &t);
            l.expp(b',');
            let b = p.opd(f, l, &t);
            I::FBin(op.into(), t, d, a, b)
        }
        "fneg" => { skip_flags(l); let (t, a) = p.tyopd(f, l); I::FBin("fneg".into(), t, d, a.clone(), a) }
        "fcmp" => {
            skip_flags(l);
            let o = match l.next() { T::Id(w) => w, o => panic!("{:?}", o) };
            let t = p.ty(l);
            let a = p.opd(f, l, &t);
            l.expp(b',');
            let b = p.opd(f, l, &t);
            I::FCmp(o.into(), t, d, a, b)
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            skip_flags(l);
            let (t, a) = p.tyopd(f, l);
            assert!(l.accid("to"));
            let u = p.ty(l);
            I::FCast(op.into(), t, u, d, a)
        }
        o => panic!("unsupported instruction {}: {}", o, s),
    })
}
