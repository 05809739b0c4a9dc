//! An independent reading and writing of the stored map block format.
#![allow(dead_code)]
use super::sym::eq;
use super::world::{deflate, inflate, unzstd, zstd};

#[derive(Clone, Debug)]
pub struct Var { pub name: Vec<u8>, pub val: Vec<u8>, pub private: u8 }
#[derive(Clone, Debug)]
pub struct Meta { pub pos: u16, pub vars: Vec<Var>, pub inv: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Obj { pub kind: u8, pub pos: [i32; 3], pub data: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Timer { pub pos: u16, pub timeout: u32, pub elapsed: u32 }
#[derive(Clone, Debug)]
pub struct Block {
    pub ver: u8, pub flags: u8, pub light: u16, pub time: u32, pub names: Vec<(u16, Vec<u8>)>,
    pub ids: Vec<u16>, pub p1: Vec<u8>, pub p2: Vec<u8>, pub meta: Vec<Meta>, pub objs: Vec<Obj>, pub timers: Vec<Timer>,
}
pub const END: &[u8] = b"EndInventory\n";
pub const NONE: u32 = 0xFFFF;

fn p16(o: &mut Vec<u8>, v: u16) { o.push((v >> 8) as u8); o.push(v as u8) }
fn p32(o: &mut Vec<u8>, v: u32) { p16(o, (v >> 16) as u16); p16(o, v as u16) }
fn s16(o: &mut Vec<u8>, s: &[u8]) { p16(o, s.len() as u16); o.extend_from_slice(s) }
fn s32(o: &mut Vec<u8>, s: &[u8]) { p32(o, s.len() as u32); o.extend_from_slice(s) }

pub fn e_names(n: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![0];
    p16(&mut o, n.len() as u16);
    for (i, s) in n { p16(&mut o, *i); s16(&mut o, s) }
    o
}
pub fn e_nodes(b: &Block) -> Vec<u8> {
    let mut o = Vec::with_capacity(4 * b.ids.len());
    for i in &b.ids { p16(&mut o, *i) }
    o.extend_from_slice(&b.p1);
    o.extend_from_slice(&b.p2);
    o
}
pub fn e_meta(b: &Block) -> Vec<u8> {
    if b.meta.is_empty() { return vec![0] }
    let v2 = b.ver >= 28;
    let mut o = vec![if v2 { 2 } else { 1 }];
    p16(&mut o, b.meta.len() as u16);
    for m in &b.meta {
        p16(&mut o, m.pos);
        p32(&mut o, m.vars.len() as u32);
        for v in &m.vars { s16(&mut o, &v.name); s32(&mut o, &v.val); if v2 { o.push(v.private) } }
        o.extend_from_slice(&m.inv);
    }
    o
}
pub fn e_objs(b: &Block) -> Vec<u8> {
    let mut o = vec![0];
    p16(&mut o, b.objs.len() as u16);
    for x in &b.objs { o.push(x.kind); for c in x.pos { p32(&mut o, c as u32) } s16(&mut o, &x.data) }
    o
}
pub fn e_timers(b: &Block) -> Vec<u8> {
    let mut o = vec![10];
    p16(&mut o, b.timers.len() as u16);
    for t in &b.timers { p16(&mut o, t.pos); p32(&mut o, t.timeout); p32(&mut o, t.elapsed) }
    o
}
/// Everything after the version byte of a version 29 block, before compression.
pub fn body29(b: &Block) -> Vec<u8> {
    let mut r = vec![b.flags];
    p16(&mut r, b.light);
    p32(&mut r, b.time);
    r.extend(e_names(&b.names));
    r.push(2);
    r.push(2);
    r.extend(e_nodes(b));
    r.extend(e_meta(b));
    r.extend(e_objs(b));
    r.extend(e_timers(b));
    r
}
pub fn encode(b: &Block) -> Vec<u8> {
    let mut o = vec![b.ver];
    if b.ver >= 29 { o.extend(zstd(&body29(b))); return o }
    o.push(b.flags);
    if b.ver >= 27 { p16(&mut o, b.light) }
    o.push(2);
    o.push(2);
    o.extend(deflate(&e_nodes(b)));
    o.extend(deflate(&e_meta(b)));
    o.extend(e_objs(b));
    p32(&mut o, b.time);
    o.extend(e_names(&b.names));
    o.extend(e_timers(b));
    o
}

struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn n(&mut self, n: usize) -> Option<&'a [u8]> { if self.b.len() - self.p < n { return None } let r = &self.b[self.p..self.p + n]; self.p += n; Some(r) }
    fn u8(&mut self) -> Option<u8> { Some(self.n(1)?[0]) }
    fn u16(&mut self) -> Option<u16> { let x = self.n(2)?; Some((x[0] as u16) << 8 | x[1] as u16) }
    fn u32(&mut self) -> Option<u32> { let a = self.u16()?; let b = self.u16()?; Some((a as u32) << 16 | b as u32) }
    fn s16(&mut self) -> Option<Vec<u8>> { let n = self.u16()?; Some(self.n(n as usize)?.to_vec()) }
    fn s32(&mut self) -> Option<Vec<u8>> { let n = self.u32()?; Some(self.n(n as usize)?.to_vec()) }
}
fn d_names(r: &mut Rd) -> Option<Vec<(u16, Vec<u8>)>> {
    if r.u8()? != 0 { return None }
    let n = r.u16()?;
    let mut v = Vec::new();
    for _ in 0..n { let i = r.u16()?; let s = r.s16()?; v.push((i, s)) }
    Some(v)
}
fn d_nodes(r: &mut Rd) -> Option<(Vec<u16>, Vec<u8>, Vec<u8>)> {
    let x = r.n(8192)?;
    let ids = (0..4096).map(|i| (x[2 * i] as u16) << 8 | x[2 * i + 1] as u16).collect();
    Some((ids, r.n(4096)?.to_vec(), r.n(4096)?.to_vec()))
}
fn d_meta(r: &mut Rd) -> Option<Vec<Meta>> {
    let ver = r.u8()?;
    if ver == 0 { return Some(vec![]) }
    if ver > 2 { return None }
    let n = r.u16()?;
    let mut out = Vec::new();
    for _ in 0..n {
        let pos = r.u16()?;
        let k = r.u32()?;
        let mut vars = Vec::new();
        for _ in 0..k { let name = r.s16()?; let val = r.s32()?; let private = if ver == 2 { r.u8()? } else { 0 }; vars.push(Var { name, val, private }) }
        // the inventory ends with the first line end after its terminator
        let mut e = r.p;
        loop {
            if r.b.len() < e + END.len() { return None }
            if &r.b[e..e + END.len()] == END { break }
            e += 1;
        }
        let inv = r.n(e + END.len() - r.p)?.to_vec();
        out.push(Meta { pos, vars, inv });
    }
    Some(out)
}
fn d_objs(r: &mut Rd) -> Option<Vec<Obj>> {
    if r.u8()? != 0 { return None }
    let n = r.u16()?;
    let mut v = Vec::new();
    for _ in 0..n { let kind = r.u8()?; let pos = [r.u32()? as i32, r.u32()? as i32, r.u32()? as i32]; let data = r.s16()?; v.push(Obj { kind, pos, data }) }
    Some(v)
}
fn d_timers(r: &mut Rd) -> Option<Vec<Timer>> {
    if r.u8()? != 10 { return None }
    let n = r.u16()?;
    let mut v = Vec::new();
    for _ in 0..n { let pos = r.u16()?; let timeout = r.u32()?; let elapsed = r.u32()?; v.push(Timer { pos, timeout, elapsed }) }
    Some(v)
}
/// A stored block, if it is exactly one well-formed block with nothing after it.
pub fn decode(data: &[u8]) -> Option<Block> {
    if data.is_empty() { return None }
    let ver = data[0];
    if ver < 25 || ver > 29 { return None }
    if ver == 29 {
        let raw = unzstd(&data[1..])?;
        let mut r = Rd { b: &raw, p: 0 };
        let flags = r.u8()?;
        let light = r.u16()?;
        let time = r.u32()?;
        let names = d_names(&mut r)?;
        if r.u8()? != 2 || r.u8()? != 2 { return None }
        let (ids, p1, p2) = d_nodes(&mut r)?;
        let meta = d_meta(&mut r)?;
        let objs = d_objs(&mut r)?;
        let timers = d_timers(&mut r)?;
        if r.p != raw.len() { return None }
        return Some(Block { ver, flags, light, time, names, ids, p1, p2, meta, objs, timers });
    }
    let mut r = Rd { b: data, p: 1 };
    let flags = r.u8()?;
    let light = if ver >= 27 { r.u16()? } else { 0xFFFF };
    if r.u8()? != 2 || r.u8()? != 2 { return None }
    let (raw, n) = inflate(&data[r.p..])?;
    r.p += n;
    let mut q = Rd { b: &raw, p: 0 };
    let (ids, p1, p2) = d_nodes(&mut q)?;
    if q.p != raw.len() { return None }
    let (raw, n) = inflate(&data[r.p..])?;
    r.p += n;
    let mut q = Rd { b: &raw, p: 0 };
    let meta = d_meta(&mut q)?;
    if q.p != raw.len() { return None }
    let objs = d_objs(&mut r)?;
    let time = r.u32()?;
    let names = d_names(&mut r)?;
    let timers = d_timers(&mut r)?;
    if r.p != data.len() { return None }
    Some(Block { ver, flags, light, time, names, ids, p1, p2, meta, objs, timers })
}

pub fn idx(x: i32, y: i32, z: i32) -> usize { (x + 16 * y + 256 * z) as usize }
pub fn xyz(i: usize) -> [i32; 3] { [(i & 15) as i32, (i >> 4 & 15) as i32, (i >> 8 & 15) as i32] }

impl Block {
    /// A block of one node throughout.
    pub fn new(ver: u8, name: &[u8]) -> Block {
        Block { ver, flags: 0, light: 0xFFFF, time: 77, names: vec![(0, name.to_vec())], ids: vec![0; 4096], p1: vec![0x0F; 4096], p2: vec![0; 4096], meta: vec![], objs: vec![], timers: vec![] }
    }
    /// The names as small numbers: the index in `u` of the first name with the id (NONE: no name, or not in `u`).
    pub fn codes(&self, u: &[&[u8]]) -> Vec<(u16, u32)> {
        self.names.iter().map(|(i, n)| (*i, u.iter().position(|x| eq(x, n)).map_or(NONE, |k| k as u32))).collect()
    }
}
/// The number of node `id`'s name, without branching.
pub fn code(t: &[(u16, u32)], id: u16) -> u32 {
    let mut c = NONE;
    for (i, k) in t { let m = u32::wrapping_sub(0, std::hint::black_box(*i == id) as u32); c = c & !m | *k & m }
    c
}
pub fn eq_head(a: &Block, b: &Block) -> bool { (a.ver == b.ver) & (a.flags == b.flags) & (a.light == b.light) & (a.time == b.time) }
pub fn eq_objs(a: &[Obj], b: &[Obj]) -> bool {
    if a.len() != b.len() { return false }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) { ok &= (x.kind == y.kind) & (x.pos[0] == y.pos[0]) & (x.pos[1] == y.pos[1]) & (x.pos[2] == y.pos[2]) & eq(&x.data, &y.data) }
    ok
}
pub fn eq_timers(a: &[Timer], b: &[Timer]) -> bool {
    if a.len() != b.len() { return false }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) { ok &= (x.pos == y.pos) & (x.timeout == y.timeout) & (x.elapsed == y.elapsed) }
    ok
}
pub fn eq_var(a: &Var, b: &Var) -> bool { eq(&a.name, &b.name) & eq(&a.val, &b.val) & ((a.private != 0) == (b.private != 0)) }
/// The same variables in whatever order (names are distinct in each).
pub fn eq_vars(a: &[Var], b: &[Var]) -> bool {
    if a.len() != b.len() { return false }
    let mut ok = true;
    if a.len() > 300 {
        // so many only with names that are known
        let (mut a, mut b): (Vec<&Var>, Vec<&Var>) = (a.iter().collect(), b.iter().collect());
        a.sort_by(|x, y| x.name.cmp(&y.name));
        b.sort_by(|x, y| x.name.cmp(&y.name));
        for (x, y) in a.iter().zip(&b) { ok &= eq_var(x, y) }
        return ok
    }
    for x in a { let mut any = false; for y in b { any |= eq_var(x, y) } ok &= any }
    for x in b { let mut any = false; for y in a { any |= eq_var(x, y) } ok &= any }
    ok
}
/// Metadata without variables and without inventory lists is no metadata.
pub fn full(m: &Meta) -> bool { !(m.vars.is_empty() && eq(&m.inv, END)) }
pub fn eq_meta1(a: &Meta, b: &Meta) -> bool { (a.pos == b.pos) & eq_vars(&a.vars, &b.vars) & eq(&a.inv, &b.inv) }
/// The same metadata, in whatever order and not counting empty ones.
pub fn eq_meta(a: &[Meta], b: &[Meta]) -> bool {
    let a: Vec<&Meta> = a.iter().filter(|m| full(m)).collect();
    let b: Vec<&Meta> = b.iter().filter(|m| full(m)).collect();
    if a.len() != b.len() { return false }
    let mut ok = true;
    for (i, x) in a.iter().enumerate() {
        // usually in the same order
        if x.pos == b[i].pos { ok &= eq_meta1(x, b[i]); continue }
        let mut any = false;
        for (j, y) in b.iter().enumerate() { if j != i { any |= eq_meta1(x, y) } }
        ok &= any;
    }
    ok
}
/// The same node names, given as numbers.
pub fn eq_names(a: &Block, b: &Block, u: &[&[u8]]) -> bool {
    if u.len() > 512 {
        // so many only with names and ids that are known
        let by = |x: &Block| { let mut t: Vec<Vec<u8>> = vec![vec![]; 65536]; for (i, n) in &x.names { t[*i as usize] = n.clone() } t };
        let (ta, tb) = (by(a), by(b));
        let mut ok = true;
        for i in 0..4096 { let (x, y) = (&ta[a.ids[i] as usize], &tb[b.ids[i] as usize]); ok &= !x.is_empty() & eq(x, y) }
        return ok
    }
    let (ta, tb) = (a.codes(u), b.codes(u));
    let mut bad = 0;
    for i in 0..4096 { let (x, y) = (code(&ta, a.ids[i]), code(&tb, b.ids[i])); bad |= (x ^ y) | (x >> 15) }
    bad == 0
}
/// Everything but the nodes' names.
pub fn eq_rest(a: &Block, b: &Block) -> bool { eq_head(a, b) & eq(&a.p1, &b.p1) & eq(&a.p2, &b.p2) & eq_meta(&a.meta, &b.meta) & eq_objs(&a.objs, &b.objs) & eq_timers(&a.timers, &b.timers) }
/// Each node's id has a name, no id or name appears twice, and no id is so large that the program refuses the block.
pub fn consistent(b: &Block) -> bool {
    let mut ok = true;
    for (i, x) in b.names.iter().enumerate() { for y in &b.names[..i] { ok &= (x.0 != y.0) & !eq(&x.1, &y.1) } }
    for n in &b.names { ok &= n.0 < 4096 }
    for id in &b.ids { let mut any = false; for n in &b.names { any |= n.0 == *id } ok &= any }
    ok
}
/// Name table lists which are the same up to order.
pub fn eq_tables(a: &[(u16, Vec<u8>)], b: &[(u16, Vec<u8>)]) -> bool {
    if a.len() != b.len() { return false }
    let mut ok = true;
    for x in a { let mut any = false; for y in b { any |= (x.0 == y.0) & eq(&x.1, &y.1) } ok &= any }
    ok
}
