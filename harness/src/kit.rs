//! Running commands, and the selections they work on.
#![allow(dead_code)]
use super::{spec, sym};
pub use super::spec::{Block, Meta, Obj, Timer, Var};
use super::world::Map;
use crate::instance::{spawn_compute_thread, InstArgs, LogType, ServerEvent};
use crate::spatial::{Area, Vec3};

#[derive(Clone, Debug, Default)]
pub struct Run { pub logs: Vec<(char, String)>, pub panicked: bool, pub total: usize, pub done: usize, pub failed: usize, pub asked: usize }
impl Run {
    pub fn has(&self, kind: char, text: &str) -> bool { self.logs.iter().any(|l| l.0 == kind && l.1 == text) }
    pub fn errors(&self) -> usize { self.logs.iter().filter(|l| l.0 == 'e').count() }
    /// Completed normally.
    pub fn ok(&self) -> bool { !self.panicked && self.errors() == 0 && self.has('i', "Done.") }
    pub fn skipped(&self) -> Option<&str> { self.logs.iter().filter(|l| l.0 == 'i').find_map(|l| l.1.strip_prefix("Skipped ")?.strip_suffix(" invalid/unsupported mapblocks.")) }
}
pub fn args(cmd: &str, m: &Map) -> InstArgs {
    InstArgs { do_confirmation: false, command: cmd.to_string(), map_path: m.file.clone(), input_map_path: None, area: None, invert: false, offset: None, node: None, nodes: vec![], new_node: None,
        object: None, item: None, items: None, new_item: None, delete: false, delete_meta: false, key: None, value: None, param2: None }
}
pub fn run_answer(a: InstArgs, answer: bool) -> Run {
    let (h, st) = spawn_compute_thread(a);
    let mut r = Run::default();
    while let Ok(e) = st.receiver().recv() {
        match e {
            ServerEvent::Log(t, s) => r.logs.push((match t { LogType::Info => 'i', LogType::Warning => 'w', LogType::Error => 'e' }, s)),
            ServerEvent::NewState(_) => {}
            ServerEvent::ConfirmRequest => { r.asked += 1; st.send_confirmation(answer) }
        }
    }
    r.panicked = h.join().is_err();
    if !r.panicked {
        let s = st.get_status();
        r.total = s.blocks_total;
        r.done = s.blocks_done;
        r.failed = s.blocks_failed;
    }
    r
}
pub fn run(a: InstArgs) -> Run { run_answer(a, true) }

pub type P3 = [i32; 3];
pub fn v3(p: P3) -> Vec3 { Vec3 { x: p[0], y: p[1], z: p[2] } }
pub fn key(p: P3) -> i64 { p[0] as i64 + 4096 * p[1] as i64 + 16777216 * p[2] as i64 }

/// A box of nodes.
#[derive(Clone, Copy, Debug)]
pub struct Bx { pub lo: P3, pub hi: P3 }
impl Bx {
    pub fn area(&self) -> Area { Area { min: v3(self.lo), max: v3(self.hi) } }
    pub fn has(&self, p: P3) -> bool { (self.lo[0] <= p[0]) & (p[0] <= self.hi[0]) & (self.lo[1] <= p[1]) & (p[1] <= self.hi[1]) & (self.lo[2] <= p[2]) & (p[2] <= self.hi[2]) }
    /// Which of a block's nodes are in the box.
    pub fn mask(&self, b: P3) -> Vec<bool> {
        let mut ax = [[false; 16]; 3];
        for k in 0..3 { for i in 0..16 { let v = 16 * b[k] + i as i32; ax[k][i] = (self.lo[k] <= v) & (v <= self.hi[k]) } }
        let mut m = Vec::with_capacity(4096);
        for z in 0..16 { for y in 0..16 { let zy = ax[2][z] & ax[1][y]; for x in 0..16 { m.push(zy & ax[0][x]) } } }
        m
    }
}
/// A selection: everything, a box, or everything else.
#[derive(Clone, Copy, Debug)]
pub struct Sel { pub bx: Option<Bx>, pub invert: bool }
impl Sel {
    pub fn mask(&self, b: P3) -> Vec<bool> {
        match self.bx { None => vec![true; 4096], Some(x) => { let mut m = x.mask(b); if self.invert { for v in m.iter_mut() { *v = !*v } } m } }
    }
    pub fn node(&self, b: P3, i: usize) -> bool {
        let l = spec::xyz(i);
        match self.bx { None => true, Some(x) => x.has([16 * b[0] + l[0], 16 * b[1] + l[1], 16 * b[2] + l[2]]) != self.invert }
    }
    pub fn set(&self, a: &mut InstArgs) { a.area = self.bx.map(|b| b.area()); a.invert = self.invert }
}
/// Where a scene takes place: blocks at the origin, on the negative side, and at the map's two limits.
pub const PLACES: [P3; 4] = [[0, 0, 0], [-3, 4, -1], [1937, -7, 2], [5, -1937, 1937]];
/// Spans of an axis as seen from a block whose first node is at `c`.
pub fn span(c: i32, class: usize) -> (i32, i32) {
    match class { 0 => (c - 20, c + 40), 1 => (c, c + 15), 2 => (c + 3, c + 9), 3 => (c + 8, c + 30), 4 => (c + 15, c + 15), 5 => (c - 9, c), _ => (c - 40, c - 30) }
}
pub fn within(v: i32) -> i32 { if v < -31000 { -31000 } else if v > 31000 { 31000 } else { v } }
/// A box whose extent along axis `ax` is every pair within `c - below ..= c + above` (`c`: the first node of block `b`);
/// the other two axes have the given classes.
pub fn one_axis(b: P3, ax: usize, cl: [usize; 2], below: i32, above: i32) -> Bx {
    let mut x = Bx { lo: [0; 3], hi: [0; 3] };
    let mut k = 0;
    for a in 0..3 {
        let c = 16 * b[a];
        if a == ax {
            x.lo[a] = sym::extent("lo", within(c - below), within(c + above));
            x.hi[a] = sym::extent("hi", within(c - below), within(c + above));
            sym::assume(x.lo[a] <= x.hi[a]);
        } else {
            let (l, h) = span(c, cl[k]);
            x.lo[a] = within(l);
            x.hi[a] = within(h);
            k += 1;
        }
    }
    x
}
/// A place, an axis, kinds of extents along the other axes, and whether the selection is inverted: all combinations, or
/// a quarter of them in which each place meets each axis and both kinds of selection.
pub fn corner(classes: &[[usize; 2]], all: bool) -> (P3, usize, [usize; 2], bool) {
    let (ax, cl, inv) = (sym::choose("axis", 3), sym::choose("class", classes.len()), sym::choose("invert", 2));
    let pl = if all { sym::choose("place", 4) } else { (ax + 2 * inv + cl) % 4 };
    (PLACES[pl], ax, classes[cl], inv == 1)
}
/// The stored blocks of a map: what they were before the command.
pub struct W { pub m: Map, pub bl: Vec<(P3, Block)>, pub raw: Vec<(i64, Vec<u8>)> }
pub fn world(name: &str) -> W { W { m: super::world::new(name), bl: vec![], raw: vec![] } }
impl W {
    pub fn add(&mut self, p: P3, mut b: Block) { if b.ver < 28 { for m in b.meta.iter_mut() { for v in m.vars.iter_mut() { v.private = 0 } } } let d = spec::encode(&b); self.m.put(key(p), &d); self.raw.push((key(p), d)); self.bl.push((p, b)) }
    pub fn add_raw(&mut self, p: P3, d: &[u8]) { self.m.put(key(p), d); self.raw.push((key(p), d.to_vec())) }
    pub fn before(&self, k: i64) -> Option<&[u8]> { self.raw.iter().find(|r| r.0 == k).map(|r| r.1.as_slice()) }
    pub fn block(&self, p: P3) -> Option<&Block> { self.bl.iter().find(|b| b.0 == p).map(|b| &b.1) }
    /// The same keys are stored as before.
    pub fn same_keys(&self, rows: &[(i64, Vec<u8>)]) -> bool { rows.len() == self.raw.len() && self.raw.iter().all(|r| rows.iter().any(|x| x.0 == r.0)) }
    pub fn same(&self, rows: &[(i64, Vec<u8>)], k: i64) -> bool { match (self.before(k), row(rows, k)) { (Some(a), Some(b)) => sym::eq(a, b), (None, None) => true, _ => false } }
    /// Nothing at all is different.
    pub fn same_all(&self, rows: &[(i64, Vec<u8>)]) -> bool { let mut ok = self.same_keys(rows); for r in &self.raw { ok &= self.same(rows, r.0) } ok }
}
pub fn row(rows: &[(i64, Vec<u8>)], k: i64) -> Option<&[u8]> { rows.iter().find(|r| r.0 == k).map(|r| r.1.as_slice()) }
pub fn read(rows: &[(i64, Vec<u8>)], p: P3) -> Option<Block> { spec::decode(row(rows, key(p))?) }
pub fn unit(ax: usize) -> P3 { let mut u = [0; 3]; u[ax] = 1; u }
pub fn add(a: P3, b: P3) -> P3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: P3, b: P3) -> P3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
/// The neighbour of `b` along an axis that is still within the map.
pub fn next_to(b: P3, ax: usize) -> P3 { if b[ax] >= 1937 { sub(b, unit(ax)) } else { add(b, unit(ax)) } }

pub const AIR: &[u8] = b"air";
pub const OLD: &[u8] = b"default:stone";
pub const NEW: &[u8] = b"mod:new";
pub const BAR: &[u8] = b"a:bar_2";
const fn longish(last: u8) -> [u8; 300] { let mut a = [b'n'; 300]; a[0] = b'm'; a[1] = b':'; a[20] = b'k'; a[299] = last; a }
/// Names whose length takes two bytes.
pub const LONG: &[u8] = &longish(b'1');
pub const LONGER: &[u8] = &longish(b'2');
/// Every name that occurs, as numbers: 0 to 5.
pub const NAMES: &[&[u8]] = &[AIR, OLD, NEW, BAR, LONG, LONGER];
/// Name tables which differ in whether and where the old and the new name stand; beyond `TABLES`, some with long names.
pub const TABLES: usize = 9;
pub fn table(k: usize) -> Vec<(u16, Vec<u8>)> {
    let t: &[(u16, &[u8])] = match k {
        0 => &[(0, AIR), (1, OLD)],
        1 => &[(0, NEW), (1, AIR), (2, OLD)],
        2 => &[(0, OLD), (1, AIR), (2, NEW)],
        3 => &[(0, AIR), (1, NEW), (2, BAR), (3, OLD)],
        4 => &[(3, AIR), (7, OLD), (9, BAR)],
        5 => &[(0, OLD)],
        6 => &[(0, AIR), (1, BAR)],
        7 => &[(0, BAR), (1, OLD), (2, NEW), (3, AIR)],
        8 => &[(0, OLD), (1, BAR), (4095, AIR)],
        9 => &[(0, AIR), (1, LONG), (2, OLD)],
        10 => &[(0, LONGER), (3, LONG), (5, NEW)],
        _ => &[(0, BAR), (1, LONGER)],
    };
    t.iter().map(|(i, n)| (*i, n.to_vec())).collect()
}
/// The nodes of a block whose ids are symbolic.
pub const SPOTS: [usize; 3] = [0, 5 + 16 * 3 + 256 * 4, 4095];
/// Any id of the table.
pub fn any_id(n: &str, t: &[(u16, Vec<u8>)]) -> u16 {
    let v = sym::u16(n);
    let mut ok = false;
    for (i, _) in t { ok |= v == *i }
    sym::assume(ok);
    v
}
pub fn inv(items: &[&str]) -> Vec<u8> {
    let mut v = format!("List main {}\nWidth 0\n", items.len()).into_bytes();
    for i in items { v.extend_from_slice(i.as_bytes()); v.push(b'\n') }
    v.extend_from_slice(b"EndInventoryList\nEndInventory\n");
    v
}
pub fn var(n: &str, v: &str, p: u8) -> Var { Var { name: n.as_bytes().to_vec(), val: v.as_bytes().to_vec(), private: p } }
pub fn entity(name: &str, data: &str) -> Vec<u8> {
    let mut v = vec![1, (name.len() >> 8) as u8, name.len() as u8];
    v.extend_from_slice(name.as_bytes());
    v.extend_from_slice(&(data.len() as u32).to_be_bytes());
    v.extend_from_slice(data.as_bytes());
    v.extend_from_slice(&[0, 1, 0, 0, 0, 0, 0, 0, 0, 0]);
    v
}
/// A block with something in each of its parts. Its nodes alternate between the first two names; `n` of the SPOTS have
/// symbolic ids.
pub fn rich(ver: u8, t: usize, tag: &str, n: usize) -> Block {
    let mut b = Block::new(ver, AIR);
    b.names = table(t);
    b.flags = 0x02;
    b.light = if ver >= 27 { 0x1234 } else { 0xFFFF };
    b.time = 0x0102_0304;
    let (p, q) = (b.names[0].0, b.names[b.names.len() / 2].0);
    for i in 0..4096 { b.ids[i] = if i % 3 == 1 { q } else { p }; b.p1[i] = (i / 7) as u8; b.p2[i] = (i % 251) as u8 }
    for k in 0..n { b.ids[SPOTS[k]] = any_id(&format!("{}.id{}", tag, k), &b.names.clone()) }
    b.meta.push(Meta { pos: 1283, vars: vec![var("infotext", "hello", 0), var("k", "v", (ver >= 28) as u8)], inv: inv(&["Item default:stone 7", "Empty"]) });
    b.objs.push(Obj { kind: 7, pos: [10_000 * 3, -20_000, 55_555], data: entity("mobs:cow", "return {}") });
    b.timers.push(Timer { pos: 77, timeout: 5000, elapsed: 1234 });
    b
}
/// Bytes as a hexadecimal digest, for comparing runs of the model with the real program.
pub fn note(label: &str, b: &[u8]) { sym::observe(label, b) }
pub fn note_run(r: &Run) {
    for (i, l) in r.logs.iter().enumerate() { sym::observe(&format!("log{}", i), l.1.as_bytes()) }
    sym::observe("counts", &[r.panicked as u8, r.total as u8, r.done as u8, r.failed as u8]);
}
pub fn note_map(m: &Map) {
    for (k, d) in m.rows() {
        if let Some(b) = spec::decode(&d) {
            let mut v = vec![b.ver, b.flags, (b.light >> 8) as u8, b.light as u8];
            for (i, n) in &b.names { v.push(*i as u8); v.extend_from_slice(n) }
            for t in &b.timers { v.push(t.pos as u8); v.push(t.elapsed as u8) }
            for o in &b.objs { v.push(o.pos[0] as u8); v.extend_from_slice(&o.data) }
            for t in &b.meta { v.push(t.pos as u8); v.push(t.vars.len() as u8); v.extend_from_slice(&t.inv) }
            let mut s = [0u8; 3];
            for i in 0..4096 { let w = (i as u8) | 1; s[0] = s[0].wrapping_add((b.ids[i] as u8).wrapping_mul(w)); s[1] = s[1].wrapping_add(b.p1[i].wrapping_mul(w)); s[2] = s[2].wrapping_add(b.p2[i].wrapping_mul(w)) }
            v.extend_from_slice(&s);
            sym::observe(&format!("block{}", k), &v)
        } else { sym::observe(&format!("raw{}", k), &[d.len().min(3) as u8]) }
    }
}
/// Is `s` the number `n`: exactly below 1000, and to three significant digits with a unit from there on?
pub fn shows(s: &str, n: u64) -> bool {
    let b = s.as_bytes();
    if b.is_empty() { return false }
    let (num, unit) = match b[b.len() - 1] { b'k' => (&b[..b.len() - 1], 1_000u64), b'M' => (&b[..b.len() - 1], 1_000_000), b'B' => (&b[..b.len() - 1], 1_000_000_000), b'T' => (&b[..b.len() - 1], 1_000_000_000_000), _ => (b, 1) };
    let (mut v, mut places, mut dot, mut digits) = (0u64, 1u64, false, 0);
    for c in num {
        match c { b'0'..=b'9' => { v = v * 10 + (*c - b'0') as u64; digits += 1; if dot { places *= 10 } } b'.' if !dot && digits > 0 => dot = true, _ => return false }
    }
    if digits == 0 || digits > 7 { return false }
    if n < 1000 { return unit == 1 && !dot && v == n as u64 }
    // the third significant digit
    let mut third = 1u64;
    while (n as u64) / third >= 1000 { third *= 10 }
    let (shown, real) = (v * unit / places, n as u64);
    let diff = if shown > real { shown - real } else { real - shown };
    // half of it, and what single precision may add to that
    let exact = v * unit % places == 0;
    exact && num[0] != b'0' && digits >= 3 && diff * 2 <= third + third / 100 + real / 4_000_000
}
