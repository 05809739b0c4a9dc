//! Blocks that cannot be read (C02).
use super::kit::*;
use super::spec::{self, Block};
use super::{sym, world};
use crate::instance::InstArgs;

entries! { c02_cut, c02_field, c02_short, c02_odd, c02_cut_all, c02_field_all }

#[derive(Clone, Copy, PartialEq, Debug)]
enum J { FillPart, FillAll, Replace, ReplaceArea, Param2, Meta, Timers, Objects, SetVar, Inv, CloneFrom, CloneTo, OverFrom, OverTo, OverFromInv, OverToInv, OffFrom, OffTo }
const JOBS: [J; 18] = [J::FillPart, J::CloneFrom, J::Param2, J::OverTo, J::Meta, J::OffFrom, J::Timers, J::Replace, J::OverFromInv, J::Objects, J::CloneTo, J::SetVar, J::OverFrom, J::Inv, J::OffTo, J::FillAll, J::OverToInv, J::ReplaceArea];
/// The place of the block in question, and of a good one; and the blocks above them.
const X: P3 = [-2, 4, -1];
const G: P3 = [-3, 4, -1];
const XA: P3 = [-2, 5, -1];
const GA: P3 = [-3, 5, -1];
const GB: P3 = [-3, 4, -2];
struct Scene { main: W, input: Option<W>, a: InstArgs, bad: i64, in_main: bool }
fn good(ver: u8, t: usize, k: i32) -> Block {
    let mut b = rich(ver, t, "", 0);
    for i in 0..4096 { b.p2[i] = b.p2[i].wrapping_add(k as u8) }
    b.meta[0].vars[0].val = format!("block {}", k).into_bytes();
    b
}
fn s(b: &[u8]) -> Option<String> { Some(String::from_utf8(b.to_vec()).unwrap()) }
/// A map with a good block and, if it is given, a bad one, and the command to run on it.
fn scene(j: J, tag: &str, bad: Option<&[u8]>, filter: bool) -> Scene {
    let mut main = world(&format!("main{}", tag));
    let overlay = matches!(j, J::OverFrom | J::OverTo | J::OverFromInv | J::OverToInv | J::OffFrom | J::OffTo);
    let mut input = if overlay { Some(world(&format!("input{}", tag))) } else { None };
    let from = matches!(j, J::OverFrom | J::OverFromInv | J::OffFrom | J::CloneFrom);
    let at = match j { J::OffTo => XA, _ => X };
    // the bad block is stored before the good ones, but for one
    let single = !overlay && !matches!(j, J::CloneFrom | J::CloneTo);
    if single { main.add(GB, good(28, 0, 5)) }
    if let Some(d) = bad { if overlay && from { input.as_mut().unwrap().add_raw(at, d) } else { main.add_raw(at, d) } }
    let lo = low(G);
    let mut area = Some(Bx { lo, hi: [lo[0] + 23, lo[1] + 15, lo[2] + 15] });
    if single { area.as_mut().unwrap().lo[2] -= 16 }
    let mut invert = false;
    let mut a;
    match j {
        J::FillPart | J::FillAll => { a = args("fill", &main.m); a.new_node = s(NEW); main.add(G, good(28, 0, 1)); if j == J::FillAll { area.as_mut().unwrap().hi[0] += 8 } }
        J::Replace | J::ReplaceArea => { a = args("replacenodes", &main.m); a.node = s(OLD); a.new_node = s(NEW); main.add(G, good(29, 2, 1)); if j == J::Replace { area = None } }
        J::Param2 => { a = args("setparam2", &main.m); a.param2 = Some(7); main.add(G, good(28, 0, 1)); if filter { a.node = s(OLD); area = None } }
        J::Meta => { a = args("deletemeta", &main.m); main.add(G, good(28, 0, 1)); if filter { a.node = s(OLD) } }
        J::Timers => { a = args("deletetimers", &main.m); main.add(G, good(29, 0, 1)); if filter { a.node = s(OLD); area = None } }
        J::Objects => { a = args("deleteobjects", &main.m); a.object = s(b"mobs:cow"); main.add(G, good(28, 0, 1)); area = None }
        J::SetVar => { a = args("setmetavar", &main.m); a.key = s(b"k"); a.value = s(b"new"); main.add(G, good(28, 0, 1)); if filter { a.nodes = vec![s(OLD).unwrap(), s(NEW).unwrap()] } }
        J::Inv => { a = args("replaceininv", &main.m); a.item = s(OLD); a.new_item = s(NEW); main.add(G, good(27, 0, 1)); if filter { a.nodes = vec![s(OLD).unwrap()] } area = None }
        J::CloneFrom => { a = args("clone", &main.m); main.add(G, good(28, 0, 1)); main.add(GA, good(28, 3, 2)); main.add(XA, good(29, 3, 3)); a.offset = Some(v3([0, 16, 0])) }
        J::CloneTo => { a = args("clone", &main.m); main.add(G, good(28, 0, 1)); main.add(GA, good(28, 3, 2)); main.add(XA, good(29, 3, 3)); a.offset = Some(v3([0, -16, 0])); area = area.map(|x| Bx { lo: add(x.lo, [0, 16, 0]), hi: add(x.hi, [0, 16, 0]) }) }
        _ => {
            a = args("overlay", &main.m);
            let i = input.as_mut().unwrap();
            i.add(G, good(28, 0, 1));
            if !from { i.add(X, good(28, 0, 4)) }
            let off = matches!(j, J::OffFrom | J::OffTo);
            main.add(if off { GA } else { G }, good(28, 3, 2));
            if from { main.add(if off { XA } else { X }, good(29, 3, 3)) }
            if off { a.offset = Some(v3([0, 16, 0])) }
            // inverted: the good block is fully selected, the other one in part
            if matches!(j, J::OverFromInv | J::OverToInv) { invert = true; let l = low(X); area = Some(Bx { lo: [l[0] + 3, l[1], l[2]], hi: [l[0] + 40, l[1] + 9, l[2] + 15] }) }
            a.input_map_path = Some(i.m.file.clone());
        }
    }
    Sel { bx: area, invert }.set(&mut a);
    Scene { main, input, a, bad: key(at), in_main: !overlay || !from }
}
fn low(p: P3) -> P3 { [16 * p[0], 16 * p[1], 16 * p[2]] }
fn same_block(a: &[u8], b: &[u8]) -> bool {
    if sym::eq(a, b) { return true }
    match (spec::decode(a), spec::decode(b)) { (Some(a), Some(b)) => spec::eq_rest(&a, &b) && spec::eq_names(&a, &b, NAMES), _ => false }
}
/// Is the block read as one that holds the node? (The search of blocks up to version 28 looks for the name's bytes.)
fn holds(d: &[u8], name: &[u8]) -> bool {
    if d.is_empty() { return true }
    let mut n = vec![0, name.len() as u8];
    n.extend_from_slice(name);
    d.len() >= n.len() && (0..=d.len() - n.len()).any(|i| d[i..i + n.len()] == n[..])
}
/// Runs the command with and without the bad block. `unread`: nothing may be made of it. `counted`: how many are to be
/// reported as skipped, if that is known.
fn go(j: J, bad: &[u8], unread: bool, filter: bool) {
    let w = scene(j, "", Some(bad), filter);
    let t = scene(j, "-without", None, filter);
    let r = run(w.a);
    sym::check(r.ok(), "C02 the command completes");
    let q = run(t.a);
    sym::check(q.ok() && q.skipped().is_none(), "C02 the command completes without the bad block");
    let (d, e) = (w.main.m.rows(), t.main.m.rows());
    if let Some(i) = &w.input { sym::check(i.same_all(&i.m.rows()), "C02 the input map stays as it was") }
    let mut n = 0;
    for (k, was) in &e {
        n += 1;
        let near = *k == key(XA) || *k == key(X);
        if unread || !near { sym::check(row(&d, *k).map_or(false, |x| same_block(x, was)), "C02 other blocks are edited as if the bad one were absent") }
    }
    if w.in_main {
        sym::check(d.len() == n + 1, "C02 the same blocks are stored");
        match row(&d, w.bad) { None => sym::check(false, "C02 the bad block is still stored"), Some(x) => if unread { sym::check(sym::eq(x, bad), "C02 a block that cannot be read stays as it was") } }
    }
    if unread {
        let single = !matches!(j, J::CloneFrom | J::CloneTo | J::OverFrom | J::OverTo | J::OverFromInv | J::OverToInv | J::OffFrom | J::OffTo);
        let by: Option<&[u8]> = match j { J::Replace | J::ReplaceArea => Some(OLD), J::Objects => Some(b"mobs:cow"), _ => None };
        if single && (by.is_none() || (bad.len() > 0 && bad[0] == 29)) { sym::check(r.failed == 1 && r.skipped() == Some("1"), "C02 it is counted as skipped") }
        else if single { let h = holds(bad, by.unwrap()); sym::check(r.failed <= 1 && (r.failed == 1 || !h), "C02 it is counted as skipped if it is looked at") }
        else { sym::check(r.failed <= 1, "C02 nothing else is counted as skipped") }
        sym::check((r.failed == 0) == r.skipped().is_none(), "C02 what is skipped is reported");
    }
    note_run(&r);
    sym::observe("rows", &[d.len() as u8]);
}
struct Parts { ver: u8, p: Vec<Vec<u8>> }
const HEAD: usize = 0; const NAMETAB: usize = 1; const WIDTHS: usize = 2; const NODES: usize = 3; const METAS: usize = 4; const OBJS: usize = 5; const TIMERS: usize = 6;
fn parts(b: &Block) -> Parts {
    let mut h = vec![b.flags];
    if b.ver >= 27 { h.extend_from_slice(&b.light.to_be_bytes()) }
    if b.ver >= 29 { h.extend_from_slice(&b.time.to_be_bytes()) }
    Parts { ver: b.ver, p: vec![h, spec::e_names(&b.names), vec![2, 2], spec::e_nodes(b), spec::e_meta(b), spec::e_objs(b), spec::e_timers(b)] }
}
impl Parts {
    /// The parts in the order in which they are stored, compressed.
    fn stored(&self) -> Vec<Vec<u8>> {
        let p = &self.p;
        if self.ver >= 29 { return vec![p[HEAD].clone(), p[NAMETAB].clone(), p[WIDTHS].clone(), p[NODES].clone(), p[METAS].clone(), p[OBJS].clone(), p[TIMERS].clone()] }
        vec![p[HEAD].clone(), p[WIDTHS].clone(), world::deflate(&p[NODES]), world::deflate(&p[METAS]), p[OBJS].clone(), vec![1, 2, 3, 4], p[NAMETAB].clone(), p[TIMERS].clone()]
    }
    fn join(&self, s: &[Vec<u8>]) -> Vec<u8> {
        let mut v = Vec::with_capacity(20000);
        for x in s { v.extend_from_slice(x) }
        let mut o = vec![self.ver];
        if self.ver >= 29 { o.extend(world::zstd(&v)) } else { o.extend(v) }
        o
    }
    fn whole(&self) -> Vec<u8> { self.join(&self.stored()) }
}
fn job(all: bool, k: usize) -> J { if all { JOBS[sym::choose("command", 18)] } else { JOBS[(7 * k + 5 * sym::choose("command", 3)) % 18] } }
fn version() -> u8 { [25u8, 27, 28, 29][sym::choose("version", 4)] }
/// A block cut off in each of its parts.
fn cut(all: bool) {
    let ver = version();
    let p = parts(&good(ver, 3, 9));
    let s = p.stored();
    let k = sym::choose("part", s.len() + (ver == 29) as usize);
    let m = sym::choose("cut", 4);
    let j = job(all, ver as usize + 3 * k + m);
    let d = if k == s.len() {
        // the compressed data itself
        let w = p.whole();
        let n = [1, 4, w.len() / 2, w.len() - 1][m];
        w[..n].to_vec()
    } else {
        let n = s[k].len();
        let mut t = s[..k].to_vec();
        t.push(s[k][..[0, 1, n / 2, n - 1][m].min(n - 1)].to_vec());
        p.join(&t)
    };
    go(j, &d, true, false);
}
fn c02_cut() { cut(false) }
fn c02_cut_all() { cut(true) }
/// A block with one field that makes it unreadable.
fn field(all: bool) {
    let ver = version();
    let mut b = good(ver, 3, 9);
    b.flags = sym::u8("flags");
    let f = sym::choose("field", 20);
    let j = job(all, ver as usize + 5 * f);
    let mut p = parts(&b);
    let set16 = |v: &mut Vec<u8>, at: usize, x: u16| { v[at] = (x >> 8) as u8; v[at + 1] = x as u8 };
    let not = |n: &str, x: u8| { let v = sym::u8(n); sym::assume(v != x); v };
    let big = |n: &str| { let v = sym::u16(n); sym::assume(v > 60_000); v };
    let mut d;
    match f {
        0 => { let v = sym::u8("other"); sym::assume((v < 25) | (v > 29)); d = p.whole(); d[0] = v }
        1 => { p.p[WIDTHS][0] = not("width", 2); d = p.whole() }
        2 => { p.p[WIDTHS][1] = not("width", 2); d = p.whole() }
        3 => { let v = sym::u8("metaver"); sym::assume(v > 2); p.p[METAS][0] = v; d = p.whole() }
        4 => { p.p[OBJS][0] = not("objver", 0); d = p.whole() }
        5 => { p.p[NAMETAB][0] = not("namever", 0); d = p.whole() }
        6 => { p.p[TIMERS][0] = not("timersize", 10); d = p.whole() }
        7 => { p.p[NODES].pop(); if ver == 29 { p.p[METAS][0] = 9 } d = p.whole() }
        8 => { p.p[NODES].push(3); d = p.whole() }
        9 => { d = if ver == 29 { let mut w = p.whole(); w[1] = 0; w } else { let mut s = p.stored(); s[2][0] = 0; p.join(&s) } }
        10 => { d = if ver == 29 { let mut w = p.whole(); w[4] = 0; w } else { let mut s = p.stored(); s[3][0] = 0; p.join(&s) } }
        11 => { let n = p.p[METAS].len(); p.p[METAS][n - 5] = b'x'; d = p.whole() }
        12 => { let v = sym::u16("count"); sym::assume(((v > 1) & (v < 5)) | (v >= 4096)); set16(&mut p.p[TIMERS], 1, v); d = p.whole() }
        13 => { set16(&mut p.p[OBJS], 1, big("count")); d = p.whole() }
        14 => { set16(&mut p.p[METAS], 1, big("count")); d = p.whole() }
        15 => { set16(&mut p.p[NAMETAB], 1, big("count")); d = p.whole() }
        16 => { set16(&mut p.p[NAMETAB], 5, big("length")); d = p.whole() }
        17 => { set16(&mut p.p[METAS], 5, big("count")); d = p.whole() }
        18 => { let n = 3 + 2 + 4 + 2 + 8; set16(&mut p.p[METAS], n, big("length")); d = p.whole() }
        _ => { set16(&mut p.p[OBJS], 3 + 13, big("length")); d = p.whole() }
    }
    go(j, &d, true, false);
}
fn c02_field() { field(false) }
fn c02_field_all() { field(true) }
/// A few arbitrary bytes.
fn c02_short() {
    let j = JOBS[sym::choose("command", 18)];
    let n = sym::choose("length", 5);
    let d = sym::vec("bytes", n);
    if j == J::OverFrom || j == J::OverFromInv { if n > 0 { sym::assume((d[0] > 29) | (d[0] < 25) | (n < 2)) } }
    go(j, &d, true, false);
}
/// A small id, or one at the end of what fits into a block or beyond.
fn odd_id() -> u16 { let v = sym::u16("id"); sym::assume((v < 6) | (v >= 4095)); v }
fn odd_pos() -> u16 { let v = sym::u16("pos"); sym::assume((v < 3) | (v >= 4093)); v }
/// Blocks that can be read but contradict themselves, or have more after their end: the command may do with them what it
/// likes, but has to get through.
fn c02_odd() {
    let ver = [28u8, 29][sym::choose("version", 2)];
    let j = JOBS[sym::choose("command", 18)];
    let mut b = good(ver, 3, 9);
    let mut tail = false;
    match sym::choose("kind", 8) {
        0 => b.names.clear(),
        1 => { b.ids[5] = odd_id(); b.ids[4090] = odd_id() }
        2 => { b.names[2].0 = odd_id(); b.names[3].0 = [4096u16, 32768, 65535, 0][sym::choose("last", 4)] }
        3 => { let m = b.meta[0].clone(); b.meta.push(Meta { pos: odd_pos(), ..m }) }
        4 => b.timers.push(Timer { pos: odd_pos(), timeout: 1, elapsed: 2 }),
        5 => b.names.push((9, b.names[3].1.clone())),
        6 => { let o = b.objs[0].clone(); b.objs.push(Obj { kind: sym::u8("type"), data: sym::vec("data", 5), ..o }) }
        _ => tail = true,
    }
    let p = parts(&b);
    let mut s = p.stored();
    if tail { s.push(vec![1, 2, 3]) }
    go(j, &p.join(&s), false, true);
}
