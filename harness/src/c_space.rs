//! C03: block keys, C04: areas.
use super::kit::*;
use super::{spec, sym};
use crate::spatial::{Area, InverseBlockIterator, Vec3};

entries! { c03_key, c03_back, c03_refuse, c04_corners, c04_area, c04_volume, c04_shift, c04_blocks, c04_list, c04_inverse }

fn pos(n: &str, lo: i32, hi: i32) -> P3 { [sym::range(&format!("{}x", n), lo, hi), sym::range(&format!("{}y", n), lo, hi), sym::range(&format!("{}z", n), lo, hi)] }
fn same(a: Vec3, b: P3) -> bool { (a.x == b[0]) & (a.y == b[1]) & (a.z == b[2]) }

/// Position to key and back, and two positions.
fn c03_key() {
    let p = pos("p", -2048, 2047);
    let q = pos("q", -2048, 2047);
    let kp = v3(p).to_block_key();
    let kq = v3(q).to_block_key();
    sym::check(kp == p[0] as i64 + 4096 * p[1] as i64 + 16777216 * p[2] as i64, "C03 the key is x + 4096 y + 16777216 z");
    sym::check(same(Vec3::from_block_key(kp), p), "C03 a key gives back its position");
    sym::check((kp != kq) | ((p[0] == q[0]) & (p[1] == q[1]) & (p[2] == q[2])), "C03 distinct positions have distinct keys");
    sym::observe("k", &kp.to_le_bytes());
}
/// Every key of a position, decoded and encoded.
fn c03_back() {
    let k = sym::i64("key");
    let top = 2047 * (1 + 4096 + 16777216i64);
    sym::assume((k >= -2048 * (1 + 4096 + 16777216i64)) & (k <= top));
    let p = Vec3::from_block_key(k);
    sym::check((p.x >= -2048) & (p.x <= 2047) & (p.y >= -2048) & (p.y <= 2047) & (p.z >= -2048) & (p.z <= 2047), "C03 a key is of a position within range");
    sym::check(p.x as i64 + 4096 * p.y as i64 + 16777216 * p.z as i64 == k, "C03 the position of a key has that key");
    sym::observe("p", &[p.x as u8, p.y as u8, p.z as u8]);
}
fn c03_refuse() {
    let p = [sym::i32("x"), sym::i32("y"), sym::i32("z")];
    let inside = (p[0] >= -2048) & (p[0] <= 2047) & (p[1] >= -2048) & (p[1] <= 2047) & (p[2] >= -2048) & (p[2] <= 2047);
    match sym::catch(|| v3(p).to_block_key()) {
        Ok(k) => { sym::check(inside, "C03 a position outside the range is refused"); sym::observe("k", &k.to_le_bytes()) }
        Err(_) => sym::check(!inside, "C03 a position within the range has a key"),
    }
}

const M: i32 = 31000;
/// Any area: both corners symbolic.
fn boxed(n: &str) -> Bx {
    let x = Bx { lo: pos(&format!("{}lo", n), -M, M), hi: pos(&format!("{}hi", n), -M, M) };
    sym::assume((x.lo[0] <= x.hi[0]) & (x.lo[1] <= x.hi[1]) & (x.lo[2] <= x.hi[2]));
    x
}
/// The area of two opposite corners given in any order.
fn c04_corners() {
    let (a, b) = (pos("a", -M, M), pos("b", -M, M));
    let n = pos("n", -40000, 40000);
    let r = Area::from_unsorted(v3(a), v3(b));
    let mut ok = true;
    for k in 0..3 { let (lo, hi, l, h) = ([r.min.x, r.min.y, r.min.z][k], [r.max.x, r.max.y, r.max.z][k], if a[k] < b[k] { a[k] } else { b[k] }, if a[k] < b[k] { b[k] } else { a[k] }); ok &= (lo == l) & (hi == h) }
    sym::check(ok, "C04 the area of two opposite corners");
    sym::check(r.is_valid(), "C04 the area of two corners is valid");
    let valid = (n[0] >= -M) & (n[0] <= M) & (n[1] >= -M) & (n[1] <= M) & (n[2] >= -M) & (n[2] <= M);
    sym::check(v3(n).is_valid_node_pos() == valid, "C04 map bounds");
    sym::observe("lo", &r.min.x.to_le_bytes());
}
/// Areas as sets of nodes: a node is in the result exactly if it should be, for every node.
fn c04_area() {
    let a = boxed("a");
    let b = boxed("b");
    let n = pos("n", -40000, 40000);
    sym::check(a.area().contains(v3(n)) == a.has(n), "C04 node containment");
    match a.area().intersection(b.area()) {
        Some(i) => sym::check(i.is_valid() & (i.contains(v3(n)) == (a.has(n) & b.has(n))), "C04 the intersection has exactly the nodes of both"),
        None => sym::check(!(a.has(n) & b.has(n)), "C04 no intersection only if no node is in both"),
    }
    sym::observe("n", &[a.has(n) as u8]);
}
/// The number of nodes of every area.
fn c04_volume() {
    let lo = pos("lo", -M, M);
    // one extent is any, the others are chosen: a product of three unknowns is out of the solver's reach
    const L: [(u16, u16); 6] = [(0, 0), (15, 0), (0, 61999), (15, 16), (62000, 62000), (127, 1000)];
    let ax = sym::choose("axis", 3);
    let o = L[sym::choose("others", 6)];
    let mut e = [o.0; 3];
    e[(ax + 1) % 3] = o.1;
    e[ax] = sym::u16("extent");
    let a = Bx { lo, hi: [lo[0] + e[0] as i32, lo[1] + e[1] as i32, lo[2] + e[2] as i32] };
    sym::assume((a.hi[0] <= M) & (a.hi[1] <= M) & (a.hi[2] <= M));
    let v = (e[0] as u64 + 1) * (e[1] as u64 + 1) * (e[2] as u64 + 1);
    sym::check(a.area().volume() == v, "C04 volume");
    sym::observe("v", &v.to_le_bytes());
}
fn c04_shift() {
    let a = boxed("a");
    let n = pos("n", -99000, 99000);
    let d = pos("d", -62000, 62000);
    let s = a.area() + v3(d);
    let t = a.area() - v3(d);
    sym::check(s.contains(v3(n)) == a.has([n[0] - d[0], n[1] - d[1], n[2] - d[2]]), "C04 the area shifted by an offset");
    sym::check(t.contains(v3(n)) == a.has([n[0] + d[0], n[1] + d[1], n[2] + d[2]]), "C04 the area shifted back by an offset");
    sym::observe("s", &s.min.x.to_le_bytes());
}
/// Areas against map blocks.
fn c04_blocks() {
    let a = boxed("a");
    let b = pos("b", -2048, 2047);
    let l = pos("l", -3, 18); // a node relative to the block
    let ar = a.area();
    let inb = (l[0] >= 0) & (l[0] < 16) & (l[1] >= 0) & (l[1] < 16) & (l[2] >= 0) & (l[2] < 16);
    let n = [16 * b[0] + l[0], 16 * b[1] + l[1], 16 * b[2] + l[2]];
    let ina = a.has(n);
    let mut all = true;
    let mut any = true;
    for k in 0..3 {
        all &= (a.lo[k] <= 16 * b[k]) & (16 * b[k] + 15 <= a.hi[k]);
        any &= (a.lo[k] <= 16 * b[k] + 15) & (16 * b[k] <= a.hi[k]);
    }
    sym::check(ar.contains_block(v3(b)) == all, "C04 block containment");
    sym::check(ar.touches_block(v3(b)) == any, "C04 block contact");
    match ar.to_contained_block_area() { Some(c) => sym::check(c.is_valid() & (c.contains(v3(b)) == all), "C04 range of contained blocks"), None => sym::check(!all, "C04 no contained blocks") }
    let t = ar.to_touching_block_area();
    sym::check(t.is_valid() & (t.contains(v3(b)) == any), "C04 range of touched blocks");
    match ar.abs_block_overlap(v3(b)) { Some(o) => sym::check(any & o.is_valid() & (o.contains(v3(n)) == (ina & inb)), "C04 overlap with a block"), None => sym::check(!any, "C04 no overlap only without contact") }
    match ar.rel_block_overlap(v3(b)) {
        Some(o) => { sym::check(any & o.is_valid() & (o.contains(v3(l)) == (ina & inb)), "C04 relative overlap with a block"); sym::observe("o", &[o.min.x as u8, o.max.x as u8, o.min.y as u8, o.max.y as u8]) }
        None => sym::check(!any, "C04 no relative overlap only without contact"),
    }
}
/// An area's nodes, each listed once, in order. The area lies at a symbolic place; its size is bounded.
fn c04_list() {
    let c = pos("c", -M, M - 5);
    let e = [sym::choose("ex", 4), sym::choose("ey", 4), sym::choose("ez", 4)];
    let bx = Bx { lo: c, hi: [c[0] + e[0] as i32, c[1] + e[1] as i32, c[2] + e[2] as i32] };
    let mut want = Vec::new();
    for z in 0..=e[2] { for y in 0..=e[1] { for x in 0..=e[0] { want.push([c[0] + x as i32, c[1] + y as i32, c[2] + z as i32]) } } }
    // listed in some order, each once: distinct, inside, and as many as there are
    let got: Vec<Vec3> = (&bx.area()).into_iter().take(want.len() + 1).collect();
    sym::check(got.len() == want.len(), "C04 as many nodes are listed as the area has");
    let mut seen = vec![0u8; want.len()];
    let mut ok = true;
    for g in &got {
        for (i, w) in want.iter().enumerate() { seen[i] = seen[i].wrapping_add(same(*g, *w) as u8) }
        ok &= bx.has([g.x, g.y, g.z]);
    }
    for s in &seen { ok &= *s == 1 }
    sym::check(ok, "C04 each node of the area is listed once");
}
/// The rest of a block: every extent of one axis, with several of the others.
fn c04_inverse() {
    let ax = sym::choose("axis", 3);
    let k = PAIR[sym::choose("others", PAIR.len())];
    let mut bx = Bx { lo: [k.0.0; 3], hi: [k.0.1; 3] };
    bx.lo[(ax + 2) % 3] = k.1.0;
    bx.hi[(ax + 2) % 3] = k.1.1;
    let (lo, hi) = (sym::range("lo", 0, 15), sym::range("hi", 0, 15));
    sym::assume(lo <= hi);
    bx.lo[ax] = sym::pick(lo as u64) as i32;
    bx.hi[ax] = sym::pick(hi as u64) as i32;
    let mut seen = vec![0u8; 4096];
    let mut n = 0;
    for i in InverseBlockIterator::new(bx.area()) {
        n += 1;
        if n > 4096 || i >= 4096 { sym::check(false, "C04 the rest of the block lists only the block's nodes"); return }
        seen[i] += 1;
    }
    let m = bx.mask([0, 0, 0]);
    let mut ok = true;
    for i in 0..4096 { ok &= (seen[i] == 1) != m[i]; ok &= seen[i] <= 1 }
    sym::check(ok, "C04 the rest of the block lists each other node once");
}
const PAIR: &[((i32, i32), (i32, i32))] = &[((0, 15), (0, 15)), ((4, 11), (3, 9)), ((0, 0), (15, 15)), ((0, 15), (9, 15)), ((0, 7), (0, 15)), ((15, 15), (2, 2))];
