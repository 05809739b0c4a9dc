//! deleteblocks (C05), reading and writing blocks (C01), blocks that cannot be read (C02).
use super::kit::*;
use super::spec::{self, Block};
use super::{sym, world};

entries! { c05_any, c05_axis, c05_whole, c05_filter }

fn fully_inside(x: &Bx, b: P3) -> bool { let mut ok = true; for k in 0..3 { ok &= (x.lo[k] <= 16 * b[k]) & (16 * b[k] + 15 <= x.hi[k]) } ok }
fn fully_outside(x: &Bx, b: P3) -> bool { let mut ok = false; for k in 0..3 { ok |= (x.lo[k] > 16 * b[k] + 15) | (16 * b[k] > x.hi[k]) } ok }
fn delete(rows: &[(P3, Vec<u8>)], bx: Bx, invert: bool) {
    let mut w = world("main");
    for (p, d) in rows { w.add_raw(*p, d) }
    let mut a = args("deleteblocks", &w.m);
    Sel { bx: Some(bx), invert }.set(&mut a);
    let r = run(a);
    sym::check(r.ok(), "C05 the command completes");
    let d = w.m.rows();
    let mut left = 0;
    for (p, _) in rows {
        let goes = if invert { fully_outside(&bx, *p) } else { fully_inside(&bx, *p) };
        let there = row(&d, key(*p)).is_some();
        if there { left += 1 }
        sym::check(there != goes, "C05 exactly the blocks fully inside or outside are deleted");
        sym::check(!there || w.same(&d, key(*p)), "C05 other blocks stay as they were");
    }
    sym::check(d.len() == left, "C05 nothing else is stored");
    note_run(&r);
    for (k, _) in &d { sym::observe(&format!("row{}", k), &[1]) }
}
fn any_box() -> Bx {
    let mut x = Bx { lo: [0; 3], hi: [0; 3] };
    for k in 0..3 {
        x.lo[k] = sym::i32(["x1", "y1", "z1"][k]);
        x.hi[k] = sym::i32(["x2", "y2", "z2"][k]);
        sym::assume((-31000 <= x.lo[k]) & (x.lo[k] <= x.hi[k]) & (x.hi[k] <= 31000));
    }
    x
}
/// Any area at all, and three blocks with any contents, readable or not.
fn c05_any() {
    let at = PLACES[sym::choose("place", 4)];
    let mut junk = vec![0u8; 3];
    sym::bytes("junk", &mut junk);
    let far = [-at[0] - 20, at[1].abs() - 900, 77];
    delete(&[(at, spec::encode(&Block::new(28, AIR))), (next_to(at, sym::choose("axis", 3)), junk), (far, vec![])], any_box(), sym::boolean("invert"));
}
/// A row of blocks along an axis, up to the last ones of the map.
fn c05_axis() {
    let ax = sym::choose("axis", 3);
    let base = [-1938, -1, 0, 1933][sym::choose("base", 4)];
    let rows: Vec<(P3, Vec<u8>)> = (0..5).map(|i| { let mut p = [3, -2, 7]; p[ax] = base + i; (p, vec![28, i as u8]) }).collect();
    let mut x = Bx { lo: [0; 3], hi: [0; 3] };
    for k in 0..3 { let (l, h) = [(-200, 200), (-31000, 31000)][(k + ax) % 2]; x.lo[k] = l; x.hi[k] = h }
    x.lo[ax] = sym::i32("lo");
    x.hi[ax] = sym::i32("hi");
    sym::assume((-31000 <= x.lo[ax]) & (x.lo[ax] <= x.hi[ax]) & (x.hi[ax] <= 31000));
    delete(&rows, x, sym::boolean("invert"));
}
/// The smallest and the largest areas, and those of one block.
fn c05_whole() {
    let at = PLACES[sym::choose("place", 4)];
    let c = [16 * at[0], 16 * at[1], 16 * at[2]];
    let rows = [(at, vec![1]), (next_to(at, 0), vec![2]), (next_to(at, 1), vec![]), ([-1938, -1938, -1938], vec![4]), ([1937, 1937, 1937], vec![5])];
    let x = match sym::choose("area", 4) {
        0 => Bx { lo: [-31000; 3], hi: [31000; 3] },
        1 => Bx { lo: c, hi: [within(c[0] + 15), within(c[1] + 15), within(c[2] + 15)] },
        2 => Bx { lo: c, hi: c },
        _ => Bx { lo: [c[0] + 1, c[1], c[2]], hi: [within(c[0] + 15), within(c[1] + 15), within(c[2] + 15)] },
    };
    delete(&rows, x, sym::boolean("invert"));
}
/// Many blocks: none is forgotten.
fn c05_filter() {
    let n = 40;
    let rows: Vec<(P3, Vec<u8>)> = (0..n).map(|i| ([i % 7 - 3, (i / 7) % 3 - 1, i % 5], vec![i as u8])).collect::<Vec<_>>();
    let mut u: Vec<(P3, Vec<u8>)> = vec![];
    for r in rows { if !u.iter().any(|x| x.0 == r.0) { u.push(r) } }
    let x = Bx { lo: [sym::extent("lo", -64, 64), -16, 0], hi: [64, sym::extent("hi", -16, 40), 63] };
    delete(&u, x, sym::boolean("invert"));
}
