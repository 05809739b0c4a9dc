//! clone and overlay: C09 to C12, and what C18, C24, C25 and C26 say about them.
use super::kit::*;
use super::spec::{self, Block};
use super::{sym, world};
use crate::instance::InstArgs;

entries! {
    c09_area, c09_all, c09_offset, c09_table, c09_meta, c09_edge, c09_sparse,
    c10_near, c10_shift, c10_many, c10_close,
    c11_area, c11_all, c11_whole, c11_table, c11_meta,
    c12_area, c12_all, c12_offset, c12_table, c12_meta, c12_whole, c12_edge, c12_many,
    c18_clone, c18_overlay, c18_shifted, c24_clone, c24_overlay, c24_shifted, c24_short,
}

/// A block in which every node differs from the same node of the others.
fn block(ver: u8, t: usize, tag: &str, nsym: usize, k: u8) -> Block {
    let mut b = rich(ver, t, tag, nsym);
    for i in 0..4096 { b.p1[i] = b.p1[i].wrapping_add(k.wrapping_mul(37)); b.p2[i] = b.p2[i].wrapping_add(k.wrapping_mul(83)) }
    b.meta[0].vars[0].val = vec![b'a' + k];
    b.time = b.time.wrapping_add(k as u32);
    b.timers[0].elapsed += k as u32;
    b
}
fn lone(v: u8, pos: u16) -> Meta { Meta { pos, vars: vec![Var { name: b"v".to_vec(), val: vec![v, pos as u8], private: 0 }], inv: spec::END.to_vec() } }
/// Metadata at each node of two lines along an axis.
fn lines(b: &mut Block, ax: usize, v: u8) {
    b.meta.clear();
    for l in 0..2 { for i in 0..16 {
        let mut p = if l == 0 { [0, 0, 0] } else { [13, 9, 6] };
        p[ax] = i;
        b.meta.push(lone(v.wrapping_add(l), spec::idx(p[0], p[1], p[2]) as u16));
    } }
}
fn fdiv(v: i32) -> i32 { v >> 4 }
fn valid(p: P3) -> bool { p.iter().all(|v| -1937 <= *v && *v <= 1937) }
struct Expect { names: Vec<u32>, p1: Vec<u8>, p2: Vec<u8>, touched: bool }
/// What block `at` is to be after the nodes of `bx` (or all nodes) were copied by `off`.
fn expect(src: &W, at: P3, b: &Block, bx: Option<Bx>, off: P3) -> Expect {
    let t = b.codes(NAMES);
    let mut e = Expect { names: Vec::with_capacity(4096), p1: b.p1.clone(), p2: b.p2.clone(), touched: true };
    for i in 0..4096 { e.names.push(spec::code(&t, b.ids[i])) }
    if let Some(x) = bx { for k in 0..3 { e.touched &= (x.lo[k] + off[k] <= 16 * at[k] + 15) & (16 * at[k] <= x.hi[k] + off[k]) } }
    let first = [fdiv(16 * at[0] - off[0]), fdiv(16 * at[1] - off[1]), fdiv(16 * at[2] - off[2])];
    for d in 0..8 {
        let s = add(first, [d & 1, d >> 1 & 1, d >> 2]);
        let sb = match src.block(s) { Some(x) if x.flags & 8 == 0 && valid(s) => x, _ => continue };
        let ts = sb.codes(NAMES);
        let m = match bx { Some(x) => x.mask(s), None => vec![true; 4096] };
        for i in 0..4096 {
            let l = spec::xyz(i);
            let q = [16 * s[0] + l[0] + off[0] - 16 * at[0], 16 * s[1] + l[1] + off[1] - 16 * at[1], 16 * s[2] + l[2] + off[2] - 16 * at[2]];
            if q.iter().any(|v| *v < 0 || *v > 15) { continue }
            let j = spec::idx(q[0], q[1], q[2]);
            let c = spec::code(&ts, sb.ids[i]);
            e.names[j] = if m[i] { c } else { e.names[j] };
            e.p1[j] = if m[i] { sb.p1[i] } else { e.p1[j] };
            e.p2[j] = if m[i] { sb.p2[i] } else { e.p2[j] };
        }
    }
    e
}
fn coords(pos: u16) -> P3 { [(pos & 15) as i32, (pos >> 4 & 15) as i32, (pos >> 8 & 15) as i32] }
/// Is the metadata of block `at` what it is to be after the copy?
fn metas(src: &W, at: P3, b: &Block, g: &Block, bx: Option<Bx>, off: P3) -> bool {
    // (is it there, the entry)
    let mut want: Vec<(bool, Meta)> = vec![];
    let first = [fdiv(16 * at[0] - off[0]), fdiv(16 * at[1] - off[1]), fdiv(16 * at[2] - off[2])];
    let near: Vec<(P3, &Block)> = (0..8).map(|d| add(first, [d & 1, d >> 1 & 1, d >> 2])).filter_map(|s| src.block(s).filter(|x| x.flags & 8 == 0 && valid(s)).map(|x| (s, x))).collect();
    for m in b.meta.iter().filter(|m| spec::full(m)) {
        let c = coords(m.pos);
        let from = [16 * at[0] + c[0] - off[0], 16 * at[1] + c[1] - off[1], 16 * at[2] + c[2] - off[2]];
        let mut has = false;
        for (s, _) in &near { has |= (from[0] >> 4 == s[0]) & (from[1] >> 4 == s[1]) & (from[2] >> 4 == s[2]) }
        let sel = bx.map_or(true, |x| x.has(from));
        want.push((!(has & sel), m.clone()));
    }
    for (s, x) in &near {
        for m in x.meta.iter().filter(|m| spec::full(m)) {
            let c = coords(m.pos);
            let from = [16 * s[0] + c[0], 16 * s[1] + c[1], 16 * s[2] + c[2]];
            let q = [from[0] + off[0] - 16 * at[0], from[1] + off[1] - 16 * at[1], from[2] + off[2] - 16 * at[2]];
            let mut here = bx.map_or(true, |x| x.has(from));
            for k in 0..3 { here &= (0 <= q[k]) & (q[k] <= 15) }
            let mut m = Meta { pos: (q[0] + 16 * q[1] + 256 * q[2]) as u16, ..m.clone() };
            if b.ver < 28 { for v in m.vars.iter_mut() { v.private = 0 } }
            want.push((here, m));
        }
    }
    let got: Vec<&Meta> = g.meta.iter().filter(|m| spec::full(m)).collect();
    same_metas(&want, &got)
}
fn same_metas(want: &[(bool, Meta)], got: &[&Meta]) -> bool {
    let mut ok = true;
    for (there, w) in want { let mut any = false; for g in got { if quick(w, g) { any |= spec::eq_meta1(w, g) } } ok &= !there | any }
    for (i, g) in got.iter().enumerate() {
        let mut any = false;
        for (there, w) in want { if quick(w, g) { any |= there & spec::eq_meta1(w, g) } }
        for h in &got[..i] { any &= h.pos != g.pos }
        ok &= any;
    }
    ok
}
fn quick(a: &Meta, b: &Meta) -> bool { a.vars.len() == b.vars.len() && a.inv.len() == b.inv.len() && sym::maybe(a.pos == b.pos) }
/// Compares the blocks of `dst` with what they are to be after the copy.
fn verify(p: &str, src: &W, dst: &W, bx: Option<Bx>, off: P3, d: &[(i64, Vec<u8>)]) {
    sym::check(dst.same_keys(d), &format!("{} the same blocks are stored", p));
    for (at, b) in &dst.bl {
        let k = key(*at);
        if b.flags & 8 != 0 || !valid(*at) { sym::check(dst.same(d, k), &format!("{} a block that is not generated stays as it is", p)); continue }
        let e = expect(src, *at, b, bx, off);
        if !e.touched { sym::check(dst.same(d, k), &format!("{} other blocks stay as they are", p)); continue }
        match read(d, *at) {
            None => sym::check(false, &format!("{} the block can be read afterwards", p)),
            Some(g) => {
                if p == "C18" { sym::check(spec::consistent(&g), "C18 every id has a name and no name appears twice") }
                let t = g.codes(NAMES);
                let mut bad = 0;
                for i in 0..4096 { bad |= spec::code(&t, g.ids[i]) ^ e.names[i] }
                sym::check(bad == 0, &format!("{} each node's name", p));
                if p == "C18" { continue }
                sym::check(sym::eq(&g.p1, &e.p1), &format!("{} param1", p));
                sym::check(sym::eq(&g.p2, &e.p2), &format!("{} param2", p));
                sym::check(spec::eq_head(&g, b) & spec::eq_objs(&g.objs, &b.objs) & spec::eq_timers(&g.timers, &b.timers), &format!("{} flags, time stamp, objects and timers", p));
                sym::check(metas(src, *at, b, &g, bx, off), &format!("{} metadata", p));
            }
        }
    }
}
fn clone_args(w: &W, bx: Bx, off: P3) -> InstArgs { let mut a = args("clone", &w.m); a.area = Some(bx.area()); a.offset = Some(v3(off)); a }
fn overlay_args(w: &W, i: &W, bx: Option<Bx>, off: P3) -> InstArgs {
    let mut a = args("overlay", &w.m);
    a.area = bx.map(|x| x.area());
    a.input_map_path = Some(i.m.file.clone());
    if off != [0; 3] { a.offset = Some(v3(off)) }
    a
}
/// Clones, and compares what is stored then with what it should be.
fn do_clone(p: &str, w: W, bx: Bx, off: P3) {
    let r = run(clone_args(&w, bx, off));
    sym::check(r.ok() && r.skipped().is_none(), &format!("{} the command completes", p));
    verify(p, &w, &w, Some(bx), off, &w.m.rows());
    note_run(&r);
    note_map(&w.m);
}
fn do_shifted(p: &str, w: W, i: W, bx: Option<Bx>, off: P3) {
    let r = run(overlay_args(&w, &i, bx, off));
    sym::check(r.ok() && r.skipped().is_none(), &format!("{} the command completes", p));
    verify(p, &i, &w, bx, off, &w.m.rows());
    sym::check(i.same_all(&i.m.rows()), &format!("{} the input map stays as it was", p));
    note_run(&r);
    note_map(&w.m);
}
fn blk(p: P3) -> P3 { [fdiv(p[0]), fdiv(p[1]), fdiv(p[2])] }
/// Offsets with each kind of alignment and direction, seen along axis `ax`.
const OFFS: [P3; 6] = [[16, 0, 0], [-5, 3, -16], [35, 0, -7], [-48, 16, 21], [0, -16, 9], [-32, -32, 32]];
fn offset_of(k: usize, ax: usize) -> P3 { let o = OFFS[k]; let mut r = [0; 3]; for i in 0..3 { r[(ax + i) % 3] = o[i] } r }
/// The blocks onto which `s` falls: at most `n` of them, those farthest from each other first.
fn onto(s: P3, off: P3, n: usize) -> Vec<P3> {
    let lo = blk(add([16 * s[0], 16 * s[1], 16 * s[2]], off));
    let hi = blk(add([16 * s[0] + 15, 16 * s[1] + 15, 16 * s[2] + 15], off));
    let mut v: Vec<P3> = vec![];
    for d in [0, 7, 1, 6, 2, 5, 4, 3] {
        let q = [if d & 1 == 0 { lo[0] } else { hi[0] }, if d & 2 == 0 { lo[1] } else { hi[1] }, if d & 4 == 0 { lo[2] } else { hi[2] }];
        if !v.contains(&q) && valid(q) && v.len() < n { v.push(q) }
    }
    v
}
/// A scene for copying along an axis: two source blocks and the blocks they are copied to.
fn scene(ax: usize, b: P3, off: P3, two: bool, n: usize) -> (W, Option<W>) {
    let mut w = world("main");
    let mut i = if two { Some(world("input")) } else { None };
    let srcs = [b, next_to(b, ax)];
    let mut k = 0;
    for s in srcs {
        let mut x = block([28, 29][k & 1], [0, 3][k & 1], "", 0, k as u8);
        lines(&mut x, ax, 10 * k as u8);
        match &mut i { Some(i) => i.add(s, x), None => w.add(s, x) }
        k += 1;
    }
    for s in srcs { for p in onto(s, off, n) {
        if w.block(p).is_some() { continue }
        let mut x = block([29, 28, 27, 25][k & 3], [2, 1, 7, 4][k & 3], "", 0, k as u8);
        lines(&mut x, ax, 10 * k as u8);
        w.add(p, x);
        k += 1;
    } }
    (w, i)
}
fn area(two: bool, all: bool) {
    let (b, ax, cl, _) = corner(&[[0, 2], [3, 1]], all);
    let k = if all { sym::choose("offset", 6) } else { 2 * sym::choose("offset", 3) + (ax & 1) };
    let off = offset_of(k, ax);
    let (w, i) = scene(ax, b, off, two, if all { 8 } else { 2 });
    let bx = one_axis(b, ax, cl, 1, if all { 32 } else { 17 });
    // towards the map's limits the destination may be beyond them
    for k in 0..3 { sym::assume((bx.lo[k] + off[k] <= 31000) & (bx.hi[k] + off[k] >= -31000)) }
    match i { Some(i) => do_shifted("C12", w, i, Some(bx), off), None => do_clone("C09", w, bx, off) }
}
fn c09_area() { area(false, false) }
fn c09_all() { area(false, true) }
fn c12_area() { area(true, false) }
fn c12_all() { area(true, true) }
/// Every offset along one axis, with sources that cover two blocks in part.
fn shift(two: bool) {
    let (ax, kind) = (sym::choose("axis", 3), sym::choose("kind", 2));
    let b = PLACES[kind];
    let mut off = [[0, 0, 0], [3, -16, 16]][kind];
    off[ax] = sym::pick(sym::extent("offset", -36, 36) as i64 as u64) as i64 as i32;
    sym::assume(off != [0; 3]);
    let (w, i) = scene(ax, b, off, two, 2);
    let mut bx = Bx { lo: [16 * b[0] + 1, 16 * b[1], 16 * b[2] + 2], hi: [16 * b[0] + 12, 16 * b[1] + 15, 16 * b[2] + 14] };
    bx.lo[ax] = 16 * b[ax] + 3;
    bx.hi[ax] = 16 * b[ax] + 21;
    match i { Some(i) => do_shifted("C12", w, i, Some(bx), off), None => do_clone("C09", w, bx, off) }
}
fn c09_offset() { shift(false) }
fn c12_offset() { shift(true) }

/// All pairs of name tables and any ids in some of the nodes.
fn table_of(p: &str, two: bool, all: bool) {
    let (t, u) = (sym::choose("from", TABLES), sym::choose("to", TABLES));
    let (v, s) = if all { (sym::choose("version", 4), sym::choose("area", 3)) } else { ((t + u) % 4, (t + 2 * u) % 3) };
    let vers = [25u8, 27, 28, 29];
    let from = [-3, 4, -1];
    let to = [-3, 5, -1];
    let mut w = world("main");
    let mut i = if two { Some(world("input")) } else { None };
    let sb = block(vers[v], t, "from", 2, 1);
    match &mut i { Some(i) => i.add(from, sb), None => w.add(from, sb) }
    let mut db = block(vers[(v + 1 + t) % 4], u, "to", 0, 2);
    // a node that stays and one that is replaced
    let tab = db.names.clone();
    db.ids[SPOTS[1] + 7] = any_id("to.id", &tab);
    w.add(to, db);
    let lo = [16 * from[0], 16 * from[1], 16 * from[2]];
    let (bx, off) = match s {
        0 => (Bx { lo, hi: add(lo, [15, 15, 15]) }, [0, 16, 0]),
        1 => (Bx { lo: add(lo, [-9, 0, 0]), hi: add(lo, [8, 15, 15]) }, [0, 16, 0]),
        _ => (Bx { lo, hi: add(lo, [15, 15, 15]) }, [-2, 13, 1]),
    };
    match i { Some(i) => do_shifted(p, w, i, Some(bx), off), None => do_clone(p, w, bx, off) }
}
fn c09_table() { table_of("C09", false, false) }
fn c12_table() { table_of("C12", true, false) }
fn c18_clone() { table_of("C18", false, false) }
fn c18_shifted() { table_of("C18", true, false) }

/// Metadata at any node of a line, with any contents, onto blocks that have some there or elsewhere.
fn meta_of(two: bool) {
    let (ax, v) = (sym::choose("axis", 3), sym::choose("version", 4));
    let vers = [25u8, 27, 28, 29];
    let (b, off) = ([2, -3, 1], [[5, 0, 16], [-16, 16, 0], [0, -7, -7]][ax]);
    let mut w = world("main");
    let mut i = if two { Some(world("input")) } else { None };
    let mut x = block(vers[v], 0, "", 0, 0);
    x.meta.clear();
    let at = |n: &str, c: P3| -> u16 { let k = sym::extent(n, 0, 15); let mut s = c; s[ax] = k; (s[0] | s[1] << 4 | s[2] << 8) as u16 };
    x.meta.push(Meta { pos: at("from", [4, 9, 7]), vars: vec![Var { name: sym::vec("name", 2), val: sym::vec("value", 3), private: sym::u8("private") & 1 }, var("other", "", 0)], inv: inv(&["Item default:stone 7", "Empty"]) });
    x.meta.push(Meta { pos: 0xFFF, vars: vec![], inv: inv(&["Item a:b 1 2"]) });
    match &mut i { Some(i) => i.add(b, x), None => w.add(b, x) }
    let mut k = 0;
    let c = add([4, 9, 7], [off[0] & 15, off[1] & 15, off[2] & 15]);
    for p in onto(b, off, 3) {
        if w.block(p).is_some() { continue }
        let mut x = block(vers[(v + k + 1) % 4], 1, "", 0, k as u8 + 1);
        x.meta.clear();
        if k == 0 { x.meta.push(Meta { pos: at("to", [c[0] & 15, c[1] & 15, c[2] & 15]), vars: vec![var("old", "1", (k & 1) as u8)], inv: inv(&["Empty"]) }) }
        w.add(p, x);
        k += 1;
    }
    let lo = [16 * b[0], 16 * b[1], 16 * b[2]];
    let mut bx = Bx { lo, hi: add(lo, [15, 15, 15]) };
    bx.lo[ax] += 3;
    bx.hi[ax] -= 2;
    match i { Some(i) => do_shifted("C12", w, i, Some(bx), off), None => do_clone("C09", w, bx, off) }
}
fn c09_meta() { meta_of(false) }
fn c12_meta() { meta_of(true) }

/// At the limits of the map, and with the longest offsets.
fn edge(two: bool) {
    let (m, b) = (31000, [0, 0, 0]);
    let all = Bx { lo: [-m; 3], hi: [m; 3] };
    // (area, offset, source block, destination block)
    let (bx, off, s, d): (Bx, P3, P3, P3) = match sym::choose("case", 8) {
        0 => (all, [16, 0, 0], [1936, 0, 0], [1937, 0, 0]),
        1 => (all, [0, -16, 0], [3, -1936, -1937], [3, -1937, -1937]),
        2 => (Bx { lo: [m - 12; 3], hi: [m; 3] }, [-61984, -61984, -61984], [1937; 3], [-1937; 3]),
        3 => (Bx { lo: [-m; 3], hi: [-m + 20, -m + 20, -m + 20] }, [61984, 61984, 61984], [-1937; 3], [1937; 3]),
        4 => (Bx { lo: [m - 20, 0, 0], hi: [m, 15, 15] }, [9, 0, 0], [1936, 0, 0], [1937, 0, 0]),
        5 => (all, [62000, -62000, 62000], [-1937, 1937, -1937], [1937, -1937, 1937]),
        6 => (Bx { lo: [-m; 3], hi: [-m; 3] }, [m, m, m], [-1937; 3], b),
        _ => (Bx { lo: [0, 0, m], hi: [0, 0, m] }, [0, 0, -2 * m], [0, 0, 1937], [0, 0, -1937]),
    };
    let mut w = world("main");
    let mut i = if two { Some(world("input")) } else { None };
    let mut x = block(28, 0, "", 0, 1);
    x.ids[4095] = any_id("id", &x.names.clone());
    x.p1[0] = sym::u8("p1");
    x.p2[4095] = sym::u8("p2");
    match &mut i { Some(i) => i.add(s, x), None => w.add(s, x) }
    w.add(d, block(29, 3, "", 0, 2));
    w.add([4, 4, 4], block(29, 3, "", 0, 3));
    match i { Some(i) => do_shifted("C12", w, i, if sym::boolean("whole") && bx.lo == all.lo { None } else { Some(bx) }, off), None => do_clone("C09", w, bx, off) }
}
fn c09_edge() { edge(false) }
fn c12_edge() { edge(true) }

/// Blocks that are missing or not generated, in source and destination.
fn sparse(p: &str, two: bool) {
    let ax = sym::choose("axis", 3);
    let k = sym::choose("offset", 2);
    let b = PLACES[ax];
    let off = offset_of([0, 2][k], ax);
    let (s0, s1) = (b, next_to(b, ax));
    let mut w = world("main");
    let mut i = if two { Some(world("input")) } else { None };
    let mut n = 0;
    let mut dsts: Vec<P3> = onto(s0, off, 2);
    for q in onto(s1, off, 2) { if !dsts.contains(&q) { dsts.push(q) } }
    let mut put = |w: &mut W, q: P3| {
        n += 1;
        if w.block(q).is_some() || !sym::boolean(&format!("stored{}", n)) { return }
        let mut x = block([25u8, 29, 27, 28][n % 4], [0, 3, 2, 7][n % 4], "", 0, n as u8);
        // any flags at all
        if n % 2 == k { x.flags = sym::u8("flags") } else if sym::boolean("ungenerated") { x.flags |= 8 }
        w.add(q, x);
    };
    match &mut i { Some(i) => { put(i, s0); put(i, s1) } None => { put(&mut w, s0); put(&mut w, s1) } }
    for q in dsts.into_iter().filter(|q| valid(*q)).take(3) { put(&mut w, q) }
    let lo = [16 * b[0].min(s1[0]), 16 * b[1].min(s1[1]), 16 * b[2].min(s1[2])];
    let hi = [16 * b[0].max(s1[0]) + 15, 16 * b[1].max(s1[1]) + 15, 16 * b[2].max(s1[2]) + 15];
    let c = |v: P3| [within(v[0]), within(v[1]), within(v[2])];
    let bx = Bx { lo: c(lo), hi: c(hi) };
    match i { Some(i) => do_shifted(p, w, i, Some(bx), off), None => do_clone(p, w, bx, off) }
}
fn c09_sparse() { sparse("C09", false) }
fn c24_clone() { sparse("C24", false) }
fn c24_shifted() { sparse("C24", true) }

/// Without an area, all of the input map is shifted.
fn c12_whole() {
    let k = sym::choose("offset", 6);
    let off = offset_of(k, k % 3);
    let b = PLACES[1];
    let mut w = world("main");
    let mut i = world("input");
    for (n, d) in [[0, 0, 0], [1, 0, 0], [0, 1, 1]].iter().enumerate() {
        let mut x = block([28, 29, 27][n], [0, 3, 2][n], &format!("i{}", n), 1, n as u8);
        lines(&mut x, n, n as u8);
        i.add(add(b, *d), x);
    }
    let mut n = 3;
    for q in onto(b, off, 8).into_iter().chain([[9, 9, 9]]) {
        n += 1;
        let x = block([25u8, 28, 29, 27][n & 3], n & 7, "", 0, n as u8);
        w.add(q, x);
    }
    do_shifted("C12", w, i, None, off);
}
/// Source and destination overlap: a row of blocks along an axis, any offset along it.
fn near(all: bool) {
    let ax = sym::choose("axis", 3);
    let (s, t) = if all { (sym::choose("second", 3), sym::choose("third", 3)) } else { let s = sym::choose("second", 3); (s, (2 * s + ax) % 3) };
    let b = [3, -2, 1];
    let mut w = world("main");
    let mut off = [0; 3];
    off[(ax + 1) % 3] = [0, 4, -16][s];
    off[(ax + 2) % 3] = [0, -5, 9][t];
    off[ax] = sym::pick(sym::extent("offset", -20, 20) as i64 as u64) as i64 as i32;
    let mut n = 0;
    let m = if off[(ax + 1) % 3] != 0 { 2 } else { 1 };
    for k in 0..3 { for l in 0..m {
        let mut q = b;
        q[ax] += k;
        q[(ax + 1) % 3] += l;
        let mut x = block([28, 29, 27][n % 3], [0, 3, 2, 7][n % 4], "", 0, n as u8);
        lines(&mut x, ax, 10 * n as u8);
        w.add(q, x);
        n += 1;
    } }
    let lo = [16 * b[0], 16 * b[1], 16 * b[2]];
    let mut bx = Bx { lo, hi: add(lo, [15, 15, 15]) };
    bx.hi[ax] += 32;
    bx.hi[(ax + 1) % 3] += 16 * (m - 1);
    bx.lo[ax] += 2;
    do_clone("C10", w, bx, off);
}
fn c10_near() { near(false) }
fn c10_shift() { near(true) }
/// So many blocks between a source and the block onto which it is copied that what was read first is read anew.
fn crowd(p: &str, two: bool, ax: usize, short: bool) {
    let sg = [1, -1];
    let mut off = [0; 3];
    // the other axes: unaligned in any direction, so that each block looks for eight others
    let sub = 1 + 6 * sym::choose("sub", 2) as i32;
    let n: i32 = if short && !two { 284 } else if two { 140 } else { 120 };
    for k in 0..3 { off[k] = sg[sym::choose(["x", "y", "z"][k], 2)] * sub }
    // along the axis, the blocks Z, A and B are copied from one to the next
    let step = if short { 1 } else if ax == 0 { 2 * n + 2 } else { 3 };
    let d = off[ax].signum();
    if !short { off[ax] += d * 16 * step }
    let c = [0, 3, -4];
    let mut w = world("main");
    let mut i = if two { Some(world("input")) } else { None };
    let mut late = vec![];
    for k in 0..3 {
        let mut q = c;
        q[ax] += d * step * (k as i32 - 1);
        let mut x = block([28, 29, 28][k], [0, 3, 2][k], "", 0, k as u8 + 1);
        x.p1[2000] = sym::u8(["p1.z", "p1.a", "p1.b"][k]);
        if let Some(i) = &mut i { let mut y = x.clone(); for v in y.p2.iter_mut() { *v ^= 0x55 } y.p1[2000] = sym::u8(["in.z", "in.a", "in.b"][k]); i.add(q, y) }
        late.push((q, x));
        // another block onto which A is copied in part
        if k == 2 { let s = if ax == 0 { 1 } else { 0 }; q[s] += off[s].signum(); late.push((q, block(29, 1, "", 0, 9))) }
    }
    // the table's rows are in the order in which they were written: Z, A, what is between, B, the other
    let last = late.split_off(2);
    for (q, x) in late { w.add(q, x) }
    // blocks between A and B in whatever order these are visited, none of whose sources are stored
    let mut x = Block::new(28, BAR);
    x.ids[1] = 0;
    let enc = spec::encode(&x);
    let mut bx = Bx { lo: [-16 * 700; 3], hi: [16 * 700; 3] };
    for k in 0..3 { if k != ax && !(ax != 0 && k == 0) { bx.lo[k] = 16 * c[k] - 40; bx.hi[k] = 16 * c[k] + 55 } }
    let mut fill: Vec<P3> = vec![];
    for i in 0..n {
        let mut q = c;
        if ax == 0 { q[0] = c[0] + d * (2 * i + 2) } else { q[0] = 2 * i - n + if 2 * i < n { -1 } else { 3 }; q[ax] = c[ax] + d * (if short && !two { 0 } else if short { i % 2 } else { 1 + i % 2 }) }
        fill.push(q);
    }
    for q in &fill { w.m.put(key(*q), &enc) }
    for (q, x) in last { w.add(q, x) }
    let r = match &i { None => run(clone_args(&w, bx, off)), Some(i) => run(overlay_args(&w, i, if short { Some(bx) } else { None }, off)) };
    sym::check(r.ok() && r.skipped().is_none(), &format!("{} the command completes", p));
    let rows = w.m.rows();
    let (few, many): (Vec<_>, Vec<_>) = rows.into_iter().partition(|r| w.raw.iter().any(|x| x.0 == r.0));
    sym::check(many.len() == fill.len(), &format!("{} the same blocks are stored", p));
    let bx = if two && !short { None } else { Some(bx) };
    verify(p, i.as_ref().unwrap_or(&w), &w, bx, off, &few);
    note_run(&r);
    for (k, d) in &few { if let Some(b) = spec::decode(d) { sym::observe(&format!("block{}", k), &[b.p1[2000], b.p2[77], b.meta.len() as u8]) } }
}
fn c10_many() { crowd("C10", false, sym::choose("axis", 3), false) }
/// The same with offsets shorter than a block.
fn c10_close() { crowd("C10", false, 1 + sym::choose("axis", 2), true) }
fn c12_many() { let ax = sym::choose("axis", 3); crowd("C12", true, ax, ax != 0 && sym::boolean("short")) }

/// A map file for overlaying without an offset: what each block of the main map is to be afterwards.
fn laid(p: &str, w: &W, i: &W, sel: Sel, d: &[(i64, Vec<u8>)]) {
    let mut keys: Vec<P3> = w.bl.iter().map(|b| b.0).collect();
    for b in &i.bl { if !keys.contains(&b.0) { keys.push(b.0) } }
    let mut rows = 0;
    for at in keys {
        let k = key(at);
        let (own, src) = (w.block(at), i.block(at).filter(|b| b.flags & 8 == 0));
        // all of the block is selected, or some of it
        let (whole, some) = match sel.bx {
            None => (true, true),
            Some(x) => {
                let (mut inside, mut touch) = (true, true);
                for c in 0..3 { inside &= (x.lo[c] <= 16 * at[c]) & (16 * at[c] + 15 <= x.hi[c]); touch &= (x.lo[c] <= 16 * at[c] + 15) & (16 * at[c] <= x.hi[c]) }
                if sel.invert { (!touch, !inside) } else { (inside, touch) }
            }
        };
        let now = row(d, k);
        if now.is_some() { rows += 1 }
        let src = match src { Some(s) if some => s, _ => { sym::check(w.same(d, k), &format!("{} blocks without a selected generated counterpart stay as they were", p)); continue } };
        if whole { sym::check(match (now, i.before(k)) { (Some(a), Some(b)) => sym::eq(a, b), _ => false }, &format!("{} a fully selected block is the input map's", p)); continue }
        let own = match own { Some(o) if o.flags & 8 == 0 => o, _ => { sym::check(w.same(d, k), &format!("{} nothing is copied in part into blocks that are missing or not generated", p)); continue } };
        let g = match now.and_then(spec::decode) { Some(g) => g, None => { sym::check(false, &format!("{} the block can be read afterwards", p)); continue } };
        if p == "C18" { sym::check(spec::consistent(&g), "C18 every id has a name and no name appears twice") }
        let m = sel.mask(at);
        let (to, ts, tg) = (own.codes(NAMES), src.codes(NAMES), g.codes(NAMES));
        let (mut bad, mut bad1, mut bad2) = (0, 0, 0);
        for n in 0..4096 {
            let (a, b) = (spec::code(&ts, src.ids[n]), spec::code(&to, own.ids[n]));
            bad |= spec::code(&tg, g.ids[n]) ^ if m[n] { a } else { b };
            bad1 |= g.p1[n] ^ if m[n] { src.p1[n] } else { own.p1[n] };
            bad2 |= g.p2[n] ^ if m[n] { src.p2[n] } else { own.p2[n] };
        }
        sym::check(bad == 0, &format!("{} each node's name", p));
        if p == "C18" { continue }
        sym::check(bad1 == 0, &format!("{} param1", p));
        sym::check(bad2 == 0, &format!("{} param2", p));
        sym::check(g.flags & 8 == 0, &format!("{} the block is still marked as generated", p));
        let mut want: Vec<(bool, Meta)> = vec![];
        for (b, of_src) in [(own, false), (src, true)] { for x in b.meta.iter().filter(|x| spec::full(x)) {
            let c = coords(x.pos);
            let s = sel.bx.map_or(true, |v| v.has([16 * at[0] + c[0], 16 * at[1] + c[1], 16 * at[2] + c[2]]) != sel.invert);
            let mut x = x.clone();
            if g.ver < 28 { for v in x.vars.iter_mut() { v.private = 0 } }
            want.push((s == of_src, x));
        } }
        let got: Vec<&Meta> = g.meta.iter().filter(|x| spec::full(x)).collect();
        sym::check(same_metas(&want, &got), &format!("{} metadata", p));
        sym::check(spec::eq_objs(&g.objs, &own.objs) | spec::eq_objs(&g.objs, &src.objs), &format!("{} objects are those of one of the two blocks", p));
        sym::check(spec::eq_timers(&g.timers, &own.timers) | spec::eq_timers(&g.timers, &src.timers), &format!("{} timers are those of one of the two blocks", p));
    }
    sym::check(d.len() == rows, &format!("{} nothing else is stored", p));
}
fn do_overlay(p: &str, w: W, i: W, sel: Sel, zero: bool) {
    let mut a = overlay_args(&w, &i, sel.bx, [0; 3]);
    a.invert = sel.invert;
    if zero { a.offset = Some(v3([0, 0, 0])) }
    let r = run(a);
    sym::check(r.ok() && r.skipped().is_none(), &format!("{} the command completes", p));
    laid(p, &w, &i, sel, &w.m.rows());
    sym::check(i.same_all(&i.m.rows()), &format!("{} the input map stays as it was", p));
    note_run(&r);
    note_map(&w.m);
}
fn over_area(all: bool) {
    let (b, ax, cl, invert) = corner(&[[1, 0], [2, 3], [0, 0]], all);
    let mut w = world("main");
    let mut i = world("input");
    let n = next_to(b, ax);
    let far = next_to(n, (ax + 1) % 3);
    let ver = |k: usize| [28u8, 29, 27, 25][k % 4];
    let mut k = 0;
    for at in [b, n] { for m in [&mut i, &mut w] {
        let mut x = block(ver(k + ax), [0, 3, 2, 1][k], "", 0, k as u8);
        lines(&mut x, ax, 10 * k as u8);
        m.add(at, x);
        k += 1;
    } }
    // blocks stored on one side only
    i.add(far, block(28, 1, "", 0, 7));
    w.add(sub(far, [0, 0, 3]), block(29, 1, "", 0, 8));
    let bx = one_axis(b, ax, cl, 2, if all { 33 } else { 18 });
    do_overlay("C11", w, i, Sel { bx: Some(bx), invert }, ax == 1);
}
fn c11_area() { over_area(false) }
fn c11_all() { over_area(true) }
/// All blocks; blocks at the map's limits; nothing stored.
fn c11_whole() {
    let mut w = world("main");
    let mut i = world("input");
    let mut n = 0;
    for at in PLACES.iter().chain(&[[1937; 3], [-1937; 3], [7, 7, 7], [7, 8, 7]]) {
        n += 1;
        let mut x = block([28, 29, 27, 25][n % 4], n % 8, "", 0, n as u8);
        if n < 3 { x.flags = sym::u8("flags"); x.p2[5] = sym::u8("p2") }
        if n != 4 { i.add(*at, x) }
        let mut x = block([28, 29, 27, 25][(n + 2) % 4], (n + 1) % 8, "", 0, n as u8 + 20);
        if n == 2 { x.flags = sym::u8("own") }
        if n != 3 && n != 6 { w.add(*at, x) }
    }
    do_overlay("C11", w, i, Sel { bx: None, invert: false }, sym::boolean("zero"));
}
fn over_table(p: &str) {
    let (t, u) = (sym::choose("from", TABLES), sym::choose("to", TABLES));
    let invert = sym::boolean("invert");
    let vers = [25u8, 27, 28, 29];
    let at = [-3, 4, -1];
    let mut w = world("main");
    let mut i = world("input");
    i.add(at, block(vers[(t + u) % 4], t, "from", 2, 1));
    let mut db = block(vers[(t + 2 * u + 1) % 4], u, "to", 0, 2);
    let tab = db.names.clone();
    db.ids[SPOTS[1] + 7] = any_id("to.id", &tab);
    w.add(at, db);
    let lo = [16 * at[0], 16 * at[1], 16 * at[2]];
    let bx = if (t + u) % 2 == 0 { Bx { lo: add(lo, [-9, 0, 0]), hi: add(lo, [8, 15, 15]) } } else { Bx { lo: add(lo, [5, 3, 4]), hi: add(lo, [15, 15, 15]) } };
    do_overlay(p, w, i, Sel { bx: Some(bx), invert }, false);
}
fn c11_table() { over_table("C11") }
fn c18_overlay() { over_table("C18") }
fn c11_meta() {
    let (ax, v, invert) = (sym::choose("axis", 3), sym::choose("version", 4), sym::boolean("invert"));
    let vers = [25u8, 27, 28, 29];
    let b = [2, -3, 1];
    let at = |n: &str| -> u16 { let k = sym::extent(n, 0, 15); let mut s = [4, 9, 7]; s[ax] = k; (s[0] | s[1] << 4 | s[2] << 8) as u16 };
    let mut w = world("main");
    let mut i = world("input");
    let mut x = block(vers[v], 0, "", 0, 0);
    x.meta.clear();
    x.meta.push(Meta { pos: at("from"), vars: vec![Var { name: sym::vec("name", 2), val: sym::vec("value", 3), private: sym::u8("private") & 1 }, var("other", "", 0)], inv: inv(&["Item default:stone 7", "Empty"]) });
    x.meta.push(Meta { pos: 0xFFF, vars: vec![], inv: inv(&["Item a:b 1 2"]) });
    i.add(b, x);
    let mut x = block(vers[(v + ax + 1) % 4], 1, "", 0, 1);
    x.meta.clear();
    x.meta.push(Meta { pos: at("to"), vars: vec![Var { name: b"old".to_vec(), val: sym::vec("was", 2), private: sym::u8("secret") & 1 }], inv: inv(&["Empty"]) });
    w.add(b, x);
    let lo = [16 * b[0], 16 * b[1], 16 * b[2]];
    let mut bx = Bx { lo, hi: add(lo, [15, 15, 15]) };
    bx.lo[ax] += 3;
    bx.hi[ax] -= 2;
    do_overlay("C11", w, i, Sel { bx: Some(bx), invert }, false);
}
/// Which of the two maps' blocks are stored and generated, for blocks selected fully, in part, or not at all.
fn c24_overlay() {
    let invert = sym::boolean("invert");
    let at = [-3, 4, -1];
    let mut w = world("main");
    let mut i = world("input");
    let v = sym::choose("version", 4);
    let which = sym::choose("block", 3);
    for (k, d) in [[0, 0, 0], [1, 0, 0], [3, 0, 0]].iter().enumerate() {
        for (m, nm) in [(&mut i, "input"), (&mut w, "main")] {
            let one = k == which;
            if one && !sym::boolean(&format!("{}.stored", nm)) { continue }
            let mut x = block([25u8, 29, 27, 28][(v + k + nm.len()) % 4], [0, 3, 2][k], "", 0, (k + nm.len()) as u8);
            if one { x.flags = sym::u8(&format!("{}.flags", nm)) }
            m.add(add(at, *d), x);
        }
    }
    let lo = [16 * at[0], 16 * at[1], 16 * at[2]];
    do_overlay("C24", w, i, Sel { bx: if sym::boolean("everything") { sym::assume(!invert); None } else { Some(Bx { lo, hi: add(lo, [20, 15, 15]) }) }, invert }, false);
}
/// Data too short to be a block or of an unsupported version is not copied.
fn c24_short() {
    let n = sym::choose("length", 5);
    let d = sym::vec("bytes", n);
    let at = [-3, 4, -1];
    let there = sym::boolean("there");
    let mut w = world("main");
    let mut i = world("input");
    i.add_raw(at, &d);
    if there { w.add(at, block(28, 0, "", 0, 0)) }
    let lo = [16 * at[0], 16 * at[1], 16 * at[2]];
    let (bx, invert) = match sym::choose("area", 4) {
        0 => (None, false),
        1 => (Some(Bx { lo, hi: add(lo, [15; 3]) }), false),
        2 => (Some(Bx { lo, hi: add(lo, [3; 3]) }), false),
        _ => (Some(Bx { lo: [0; 3], hi: [5; 3] }), true),
    };
    let mut a = overlay_args(&w, &i, bx, [0; 3]);
    a.invert = invert;
    let r = run(a);
    sym::check(r.ok(), "C24 the command completes");
    let rows = w.m.rows();
    let generated = n >= 2 && (d[0] >= 25) & (d[0] <= 29) & (d[0] == 29 || d[1] & 8 == 0);
    if !generated || (n < 5 && d[0] == 29) { sym::check(w.same_all(&rows), "C24 data that is not a generated block is not copied") }
    note_run(&r);
}
