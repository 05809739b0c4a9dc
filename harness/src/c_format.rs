//! Reading a block and writing it back loses nothing (C01).
use super::kit::*;
use super::spec::{self, Block};
use super::{sym, world};

entries! { c01_nodes, c01_parts, c01_entries, c01_long, c01_many }

const P2: u8 = 0xA7;
/// Has setparam2 rewrite the block for the sake of one node, and compares everything.
fn rewrite(b: Block) {
    let at = [-3, 4, -1];
    let node = 1 + 16 * 2 + 256 * 3;
    let mut w = world("main");
    w.add(at, b);
    let b = w.bl[0].1.clone();
    let c = add([16 * at[0], 16 * at[1], 16 * at[2]], [1, 2, 3]);
    let mut a = args("setparam2", &w.m);
    Sel { bx: Some(Bx { lo: c, hi: c }), invert: false }.set(&mut a);
    a.param2 = Some(P2);
    let r = run(a);
    sym::check(r.ok() && r.skipped().is_none(), "C01 the block can be read");
    let d = w.m.rows();
    sym::check(w.same_keys(&d), "C01 the same blocks are stored");
    let g = match read(&d, at) { Some(g) => g, None => { sym::check(false, "C01 what is written can be read"); return } };
    sym::check(spec::eq_head(&g, &b), "C01 version, flags, lighting and time stamp");
    let mut p2 = b.p2.clone();
    p2[node] = P2;
    sym::check(sym::eq(&g.p1, &b.p1), "C01 param1");
    sym::check(sym::eq(&g.p2, &p2), "C01 param2");
    sym::check(spec::eq_meta(&g.meta, &b.meta), "C01 metadata");
    sym::check(spec::eq_objs(&g.objs, &b.objs), "C01 objects");
    sym::check(spec::eq_timers(&g.timers, &b.timers), "C01 node timers");
    // ids may be given anew: each must still stand for the name it stood for
    let u: Vec<&[u8]> = b.names.iter().map(|n| n.1.as_slice()).collect();
    sym::check(spec::eq_names(&g, &b, &u), "C01 node names");
    note_run(&r);
}
fn version() -> u8 { [25u8, 26, 27, 28, 29][sym::choose("version", 5)] }
/// Everything that is not in a list: header, ids, param1 and param2.
fn c01_nodes() {
    let ver = version();
    let mut b = rich(ver, 0, "b", 0);
    b.names = match sym::choose("names", 4) {
        0 => table(3),
        1 => vec![(0, AIR.to_vec()), (4095, OLD.to_vec()), (255, BAR.to_vec()), (256, NEW.to_vec())],
        2 => vec![(5, OLD.to_vec()), (1, AIR.to_vec())],
        _ => vec![(0, b"ignore".to_vec())],
    };
    for i in 0..4096 { b.ids[i] = b.names[i % b.names.len()].0 }
    b.flags = sym::u8("flags");
    b.light = if ver >= 27 { sym::u16("light") } else { 0xFFFF };
    b.time = sym::u32("time");
    for k in 0..16 { let i = k * 273; b.ids[i] = any_id(&format!("id{}", i), &b.names) }
    sym::bytes("param1", &mut b.p1);
    sym::bytes("param2", &mut b.p2);
    rewrite(b);
}
fn text(n: &str, len: usize) -> Vec<u8> { sym::vec(n, len) }
/// Lists of no, one and two things with arbitrary contents.
fn c01_parts() {
    let ver = version();
    let mut b = rich(ver, 0, "b", 0);
    b.meta.clear();
    b.objs.clear();
    b.timers.clear();
    b.flags = 0;
    match sym::choose("part", 3) {
        0 => {
            let (i, j) = (sym::u16("id1"), sym::u16("id2"));
            sym::assume((i != j) & (i < 4096) & (j < 4096));
            let l = sym::choose("length", 3);
            let (x, y) = (text("name1", l), text("name2", 2));
            sym::assume(!sym::eq(&x, &y));
            b.names = vec![(i, x), (j, y)];
            for k in 0..4096 { b.ids[k] = if k % 3 == 1 { i } else { j } }
        }
        1 => for k in 0..sym::choose("objects", 4) {
            let l = sym::choose("length", 3);
            b.objs.push(Obj { kind: sym::u8("type"), pos: [sym::i32("x"), sym::i32("y"), sym::i32("z")], data: text("data", l) });
            if k == 2 { b.objs.push(Obj { kind: 7, pos: [1, 2, 3], data: entity("a:b", "") }) }
        },
        _ => for _ in 0..sym::choose("timers", 4) {
            let pos = sym::u16("pos");
            sym::assume(pos < 4096);
            b.timers.push(Timer { pos, timeout: sym::u32("timeout"), elapsed: sym::u32("elapsed") })
        }
    }
    rewrite(b);
}
/// Many of each.
fn c01_many() {
    let ver = version();
    let mut b = rich(ver, 0, "b", 0);
    b.flags = sym::u8("flags");
    let name = |k: usize| format!("m:n{}", k).into_bytes();
    match sym::choose("many", 6) {
        0 => {
            let n = 300;
            b.names = (0..n).map(|k| (k as u16 * 13, name(k))).collect();
            for k in 0..4096 { b.ids[k] = (k % n) as u16 * 13 }
            b.timers = (0..n).map(|k| Timer { pos: (k * 7 % 4096) as u16, timeout: k as u32, elapsed: !k as u32 }).collect();
            b.objs = (0..n).map(|k| Obj { kind: k as u8, pos: [k as i32; 3], data: vec![k as u8; k % 5] }).collect();
            b.meta = (0..n).map(|k| Meta { pos: (k * 3) as u16, vars: vec![var("n", &format!("{}", k), 1)], inv: spec::END.to_vec() }).collect();
        }
        1 => b.timers = (0..4096usize).map(|k| Timer { pos: (k * 7 % 4096) as u16, timeout: k as u32, elapsed: !k as u32 }).collect(),
        2 => {
            b.names = (0..4096).map(|k| (k as u16, name(k))).collect();
            for k in 0..4096 { b.ids[k] = 4095 - k as u16 }
        }
        3 => b.meta = (0..4096).map(|k| Meta { pos: k as u16, vars: vec![var("n", &format!("{}", k), 0)], inv: spec::END.to_vec() }).collect(),
        4 => b.meta[0].vars = (0..1200).map(|k| Var { name: format!("{}", k).into_bytes(), val: vec![k as u8; 3], private: 0 }).collect(),
        _ => b.objs = (0..5000usize).map(|k| Obj { kind: k as u8, pos: [k as i32; 3], data: vec![k as u8; k % 5] }).collect(),
    }
    rewrite(b);
}
/// Metadata: positions, variables with their private flags, inventories.
fn c01_entries() {
    let ver = version();
    let mut b = rich(ver, 0, "b", 0);
    b.meta.clear();
    let n = sym::choose("entries", 3);
    for k in 0..n {
        let pos = sym::u16(&format!("pos{}", k));
        sym::assume(pos < 4096);
        for m in &b.meta { sym::assume(m.pos != pos) }
        let mut vars: Vec<Var> = vec![];
        for j in 0..sym::choose("variables", 3 - k) {
            let l = 2 - j;
            let v = Var { name: text("name", l), val: text("value", 2), private: sym::u8("private") };
            sym::assume(v.private <= 1);
            for x in &vars { sym::assume(!sym::eq(&x.name, &v.name)) }
            vars.push(v);
        }
        let mut i = inv(&["Item a:b 3 0 ", "Empty"]);
        match sym::choose("inventory", 3) {
            0 => i = spec::END.to_vec(),
            1 => {}
            _ => { let t = text("item", 2); sym::assume((t[0] != b'\n') & (t[1] != b'\n')); let at = i.iter().position(|c| *c == b'3').unwrap(); i[at] = t[0]; i[at + 1] = t[1] }
        }
        b.meta.push(Meta { pos, vars, inv: i });
    }
    // entries are stored in the order of their positions
    for k in 1..b.meta.len() { sym::assume(b.meta[k - 1].pos < b.meta[k].pos) }
    rewrite(b);
}
fn noise(n: usize) -> Vec<u8> { let mut s = 12345u32; (0..n).map(|_| { s = u32::wrapping_add(u32::wrapping_mul(s, 1664525), 1013904223); (s >> 24) as u8 }).collect() }
/// Strings longer than the compressors take in one go.
fn c01_long() {
    world::write_limit(30_000);
    let ver = version();
    let mut b = rich(ver, 0, "b", 0);
    let (n, tail) = (sym::choose("length", 3), text("tail", 3));
    let s = |n: usize| { let mut v = noise(n); v.extend_from_slice(&tail); v };
    match sym::choose("part", 4) {
        0 => b.objs.push(Obj { kind: 7, pos: [1, 2, 3], data: s([20, 40_000, 65_532][n]) }),
        1 => b.meta[0].vars.push(Var { name: b"long".to_vec(), val: s([20, 100_000, 300_000][n]), private: 0 }),
        2 => b.meta[0].vars.push(Var { name: s([20, 40_000, 65_532][n]), val: b"v".to_vec(), private: 0 }),
        _ => b.names[1].1 = s([20, 40_000, 65_532][n]),
    }
    rewrite(b);
}
