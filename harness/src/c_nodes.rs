//! fill, replacenodes and setparam2: C06, C07, C08, and what C18 and C26 say about them.
use super::kit::*;
use super::spec::{self, Block};
use super::sym;

entries! { c06_all, c07_all, c08_all, c06_area, c06_table, c07_area, c07_table, c08_area, c08_table, c06_long, c07_long, c08_long, c18_long, c18_fill, c18_replace, c26_fill, c26_replace, c26_param2 }

/// What a command is to have done to the nodes of one block: the number of the name and param2, for each node.
struct Want { names: Vec<u32>, p2: Vec<u8> }

/// Compares a block with what it should be, and says how.
fn compare(p: &str, g: &Option<Block>, b: &Block, w: &Want, touched: bool) {
    match g {
        None => sym::check(false, &format!("{} the block can be read afterwards", p)),
        Some(g) if p == "C18" => { if touched { sym::check(spec::consistent(g), "C18 every id has a name and no name appears twice"); names(p, g, w) } }
        Some(g) => {
            sym::check(spec::eq_head(g, b) & spec::eq_objs(&g.objs, &b.objs) & spec::eq_timers(&g.timers, &b.timers), &format!("{} flags, time stamp, objects and timers", p));
            sym::check(spec::eq_meta(&g.meta, &b.meta), &format!("{} metadata", p));
            sym::check(sym::eq(&g.p1, &b.p1), &format!("{} param1", p));
            sym::check(sym::eq(&g.p2, &w.p2), &format!("{} param2", p));
            names(p, g, w)
        }
    }
}
fn names(p: &str, g: &Block, w: &Want) {
    let t = g.codes(NAMES);
    let mut bad = 0;
    for i in 0..4096 { bad |= spec::code(&t, g.ids[i]) ^ w.names[i] }
    sym::check(bad == 0, &format!("{} each node's name", p));
}
#[derive(Clone, Copy, PartialEq)]
enum Cmd { Fill, Replace, Param2 }
const P2: u8 = 0xA7;
/// Runs a command on a map and compares every block with what the manual says; `p` is the property in question.
fn go(p: &str, c: Cmd, w: W, sel: Sel, node: bool, ungen: bool) { change(p, c, w, sel, if node { Some(1) } else { None }, 2, ungen) }
/// With the numbers of the old and the new name.
fn change(p: &str, c: Cmd, w: W, sel: Sel, old: Option<u32>, new: u32, ungen: bool) {
    let mut a = args(match c { Cmd::Fill => "fill", Cmd::Replace => "replacenodes", Cmd::Param2 => "setparam2" }, &w.m);
    sel.set(&mut a);
    if c != Cmd::Param2 { a.new_node = Some(String::from_utf8(NAMES[new as usize].to_vec()).unwrap()) } else { a.param2 = Some(P2) }
    if let Some(k) = old { a.node = Some(String::from_utf8(NAMES[k as usize].to_vec()).unwrap()) }
    let r = run(a);
    sym::check(r.ok(), &format!("{} the command completes", p));
    let d = w.m.rows();
    sym::check(w.same_keys(&d), &format!("{} the same blocks are stored", p));
    let mut count = 0u64;
    for (at, b) in &w.bl {
        let m = sel.mask(*at);
        let t = b.codes(NAMES);
        let mut x = Want { names: Vec::with_capacity(4096), p2: b.p2.clone() };
        let mut any = false;
        let mut n = 0;
        for i in 0..4096 {
            let was = spec::code(&t, b.ids[i]);
            let s = m[i] & old.map_or(true, |k| was == k);
            x.names.push(if s & (c != Cmd::Param2) { new } else { was });
            if c == Cmd::Param2 { x.p2[i] = if s { P2 } else { b.p2[i] } }
            n = u64::wrapping_add(n, s as u64);
            any |= m[i];
        }
        if ungen && b.flags & 8 != 0 { if p != "C26" { sym::check(w.same(&d, key(*at)), &format!("{} a block that is not generated stays as it is", p)) } continue }
        count += n;
        if p != "C26" { compare(p, &read(&d, *at), b, &x, any) }
    }
    if p == "C26" {
        if let Some(x) = sel.bx { for k in 0..3 { sym::pick(x.lo[k] as i64 as u64); sym::pick(x.hi[k] as i64 as u64); } }
        let msg = match c { Cmd::Fill => ("", " nodes filled."), Cmd::Replace => ("", " nodes replaced."), Cmd::Param2 => ("Set param2 of ", " nodes.") };
        let shown = r.logs.iter().filter(|l| l.0 == 'i').find_map(|l| l.1.strip_prefix(msg.0)?.strip_suffix(msg.1));
        sym::check(shown.map_or(false, |s| shows(s, sym::pick(count))), "C26 the reported number of nodes");
        sym::check(r.skipped().is_none(), "C26 nothing is reported as skipped");
    }
    note_run(&r);
    note_map(&w.m);
}
/// All extents of a selection along each axis, around a block and its neighbour.
fn area(p: &str, c: Cmd, node: bool, classes: &[[usize; 2]], below: i32, above: i32, all: bool) {
    let (at, ax, cl, invert) = corner(classes, all);
    let mut w = world("main");
    let mut b = rich(28, 0, "b", 0);
    b.ids[77] = 1;
    w.add(at, b);
    w.add(next_to(at, ax), rich(29, 3, "n", 0));
    let sel = Sel { bx: Some(one_axis(at, ax, cl, below, above)), invert };
    go(p, c, w, sel, node, c == Cmd::Fill);
}
/// All name tables, versions and kinds of selection of a block, with any ids at three of its nodes.
fn tables(p: &str, c: Cmd, node: bool) {
    let at = [-3, 4, -1];
    let t = sym::choose("table", TABLES);
    let ver = [25u8, 27, 28, 29][sym::choose("version", 4)];
    let mut b = rich(ver, t, "b", 3);
    if c == Cmd::Fill && sym::boolean("ungen") { b.flags |= 8 }
    let (x, y, z) = (16 * at[0], 16 * at[1], 16 * at[2]);
    let (bx, invert) = match sym::choose("selection", if c == Cmd::Replace || (c == Cmd::Param2 && node) { 7 } else { 6 }) {
        0 => (Some(Bx { lo: [x, y, z], hi: [x + 15, y + 15, z + 15] }), false),
        1 => (Some(Bx { lo: [x, y, z], hi: [x + 15, y + 15, z + 15] }), true),
        2 => (Some(Bx { lo: [x - 30, y, z + 3], hi: [x + 7, y + 20, z + 9] }), false),
        3 => (Some(Bx { lo: [x - 30, y, z + 3], hi: [x + 7, y + 20, z + 9] }), true),
        4 => (Some(Bx { lo: [x + 5, y + 3, z + 4], hi: [x + 5, y + 3, z + 4] }), false),
        5 => (Some(Bx { lo: [x - 30, y + 16, z + 3], hi: [x + 7, y + 20, z + 9] }), true),
        _ => (None, false),
    };
    let mut w = world("main");
    w.add(at, b);
    go(p, c, w, Sel { bx, invert }, node, c == Cmd::Fill);
}
/// Names of more than 255 bytes, in the map and as arguments.
fn long(p: &str, c: Cmd, node: bool) {
    let at = [-3, 4, -1];
    let (t, v) = (sym::choose("table", 3) + 9, sym::choose("version", 4));
    let (old, new) = [(4, 2), (1, 4), (4, 5), (5, 4)][sym::choose("names", if c == Cmd::Fill { 2 } else { 4 })];
    let mut w = world("main");
    w.add(at, rich([25u8, 27, 28, 29][v], t, "b", 3));
    w.add(next_to(at, 0), rich([29u8, 28][v & 1], 9 + (t + 1) % 3, "n", 0));
    let (x, y, z) = (16 * at[0], 16 * at[1], 16 * at[2]);
    let bx = Bx { lo: [x - 30, y, z + 3], hi: [x + 7, y + 20, z + 9] };
    change(p, c, w, match sym::choose("selection", if c == Cmd::Fill || (c == Cmd::Param2 && !node) { 2 } else { 3 }) { 2 => Sel { bx: None, invert: false }, k => Sel { bx: Some(bx), invert: k == 1 } }, if node { Some(old) } else { None }, new, c == Cmd::Fill)
}
fn c06_long() { long("C06", Cmd::Fill, false) }
fn c07_long() { long("C07", Cmd::Replace, true) }
fn c08_long() { long("C08", Cmd::Param2, true) }
fn c18_long() { if sym::boolean("fill") { long("C18", Cmd::Fill, false) } else { long("C18", Cmd::Replace, true) } }
const CL: &[[usize; 2]] = &[[0, 0], [1, 2]];
fn c06_area() { area("C06", Cmd::Fill, false, CL, 2, 18, false) }
fn c06_table() { tables("C06", Cmd::Fill, false) }
fn c07_area() { area("C07", Cmd::Replace, true, CL, 2, 18, false) }
fn c07_table() { tables("C07", Cmd::Replace, true) }
fn c08_area() { area("C08", Cmd::Param2, sym::boolean("given"), CL, 2, 18, false) }
fn c08_table() { let n = sym::boolean("given"); tables("C08", Cmd::Param2, n) }
fn c06_all() { area("C06", Cmd::Fill, false, CL, 2, 33, true) }
fn c07_all() { area("C07", Cmd::Replace, true, CL, 2, 33, true) }
fn c08_all() { area("C08", Cmd::Param2, sym::boolean("given"), CL, 2, 33, true) }
fn c18_fill() { tables("C18", Cmd::Fill, false) }
fn c18_replace() { tables("C18", Cmd::Replace, true) }
fn c26_fill() { area("C26", Cmd::Fill, false, &[[1, 2], [2, 4]], 1, 18, false) }
fn c26_replace() { area("C26", Cmd::Replace, true, &[[1, 2], [2, 4]], 1, 18, false) }
fn c26_param2() { area("C26", Cmd::Param2, sym::boolean("given"), &[[1, 2], [2, 4]], 1, 18, false) }
