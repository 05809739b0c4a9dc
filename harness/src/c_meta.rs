//! deletemeta, deletetimers, deleteobjects, setmetavar and replaceininv: C13 to C17, and their counts (C26).
use super::kit::*;
use super::spec::{self, Block};
use super::sym;
use crate::instance::InstArgs;

entries! {
    c13_area, c13_all, c13_table, c14_area, c14_all, c14_table, c14_values, c15_area, c15_all, c15_round, c15_name, c15_item, c15_short, c15_many,
    c16_area, c16_all, c16_table, c16_vars, c17_area, c17_all, c17_table, c17_line, c17_rest, c17_word, c17_shape,
    c26_meta, c26_timers, c26_objects, c26_setvar, c26_inv, c26_crowd,
    c13_crowd, c14_crowd, c15_crowd, c16_crowd, c17_crowd, c13_long, c14_long, c15_long, c16_long, c17_long, c16_big, c17_big,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd { Meta, Timers, Objects, SetVar, Inv }
/// What is to be done: the options of the command besides its selection.
#[derive(Clone, Default)]
struct Opt { nodes: Vec<&'static [u8]>, key: Vec<u8>, value: Option<Vec<u8>>, item: Vec<u8>, new: Option<Vec<u8>>, delete: bool, delmeta: bool, obj: Option<Vec<u8>>, items: Option<Vec<Vec<u8>>> }
fn text(v: &[u8]) -> String { unsafe { String::from_utf8_unchecked(v.to_vec()) } }
impl Opt {
    fn set(&self, c: Cmd, a: &mut InstArgs) {
        match c {
            Cmd::Meta | Cmd::Timers => a.node = self.nodes.first().map(|n| text(n)),
            _ => a.nodes = self.nodes.iter().map(|n| text(n)).collect(),
        }
        match c {
            Cmd::SetVar => { a.key = Some(text(&self.key)); a.value = self.value.as_ref().map(|v| text(v)); a.delete = self.value.is_none() }
            Cmd::Inv => { a.item = Some(text(&self.item)); a.new_item = self.new.as_ref().map(|v| text(v)); a.delete = self.delete; a.delete_meta = self.delmeta }
            Cmd::Objects => { a.object = self.obj.as_ref().map(|v| text(v)); a.items = self.items.as_ref().map(|l| l.iter().map(|v| text(v)).collect()) }
            _ => {}
        }
    }
}
/// The node at each place of a block, as a number: is it one of the names?
fn named(b: &Block, t: &[(u16, u32)], pos: u16, o: &Opt) -> bool {
    if o.nodes.is_empty() { return true }
    let c = spec::code(t, b.ids[pos as usize]);
    let mut any = false;
    for n in &o.nodes { any |= NAMES.iter().position(|x| x == n).map_or(false, |k| c == k as u32) }
    any
}
/// A line of an inventory after the item was replaced; None: the line is not a stack of the item.
/// `exact`: all of the text; otherwise the count and the wear, in the order of the text.
fn stack(line: &[u8], o: &Opt) -> Option<Line> {
    let mut w: Vec<&[u8]> = vec![];
    let mut s = 0;
    for i in 0..line.len() { if line[i] == b' ' && w.len() < 4 { w.push(&line[s..i]); s = i + 1 } }
    w.push(&line[s..]);
    if w.len() < 2 || !sym::eq(w[0], b"Item") || !sym::eq(w[1], &o.item) { return None }
    if o.delete { return Some(Line::Text(b"Empty".to_vec())) }
    let name = o.new.clone().unwrap_or(o.item.clone());
    if o.delmeta { return Some(Line::Stack(name, w.get(2).map_or(b"1".to_vec(), |v| v.to_vec()), w.get(3).map_or(b"0".to_vec(), |v| v.to_vec()))) }
    let mut t = b"Item ".to_vec();
    t.extend_from_slice(&name);
    for p in &w[2..] { t.push(b' '); t.extend_from_slice(p) }
    Some(Line::Text(t))
}
enum Line { Text(Vec<u8>), Stack(Vec<u8>, Vec<u8>, Vec<u8>) }
impl Line {
    fn is(&self, l: &[u8]) -> bool {
        match self {
            Line::Text(t) => sym::eq(t, l),
            Line::Stack(n, c, w) => {
                let p: Vec<&[u8]> = split(l, b' ');
                p.len() >= 2 && p.len() <= 4 && sym::eq(p[0], b"Item") && sym::eq(p[1], n) && sym::eq(p.get(2).copied().unwrap_or(b"1"), c) && sym::eq(p.get(3).copied().unwrap_or(b"0"), w)
            }
        }
    }
}
fn split(l: &[u8], by: u8) -> Vec<&[u8]> {
    let mut w = vec![];
    let mut s = 0;
    for i in 0..l.len() { if l[i] == by { w.push(&l[s..i]); s = i + 1 } }
    w.push(&l[s..]);
    w
}
/// Is `got` the inventory `was` with every stack of the item replaced? Also the number of stacks.
fn inv_ok(was: &[u8], got: &[u8], o: &Opt) -> (bool, u64) {
    let (a, b) = (split(was, b'\n'), split(got, b'\n'));
    let mut n = 0;
    let mut ok = a.len() == b.len();
    for (i, l) in a.iter().enumerate() {
        match stack(l, o) { Some(x) => { n += 1; ok = ok && x.is(b[i.min(b.len() - 1)]) } None => ok = ok && sym::eq(l, b[i.min(b.len() - 1)]) }
    }
    (ok, n)
}
struct Count { items: u64, nodes: u64 }
/// The name and the data of an entity, if the object is one in the one known format.
fn entity_of(o: &Obj) -> Option<(&[u8], &[u8])> {
    let d = &o.data;
    if o.kind != 7 || d.len() < 3 || d[0] != 1 { return None }
    let n = (d[1] as usize) << 8 | d[2] as usize;
    if d.len() < 7 + n { return None }
    let l = (d[3 + n] as usize) << 24 | (d[4 + n] as usize) << 16 | (d[5 + n] as usize) << 8 | d[6 + n] as usize;
    if d.len() < 7 + n + l { return None }
    Some((&d[3..3 + n], &d[7 + n..7 + n + l]))
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { if h.len() < n.len() { return None } (0..=h.len() - n.len()).find(|&i| sym::eq(&h[i..i + n.len()], n)) }
fn item_of(d: &[u8]) -> &[u8] {
    if d.len() < 6 || !sym::eq(&d[..6], b"return") { return d }
    for m in [&b"itemstring=\""[..], b"[\"itemstring\"] = \""] {
        if let Some(p) = find(d, m) { let r = &d[p + m.len()..]; let e = r.iter().position(|c| *c == b' ' || *c == b'"').unwrap_or(r.len()); return &r[..e] }
    }
    b""
}
fn object_goes(ob: &Obj, sel: &Sel, o: &Opt) -> bool {
    if let Some(x) = sel.bx {
        let mut inside = true;
        // the nearest node is within lo..=hi
        for k in 0..3 { let v = ob.pos[k] as i64; inside &= (x.lo[k] as i64 * 10_000 - 5_000 <= v) & (v <= x.hi[k] as i64 * 10_000 + 4_999) }
        if inside == sel.invert { return false }
    }
    if o.obj.is_none() && o.items.is_none() { return true }
    match entity_of(ob) {
        None => false,
        Some((n, d)) => match (&o.obj, &o.items) {
            (Some(w), _) => sym::eq(n, w),
            (_, Some(l)) => sym::eq(n, b"__builtin:item") && (l.is_empty() || l.iter().any(|w| sym::eq(w, item_of(d)))),
            _ => true,
        },
    }
}
/// Checks one block against what it was before.
fn expect(p: &str, c: Cmd, b: &Block, g: &Block, at: P3, sel: &Sel, o: &Opt, n: &mut Count) {
    let t = b.codes(NAMES);
    let mut w = Block { meta: vec![], objs: vec![], timers: vec![], ..b.clone() };
    let mut inv = true;
    for m in &b.meta {
        let s = matches!(c, Cmd::Meta | Cmd::SetVar | Cmd::Inv) && sel.node(at, m.pos as usize) && named(b, &t, m.pos, o);
        let mut x = m.clone();
        if s {
            match c {
                Cmd::Meta => { n.nodes += 1; continue }
                Cmd::SetVar => if let Some(k) = x.vars.iter().position(|v| sym::eq(&v.name, &o.key)) {
                    n.nodes += 1;
                    match &o.value { Some(v) => x.vars[k].val = v.clone(), None => { x.vars.remove(k); } }
                },
                _ => {
                    // how a stack is written is left open, so the inventory is compared here
                    let got = g.meta.iter().find(|y| y.pos == m.pos).map(|y| y.inv.clone());
                    if let Some(got) = got {
                        let (ok, k) = inv_ok(&m.inv, &got, o);
                        inv = inv && ok;
                        n.items += k;
                        n.nodes += (k > 0) as u64;
                        x.inv = got;
                    }
                }
            }
        }
        w.meta.push(x);
    }
    for m in &b.timers {
        if c == Cmd::Timers && sel.node(at, m.pos as usize) && named(b, &t, m.pos, o) { n.nodes += 1; continue }
        w.timers.push(m.clone());
    }
    for m in &b.objs {
        if c == Cmd::Objects && object_goes(m, sel, o) { n.nodes += 1; continue }
        w.objs.push(m.clone());
    }
    if p == "C26" { return }
    if c == Cmd::Inv { sym::check(inv, &format!("{} the inventories of selected nodes", p)) }
    sym::check(spec::eq_meta(&g.meta, &w.meta), &format!("{} metadata", p));
    sym::check(spec::eq_timers(&g.timers, &w.timers), &format!("{} node timers", p));
    sym::check(spec::eq_objs(&g.objs, &w.objs), &format!("{} objects", p));
    sym::check(spec::eq_head(g, b) & sym::eq(&g.p1, &b.p1) & sym::eq(&g.p2, &b.p2), &format!("{} flags, time stamp and params", p));
    sym::check(spec::eq_names(g, b, NAMES), &format!("{} node names", p));
}
fn go(p: &str, c: Cmd, w: W, sel: Sel, o: Opt) {
    let mut a = args(match c { Cmd::Meta => "deletemeta", Cmd::Timers => "deletetimers", Cmd::Objects => "deleteobjects", Cmd::SetVar => "setmetavar", Cmd::Inv => "replaceininv" }, &w.m);
    sel.set(&mut a);
    o.set(c, &mut a);
    let r = run(a);
    sym::check(r.ok(), &format!("{} the command completes", p));
    let d = w.m.rows();
    sym::check(w.same_keys(&d), &format!("{} the same blocks are stored", p));
    let mut n = Count { items: 0, nodes: 0 };
    for (at, b) in &w.bl {
        match read(&d, *at) { Some(g) => expect(p, c, b, &g, *at, &sel, &o, &mut n), None => sym::check(false, &format!("{} the block can be read afterwards", p)) }
    }
    if p == "C26" {
        if let Some(x) = sel.bx { for k in 0..3 { sym::pick(x.lo[k] as i64 as u64); sym::pick(x.hi[k] as i64 as u64); } }
        let (a, z) = match c { Cmd::Meta => ("Deleted metadata from ", " nodes."), Cmd::Timers => ("Deleted ", " node timers."), Cmd::Objects => ("Deleted ", " objects."), Cmd::SetVar => ("Set metadata variable of ", " nodes."), Cmd::Inv => ("Replaced ", " nodes.") };
        let shown = r.logs.iter().filter(|l| l.0 == 'i').find_map(|l| l.1.strip_prefix(a)?.strip_suffix(z));
        let ok = match (c, shown) {
            (_, None) => false,
            (Cmd::Inv, Some(s)) => s.split_once(" itemstacks in ").map_or(false, |(x, y)| shows(x, sym::pick(n.items)) && shows(y, sym::pick(n.nodes))),
            (_, Some(s)) => shows(s, sym::pick(n.nodes)),
        };
        sym::check(ok, &format!("C26 the reported numbers of {:?}", c));
        sym::check(r.skipped().is_none(), "C26 nothing is reported as skipped");
    }
    note_run(&r);
    note_map(&w.m);
}
const STACK: &[&str] = &["Item default:stone 7", "Empty", "Item a:b 3 17 \\u0001x", "Item a:bc 2", "Item a:b"];
fn meta(pos: usize) -> Meta { Meta { pos: pos as u16, vars: vec![var("owner", "me", 0), var("k", if pos % 2 == 0 { "old" } else { "" }, 1)], inv: inv(STACK) } }
fn timer(pos: usize) -> Timer { Timer { pos: pos as u16, timeout: 1000 + pos as u32, elapsed: 7 } }
/// The options used where they are not the question.
fn usual(c: Cmd, filter: bool) -> Opt {
    let mut o = Opt { key: b"k".to_vec(), value: Some(b"new value".to_vec()), item: b"a:b".to_vec(), new: Some(b"q:new".to_vec()), ..Opt::default() };
    if filter && c != Cmd::Objects { o.nodes = vec![OLD]; if matches!(c, Cmd::SetVar | Cmd::Inv) { o.nodes.push(NEW) } }
    if filter && c == Cmd::Objects { o.obj = Some(b"mobs:cow".to_vec()) }
    o
}
/// Adds what the command works on at the nodes of two lines along an axis: one within the spans of class 2, one not.
fn lines(c: Cmd, b: &mut Block, at: P3, ax: usize) {
    let mut l = vec![];
    for i in 0..32 { let mut p = [if i < 16 { 5 } else { 12 }; 3]; p[ax] = i & 15; l.push(p) }
    if matches!(c, Cmd::Objects) {
        b.objs.clear();
        for (k, p) in l.iter().enumerate() {
            for (j, f) in [-5_000, 4_999].iter().enumerate() {
                let mut q = [0; 3];
                for m in 0..3 { q[m] = (16 * at[m] + p[m]) * 10_000 }
                q[ax] += f;
                b.objs.push(Obj { kind: 7, pos: q, data: entity(if (k + j) % 3 == 0 { "mobs:cow" } else { "mobs:cows" }, "") })
            }
        }
        return
    }
    let mut idx: Vec<usize> = l.iter().map(|p| spec::idx(p[0], p[1], p[2])).collect();
    idx.sort();
    if c == Cmd::Timers { b.timers.clear(); idx.reverse(); for i in idx { b.timers.push(timer(i)) } } else { b.meta.clear(); for i in idx { b.meta.push(meta(i)) } }
}
fn area(p: &str, c: Cmd, all: bool, below: i32, above: i32) {
    let cls: &[[usize; 2]] = &[[0, 0], [2, 1]];
    let (at, ax, cl, invert) = corner(cls, all);
    let mut w = world("main");
    let mut b = rich(28, 0, "b", 0);
    lines(c, &mut b, at, ax);
    w.add(at, b);
    if all {
        let mut n = rich(29, 3, "n", 0);
        lines(c, &mut n, next_to(at, ax), ax);
        w.add(next_to(at, ax), n);
    }
    let sel = Sel { bx: Some(one_axis(at, ax, cl, below, above)), invert };
    go(p, c, w, sel, usual(c, cl == [2, 1]));
}
/// A block with something at each of the nodes whose ids are symbolic.
fn spots(c: Cmd, b: &mut Block) {
    match c {
        Cmd::Timers => { b.timers.clear(); for s in [SPOTS[2], SPOTS[0], SPOTS[1], 1] { b.timers.push(timer(s)) } }
        _ => { b.meta.clear(); for s in [SPOTS[0], 1, SPOTS[1], SPOTS[2]] { b.meta.push(meta(s)) } }
    }
}
fn table(p: &str, c: Cmd) {
    let at = [-3, 4, -1];
    let (t, v, s) = (sym::choose("table", TABLES), sym::choose("version", 4), sym::choose("selection", 5));
    let mut b = rich([25u8, 27, 28, 29][v], t, "b", 3);
    spots(c, &mut b);
    let (x, y, z) = (16 * at[0], 16 * at[1], 16 * at[2]);
    let (bx, invert) = match s {
        0 => (None, false),
        1 => (Some(Bx { lo: [x, y, z], hi: [x + 15, y + 15, z + 15] }), false),
        2 => (Some(Bx { lo: [x - 30, y, z], hi: [x + 7, y + 20, z + 9] }), false),
        3 => (Some(Bx { lo: [x - 30, y, z], hi: [x + 7, y + 20, z + 9] }), true),
        _ => (Some(Bx { lo: [x + 5, y + 3, z + 4], hi: [x + 5, y + 3, z + 4] }), true),
    };
    let mut o = usual(c, true);
    if c == Cmd::SetVar && (t + v + s) % 2 == 1 { o.value = None }
    if c == Cmd::Inv { match (t + v + s) % 4 { 1 => { o.delete = true; o.new = None } 2 => { o.delmeta = true; o.new = None } 3 => o.delmeta = true, _ => {} } }
    if matches!(c, Cmd::SetVar | Cmd::Inv) { match sym::choose("nodes", 3) { 0 => o.nodes = vec![NEW], 1 => o.nodes = vec![BAR, OLD], _ => {} } }
    let mut w = world("main");
    w.add(at, b);
    go(p, c, w, Sel { bx, invert }, o);
}
fn c13_area() { area("C13", Cmd::Meta, false, 2, 18) }
fn c13_all() { area("C13", Cmd::Meta, true, 2, 33) }
fn c13_table() { table("C13", Cmd::Meta) }
fn c14_area() { area("C14", Cmd::Timers, false, 2, 18) }
fn c14_all() { area("C14", Cmd::Timers, true, 2, 33) }
fn c14_table() { table("C14", Cmd::Timers) }
fn c15_area() { area("C15", Cmd::Objects, false, 2, 18) }
fn c15_all() { area("C15", Cmd::Objects, true, 2, 33) }
fn c16_area() { area("C16", Cmd::SetVar, false, 2, 18) }
fn c16_all() { area("C16", Cmd::SetVar, true, 2, 33) }
fn c16_table() { table("C16", Cmd::SetVar) }
fn c17_area() { area("C17", Cmd::Inv, false, 2, 18) }
fn c17_all() { area("C17", Cmd::Inv, true, 2, 33) }
fn c17_table() { table("C17", Cmd::Inv) }
fn c26_meta() { area("C26", Cmd::Meta, false, 1, 17) }
fn c26_timers() { area("C26", Cmd::Timers, false, 1, 17) }
fn c26_objects() { area("C26", Cmd::Objects, false, 1, 17) }
fn c26_setvar() { area("C26", Cmd::SetVar, false, 1, 17) }
fn c26_inv() { area("C26", Cmd::Inv, false, 1, 17) }

/// So many entries in a block that their number shows: some at nodes with any id.
fn crowd(p: &str, c: Cmd) {
    let at = [-3, 4, -1];
    let n = [70usize, 300, 1100][sym::choose("number", 3)];
    let (v, filter, s) = (sym::choose("version", 2), sym::boolean("filter"), sym::choose("selection", 3));
    let mut b = rich([28u8, 29][v], 3, "b", 3);
    let step = 4095 / (n - 1);
    let places: Vec<usize> = (0..n).map(|i| if i == n - 1 { 4095 } else { i * step }).collect();
    match c {
        Cmd::Timers => { b.timers.clear(); for i in places.iter().rev() { b.timers.push(timer(*i)) } }
        Cmd::Objects => {
            b.objs.clear();
            for i in &places { let l = spec::xyz(*i); let mut q = [0; 3]; for k in 0..3 { q[k] = (16 * at[k] + l[k]) * 10_000 + 77 * k as i32 } b.objs.push(Obj { kind: 7, pos: q, data: entity(if i % 2 == 0 { "mobs:cow" } else { "mobs:cows" }, "") }) }
            if let Some(o) = b.objs.get_mut(13) { let k = o.data.len(); o.data[10] = sym::u8("letter"); o.data[k - 1] = sym::u8("byte") }
        }
        _ => { b.meta.clear(); for i in &places { let mut m = Meta { pos: *i as u16, vars: vec![var("k", if i % 2 == 0 { "old" } else { "" }, 1)], inv: inv(&["Item a:b 3"]) }; if i % 5 == 0 { m.inv = inv(STACK) } if i % 3 == 0 { m.vars.clear() } b.meta.push(m) } }
    }
    let mut w = world("main");
    w.add(at, b);
    let l = low(at);
    let bx = Bx { lo: [l[0] - 30, l[1] + 1, l[2] + 2], hi: [l[0] + 13, l[1] + 20, l[2] + 15] };
    go(p, c, w, match s { 0 => Sel { bx: None, invert: false }, k => Sel { bx: Some(bx), invert: k == 2 } }, usual(c, filter));
}
/// Names of more than 255 bytes as filters.
fn long(p: &str, c: Cmd) {
    let at = [-3, 4, -1];
    let (t, v, s) = (sym::choose("table", 3) + 9, sym::choose("version", 4), sym::choose("selection", 3));
    let mut b = rich([25u8, 27, 28, 29][v], t, "b", 3);
    spots(c, &mut b);
    let mut o = usual(c, true);
    o.nodes = vec![[LONG, LONGER, OLD][sym::choose("node", 3)]];
    if matches!(c, Cmd::SetVar | Cmd::Inv) && (t + v) % 2 == 1 { o.nodes.insert(0, NEW) }
    let mut w = world("main");
    w.add(at, b);
    let l = low(at);
    let bx = Bx { lo: [l[0] - 30, l[1], l[2]], hi: [l[0] + 7, l[1] + 20, l[2] + 9] };
    go(p, c, w, match s { 0 => Sel { bx: None, invert: false }, k => Sel { bx: Some(bx), invert: k == 2 } }, o);
}
fn c13_crowd() { crowd("C13", Cmd::Meta) }
fn c14_crowd() { crowd("C14", Cmd::Timers) }
fn c15_crowd() { crowd("C15", Cmd::Objects) }
fn c16_crowd() { crowd("C16", Cmd::SetVar) }
fn c17_crowd() { crowd("C17", Cmd::Inv) }
fn c26_crowd() { crowd("C26", [Cmd::Meta, Cmd::Timers, Cmd::Objects, Cmd::SetVar, Cmd::Inv][sym::choose("command", 5)]) }
fn c13_long() { long("C13", Cmd::Meta) }
fn c14_long() { long("C14", Cmd::Timers) }
fn c16_long() { long("C16", Cmd::SetVar) }
fn c17_long() { long("C17", Cmd::Inv) }
/// Entity and item names of more than 255 bytes, of which one byte is any.
fn c15_long() {
    let at = sym::choose("at", 3);
    let mut name = LONG.to_vec();
    name[[2, 255, 299][at]] = sym::u8("letter");
    let l = text(LONG);
    for c in &name { sym::assume((*c > b' ') & (*c < 0x7F) & (*c != b'"') & (*c != b'\\')) }
    let (o, objs) = if sym::boolean("items") {
        let form = sym::choose("form", 3);
        let mut d = match form { 0 => vec![], 1 => b"return {[\"age\"] = 3, [\"itemstring\"] = \"".to_vec(), _ => b"return {age=3,itemstring=\"".to_vec() };
        d.extend_from_slice(&name);
        if form > 0 { d.extend_from_slice(b" 4 0 abc\"}") }
        (Opt { items: Some(vec![b"c:d".to_vec(), LONG.to_vec()]), ..Opt::default() }, vec![entity("__builtin:item", &text(&d)), entity("__builtin:item", &l[..299]), entity("__builtin:item", &l[..44])])
    } else {
        (Opt { obj: Some(LONG.to_vec()), ..Opt::default() }, vec![entity(&text(&name), "x"), entity(&l[..299], "return {}"), entity(&l[..44], "")])
    };
    let objs = objs.into_iter().chain([entity("mobs:cow", &l)]).map(|data| Obj { kind: 7, pos: [1, 2, 3], data }).collect();
    whole(Cmd::Objects, "C15", [28u8, 29][sym::choose("version", 2)], objs, o);
}
/// Keys and values of more than 255 bytes; many variables.
fn c16_big() {
    let mut b = rich([28u8, 29][sym::choose("version", 2)], 0, "b", 0);
    let mut name = LONG.to_vec();
    name[[0, 256, 299][sym::choose("at", 3)]] = sym::u8("letter");
    sym::assume(!sym::eq(&name, LONGER));
    b.meta.clear();
    let mut vars: Vec<Var> = (0..sym::choose("many", 2) * 400).map(|i| var(&format!("v{}", i), "x", (i % 2) as u8)).collect();
    vars.push(Var { name, val: vec![b'z'; 70_000], private: sym::u8("private") & 1 });
    vars.push(Var { name: LONGER.to_vec(), val: b"2".to_vec(), private: 0 });
    b.meta.push(Meta { pos: 3, vars, inv: inv(STACK) });
    b.meta.push(Meta { pos: 9, vars: vec![Var { name: LONG.to_vec(), val: b"only".to_vec(), private: 1 }], inv: inv(&["Empty"]) });
    let mut w = world("main");
    w.add([-3, 4, -1], b);
    let mut o = Opt { key: LONG.to_vec(), ..Opt::default() };
    match sym::choose("value", 4) { 0 => {} 1 => o.value = Some(b"-".to_vec()), 2 => o.value = Some(b"short".to_vec()), _ => { let mut v = vec![b'q'; 66_000]; v[65_999] = sym::u8("last"); sym::assume(v[65_999] < 0x80); o.value = Some(v) } }
    go("C16", Cmd::SetVar, w, Sel { bx: None, invert: false }, o);
}
/// Long item names, many stacks and lists, and much metadata on a stack.
fn c17_big() {
    let mut b = rich([28u8, 29][sym::choose("version", 2)], 0, "b", 0);
    let mut name = LONG.to_vec();
    name[[0, 256, 299][sym::choose("at", 3)]] = sym::u8("letter");
    for c in &name { sym::assume((*c != b' ') & (*c != b'\n')) }
    let mut v = b"List main 400\nWidth 8\n".to_vec();
    for i in 0..400 {
        if i == 300 { v.extend_from_slice(b"Item "); v.extend_from_slice(&name); v.extend_from_slice(b" 3 4 "); v.extend_from_slice(&vec![b'm'; 3000]); v.push(b'\n') }
        else if i % 7 == 0 { v.extend_from_slice(b"Empty\n") }
        else { v.extend_from_slice(b"Item "); v.extend_from_slice(if i % 3 == 0 { LONG } else if i % 3 == 1 { b"a:b" } else { LONGER }); v.extend_from_slice(format!(" {}\n", i).as_bytes()) }
    }
    v.extend_from_slice(b"EndInventoryList\n");
    for i in 0..30 { v.extend_from_slice(format!("List l{} 1\nWidth 0\nItem a:b\nEndInventoryList\n", i).as_bytes()) }
    v.extend_from_slice(b"EndInventory\n");
    b.meta.clear();
    b.meta.push(Meta { pos: 3, vars: vec![], inv: v });
    b.meta.push(Meta { pos: 30, vars: vec![], inv: inv(STACK) });
    let mut w = world("main");
    w.add([-3, 4, -1], b);
    let mut o = Opt { item: if sym::boolean("short") { b"a:b".to_vec() } else { LONG.to_vec() }, ..Opt::default() };
    match sym::choose("mode", 4) { 0 => o.new = Some(LONGER.to_vec()), 1 => o.delete = true, 2 => o.delmeta = true, _ => { o.delmeta = true; o.new = Some(b"n:w".to_vec()) } }
    go("C17", Cmd::Inv, w, Sel { bx: None, invert: false }, o);
}

fn low(at: P3) -> P3 { [16 * at[0], 16 * at[1], 16 * at[2]] }
/// Two timers with any position and values: what is kept is kept as it was, in its order.
fn c14_values() {
    let at = [2, -9, 0];
    let mut b = rich(28, 3, "b", 0);
    b.timers.clear();
    for k in 0..3 {
        let pos = sym::u16(&format!("pos{}", k));
        sym::assume(pos < 4096);
        if k < 2 { b.timers.push(Timer { pos, timeout: sym::u32(&format!("timeout{}", k)), elapsed: sym::u32(&format!("elapsed{}", k)) }) } else { b.timers.insert(1, timer(2000)) }
    }
    let c = low(at);
    let mut w = world("main");
    w.add(at, b);
    let bx = Bx { lo: [c[0] + 3, c[1] - 8, c[2] + 2], hi: [c[0] + 12, c[1] + 9, c[2] + 15] };
    go("C14", Cmd::Timers, w, Sel { bx: Some(bx), invert: sym::boolean("invert") }, usual(Cmd::Timers, false));
}
/// An object anywhere in its block along one axis, and any extent of the selection there.
fn c15_round() {
    let (at, ax) = (PLACES[sym::choose("place", 4)], sym::choose("axis", 3));
    let c = low(at);
    let v = sym::i32("pos");
    sym::assume(((c[ax] as i64 * 10_000 - 5_000) <= v as i64) & (v as i64 <= (c[ax] as i64 + 15) * 10_000 + 4_999));
    let mut b = rich(28, 0, "b", 0);
    let mut q = [0; 3];
    for m in 0..3 { q[m] = (c[m] + 5) * 10_000 - 1_234 }
    b.objs.clear();
    b.objs.push(Obj { kind: 7, pos: q, data: entity("x:first", "") });
    q[ax] = v;
    b.objs.push(Obj { kind: 3, pos: q, data: vec![1, 2, 3] });
    let mut w = world("main");
    w.add(at, b);
    let sel = Sel { bx: Some(one_axis(at, ax, [2, 3 - 2 * sym::choose("class", 2)], 1, 16)), invert: sym::boolean("invert") };
    go("C15", Cmd::Objects, w, sel, Opt::default());
}
fn whole(c: Cmd, p: &str, ver: u8, obj: Vec<Obj>, o: Opt) {
    let at = [-3, 4, -1];
    let mut b = rich(ver, 0, "b", 0);
    b.objs = obj;
    let mut w = world("main");
    w.add(at, b);
    go(p, c, w, Sel { bx: None, invert: false }, o);
}
/// Objects of any type and format version with any name of up to 9 bytes.
fn c15_name() {
    let ver = [25u8, 29][sym::choose("version", 2)];
    let n = sym::choose("length", 3) + 7;
    let mut name = vec![0u8; n];
    sym::bytes("name", &mut name);
    let mut d = vec![sym::u8("format"), 0, n as u8];
    d.extend_from_slice(&name);
    d.extend_from_slice(&[0, 0, 0, 2, b'x', b'y']);
    let objs = vec![
        Obj { kind: 7, pos: [1, 2, 3], data: entity("mobs:cow", "a") }, Obj { kind: sym::u8("kind"), pos: [10, 20, 30], data: d },
        Obj { kind: 7, pos: [3, 2, 3], data: entity("__builtin:item", "default:dirt") }, Obj { kind: 2, pos: [3, 2, 3], data: entity("mobs:cow", "b") }, Obj { kind: 7, pos: [4, 2, 3], data: entity("mobs:cow", "c") },
    ];
    let o = match sym::choose("filter", 4) { 0 => Opt { obj: Some(b"mobs:cow".to_vec()), ..Opt::default() }, 1 => Opt { items: Some(vec![]), ..Opt::default() }, 2 => Opt { items: Some(vec![b"default:dirt".to_vec()]), ..Opt::default() }, _ => Opt::default() };
    whole(Cmd::Objects, "C15", ver, objs, o);
}
/// Dropped items in their plain, old and new forms, with any item of up to 5 bytes.
fn c15_item() {
    let n = sym::choose("length", 5) + 1;
    let mut name = vec![0u8; n];
    sym::bytes("item", &mut name);
    let form = sym::choose("form", 4);
    for c in &name { sym::assume((*c != b'\\') & (*c >= 0x20) & (*c < 0x7F)) }
    let mut d = match form { 0 => vec![], 1 => b"return {[\"age\"] = 3, [\"itemstring\"] = \"".to_vec(), 2 => b"return {age=3,itemstring=\"".to_vec(), _ => b"return {age=3,itemstrin=\"".to_vec() };
    if form == 0 { for c in &name { sym::assume(*c != b' ') } }
    d.extend_from_slice(&name);
    if form > 0 { d.extend_from_slice(b" 4\", b = \"a:b\"}") }
    let objs = vec![Obj { kind: 7, pos: [1, 2, 3], data: entity("__builtin:item", &text(&d)) }, Obj { kind: 7, pos: [1, 2, 3], data: entity("mobs:cow", "a:b") }, Obj { kind: 7, pos: [9, 9, 9], data: entity("__builtin:item", "return {}") }, Obj { kind: 7, pos: [9, 9, 9], data: entity("__builtin:item", "c:d") }];
    let o = Opt { items: Some(match sym::choose("items", 3) { 0 => vec![b"a:b".to_vec()], 1 => vec![b"x:yz".to_vec(), b"a:b".to_vec(), b"c:d".to_vec()], _ => vec![] }), ..Opt::default() };
    whole(Cmd::Objects, "C15", 28, objs, o);
}
/// Entity data cut off anywhere, and with any length bytes.
fn c15_short() {
    let full = entity("mobs:cow", "xy");
    let mut d = full.clone();
    match sym::choose("how", 3) { 0 => d.truncate(sym::choose("cut", full.len())), 1 => { d[1] = sym::u8("len1"); d[2] = sym::u8("len0") } _ => { for k in 0..4 { d[11 + k] = sym::u8(&format!("len{}", k)) } } }
    let objs = vec![Obj { kind: 7, pos: [1, 2, 3], data: d }, Obj { kind: 7, pos: [4, 2, 3], data: entity("mobs:cow", "c") }];
    let o = match sym::choose("filter", 3) { 0 => Opt { obj: Some(b"mobs:cow".to_vec()), ..Opt::default() }, 1 => Opt { items: Some(vec![]), ..Opt::default() }, _ => Opt::default() };
    whole(Cmd::Objects, "C15", [28u8, 29][sym::choose("version", 2)], objs, o);
}
/// Any subset of six objects is to go: the others stay in their order.
fn c15_many() {
    let objs = (0..6).map(|i| Obj { kind: 7, pos: [i, 0, 0], data: entity(if sym::boolean(&format!("goes{}", i)) { "mobs:cow" } else { "mobs:dog" }, &format!("{}", i)) }).collect();
    whole(Cmd::Objects, "C15", 28, objs, Opt { obj: Some(b"mobs:cow".to_vec()), ..Opt::default() });
}
/// Variables of any name of two bytes, any value and any private flag.
fn c16_vars() {
    let at = [-3, 4, -1];
    let mut b = rich([25u8, 28, 29][sym::choose("version", 3)], 0, "b", 0);
    let mut name = [0u8; 2];
    sym::bytes("name", &mut name);
    let mut val = [0u8; 3];
    sym::bytes("val", &mut val);
    let private = sym::u8("private");
    sym::assume(private < 2);
    let private = if b.ver >= 28 { private } else { 0 };
    let k: &[u8] = [&b"k"[..], b"kk", b"owner"][sym::choose("key", 3)];
    sym::assume(!sym::eq(&name, b"ab"));
    b.meta.clear();
    b.meta.push(Meta { pos: 3, vars: vec![var("ab", "1", 0), Var { name: name.to_vec(), val: val.to_vec(), private }, var("k", "2", 0)], inv: inv(STACK) });
    b.meta.push(Meta { pos: 9, vars: vec![Var { name: name.to_vec(), val: b"".to_vec(), private }], inv: spec::END.to_vec() });
    b.meta.push(Meta { pos: 4000, vars: vec![var("owner", "you", (b.ver >= 28) as u8)], inv: inv(&[]) });
    let mut w = world("main");
    w.add(at, b);
    let mut o = Opt { key: k.to_vec(), ..Opt::default() };
    if !sym::boolean("delete") {
        let mut v = [0u8; 2];
        sym::bytes("value", &mut v);
        for c in &v { sym::assume(*c < 0x80) }
        o.value = Some(v.to_vec());
    }
    go("C16", Cmd::SetVar, w, Sel { bx: None, invert: false }, o);
}
fn replace(line: Vec<u8>) {
    let at = [-3, 4, -1];
    let mut b = rich(28, 0, "b", 0);
    let mut v = b"List main 4\nWidth 2\nItem a:b 2\n".to_vec();
    v.extend_from_slice(&line);
    v.extend_from_slice(b"\nEmpty\nItem z:z 1\nEndInventoryList\nList x 0\nWidth 0\nEndInventoryList\nEndInventory\n");
    b.meta.clear();
    b.meta.push(Meta { pos: 3, vars: vec![var("infotext", "Item a:b 1\nEndInventory\nItem a:b 1", 0)], inv: v });
    let mut w = world("main");
    w.add(at, b);
    let mut o = Opt { item: b"a:b".to_vec(), ..Opt::default() };
    match sym::choose("mode", 5) { 0 => o.new = Some(b"q:new".to_vec()), 1 => o.delete = true, 2 => o.delmeta = true, 3 => { o.delmeta = true; o.new = Some(o.item.clone()) } _ => { o.delmeta = true; o.new = Some(b"n:w".to_vec()) } }
    go("C17", Cmd::Inv, w, Sel { bx: None, invert: false }, o);
}
fn some(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sym::bytes(name, &mut v);
    for c in &v { sym::assume(*c != b'\n') }
    v
}
/// A line which starts with `Item ` and goes on in any way.
fn c17_line() { let n = sym::choose("length", 6); let mut v = b"Item ".to_vec(); v.extend_from_slice(&some("text", n)); replace(v) }
/// A stack of the item with any text after its name.
fn c17_rest() { let n = sym::choose("length", 7); let mut v = b"Item a:b".to_vec(); v.extend_from_slice(&some("text", n)); replace(v) }
/// A line with any first word.
fn c17_word() { let n = sym::choose("length", 7); let mut v = some("text", n); v.extend_from_slice(b" a:b 3"); replace(v) }
/// Stacks whose count, wear and metadata are given or left out, for each way of replacing.
fn c17_shape() {
    let mut v = format!("Item a:b{}", [" 1", " 12", "", " 1 0", " 1 5", " 3 0", " 99 65535"][sym::choose("count", 7)]).into_bytes();
    if sym::boolean("meta") { v.push(b' '); let n = 1 + sym::choose("length", 4); v.extend_from_slice(&some("text", n)) }
    replace(v)
}
