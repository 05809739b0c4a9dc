//! How a run begins and ends: arguments, confirmation, transactions, vacuum, the input map (C19 to C22, C25).
use super::kit::*;
use super::spec::{self, Block};
use super::world::{self, Entry, Fault, Map, Op};
use super::{sym, world::ops};
use crate::instance::InstArgs;

entries! {
    c19_corner, c19_offset, c19_invert, c19_name, c19_list, c19_long, c19_options, c19_same, c19_map, c19_input,
    c20_fault, c20_many, c20_more, c20_most, c21_answer, c22_rows, c22_fault, c25_modes, c25_fault, c26_number, c26_skipped,
}

pub const COMMANDS: [&str; 12] = ["clone", "deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2", "vacuum"];
pub const ALL: Bx = Bx { lo: [-31000; 3], hi: [31000; 3] };
/// Arguments with which each command changes a block that `victim` made.
pub fn good(cmd: &str, m: &Map, i: &Map) -> InstArgs {
    let mut a = args(cmd, m);
    let s = |t: &str| Some(t.to_string());
    match cmd {
        "clone" => { a.area = Some(ALL.area()); a.offset = Some(v3([1, 0, 0])) }
        "deleteblocks" => a.area = Some(ALL.area()),
        "fill" => { a.area = Some(ALL.area()); a.new_node = s("mod:new") }
        "overlay" => a.input_map_path = Some(i.file.clone()),
        "replaceininv" => { a.item = s("default:stone"); a.new_item = s("mod:new") }
        "replacenodes" => { a.node = s("default:stone"); a.new_node = s("mod:new") }
        "setmetavar" => { a.key = s("infotext"); a.value = s("new") }
        "setparam2" => { a.area = Some(ALL.area()); a.param2 = Some(0x5A) }
        _ => {}
    }
    a
}
pub fn victim(k: u8) -> Block { let mut b = rich([28, 29][k as usize & 1], 0, "", 0); for v in b.p1.iter_mut() { *v = v.wrapping_add(k) } b.time = b.time.wrapping_add(k as u32); b }
/// A main map and an input map, with blocks that every command changes (or none).
pub fn scene(n: usize) -> (W, W) {
    let (mut w, mut i) = (world("main"), world("input"));
    for k in 0..n { let p = [k as i32, 0, 0]; w.add(p, victim(k as u8)); i.add(p, victim(k as u8 + 100)) }
    (w, i)
}
/// The arguments are refused: an error is shown, and nothing that could change a map is executed.
fn refused(p: &str, r: &Run, w: &W, i: &W) {
    sym::check(!r.panicked && r.errors() == 1, &format!("{} invalid arguments end the run with an error message", p));
    sym::check(!r.has('i', "Done."), &format!("{} a run with invalid arguments is not reported as done", p));
    sym::check(w.m.untouched() && w.same_all(&w.m.rows()), &format!("{} invalid arguments leave the map unchanged", p));
    sym::check(i.m.untouched() && i.same_all(&i.m.rows()), &format!("{} invalid arguments leave the input map unchanged", p));
}
fn accepted(p: &str, r: &Run) { sym::check(r.ok(), &format!("{} valid arguments are accepted", p)) }
/// Runs with arguments that are valid or not: on an empty map if they are valid.
fn judge(valid: bool, f: impl FnOnce(&Map, &Map) -> InstArgs) {
    if valid {
        let (w, i) = scene(0);
        let r = run(f(&w.m, &i.m));
        accepted("C19", &r);
        note_run(&r);
    } else {
        let (w, i) = scene(1);
        let r = run(f(&w.m, &i.m));
        refused("C19", &r, &w, &i);
        note_run(&r);
    }
}
/// Commands that select an area.
const AREAS: [&str; 11] = ["clone", "deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2"];
fn c19_corner() {
    let cmd = AREAS[sym::choose("command", 11)];
    let invert = cmd != "clone" && sym::boolean("invert");
    let ax = sym::choose("axis", 3);
    let mut b = Bx { lo: [-31000, 7, -5], hi: [-30000, 7, 31000] };
    b.lo[ax] = sym::i32("lo");
    b.hi[ax] = sym::i32("hi");
    sym::assume(b.lo[ax] <= b.hi[ax]);
    let valid = (-31000 <= b.lo[ax]) & (b.hi[ax] <= 31000);
    judge(valid, |m, i| { let mut a = good(cmd, m, i); a.area = Some(b.area()); a.invert = invert; if cmd == "clone" { a.offset = Some(v3([0; 3])) } a })
}
fn c19_offset() {
    let two = sym::boolean("overlay");
    let n = sym::choose("area", if two { 6 } else { 5 });
    let b = [ALL, Bx { lo: [0; 3], hi: [0; 3] }, Bx { lo: [31000, -31000, 7], hi: [31000, -31000, 20000] }, Bx { lo: [-31000, 100, 30990], hi: [-30000, 250, 31000] }, Bx { lo: [-5, -31000, -31000], hi: [31000, -30999, 9] }, ALL][n];
    let invert = two && n < 5 && sym::boolean("invert");
    let mut o = [0; 3];
    let (mut small, mut meets, mut zero) = (true, true, true);
    for k in 0..3 {
        o[k] = sym::i32(["x", "y", "z"][k]);
        small &= (-62000 <= o[k]) & (o[k] <= 62000);
        zero &= o[k] == 0;
        meets &= ((b.lo[k] as i64 + o[k] as i64) <= 31000) & ((b.hi[k] as i64 + o[k] as i64) >= -31000);
    }
    judge(small & meets & (!invert | zero), |m, i| {
        let mut a = good(if two { "overlay" } else { "clone" }, m, i);
        a.area = if n < 5 { Some(b.area()) } else { None };
        a.offset = Some(v3(o));
        a.invert = invert;
        a
    })
}
/// --invert needs an area.
fn c19_invert() {
    let cmd = ["deletemeta", "deleteobjects", "deletetimers", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2"][sym::choose("command", 8)];
    let (area, invert, node) = (sym::boolean("area"), sym::boolean("invert"), sym::boolean("node"));
    judge((area || !invert) && (area || node || cmd != "setparam2"), |m, i| {
        let mut a = good(cmd, m, i);
        a.area = if area { Some(ALL.area()) } else { None };
        a.invert = invert;
        match cmd { "setparam2" | "deletemeta" | "deletetimers" if node => a.node = Some("default:stone".to_string()), "replaceininv" | "setmetavar" if node => a.nodes = vec!["default:stone".to_string()], _ => {} }
        a
    })
}
fn word(c: u8) -> bool { lower(c) | ((b'A' <= c) & (c <= b'Z')) }
fn lower(c: u8) -> bool { ((b'a' <= c) & (c <= b'z')) | ((b'0' <= c) & (c <= b'9')) | (c == b'_') }
/// Must the name be refused, and must it be accepted?
fn named(s: &[u8]) -> (bool, bool) {
    let plain = (s.len() == 3 && sym::eq(s, b"air")) | (s.len() == 6 && sym::eq(s, b"ignore"));
    // where the only colon is
    let (mut good, mut odd) = (false, false);
    for k in 0..s.len() {
        let mut ok = s[k] == b':';
        for j in 0..s.len() { ok &= if j < k { lower(s[j]) } else if j > k { word(s[j]) } else { true } }
        if k == 0 || k + 1 == s.len() { odd |= ok } else { good |= ok }
    }
    // whether a part may be empty is not specified
    (!plain & !good & !odd, plain | good)
}
/// Where a name is given: (command, argument).
const FIELDS: [(&str, usize); 12] = [("fill", 1), ("replacenodes", 0), ("replacenodes", 1), ("setparam2", 0), ("deletemeta", 0), ("deletetimers", 0), ("setmetavar", 2), ("replaceininv", 3), ("replaceininv", 4), ("replaceininv", 2), ("deleteobjects", 5), ("deleteobjects", 6)];
fn put_name(a: &mut InstArgs, field: usize, n: Vec<u8>) {
    let n = unsafe { String::from_utf8_unchecked(n) };
    match field { 0 => a.node = Some(n), 1 => a.new_node = Some(n), 2 => a.nodes = vec!["a:b".to_string(), n], 3 => a.item = Some(n), 4 => a.new_item = Some(n), 5 => a.object = Some(n), _ => a.items = Some(vec![n, "a:b".to_string()]) }
}
fn with_name(cmd: &'static str, field: usize, s: Vec<u8>) {
    let (bad, fine) = named(&s);
    // arguments that are invalid for another reason
    if (field <= 1 && cmd == "replacenodes") || (3 <= field && field <= 4) { for t in [OLD, NEW] { if s.len() == t.len() { sym::assume(!sym::eq(&s, t)) } } }
    sym::assume(bad | fine);
    judge(fine, |m, i| { let mut a = good(cmd, m, i); put_name(&mut a, field, s.clone()); a })
}
fn c19_name() {
    let (cmd, field) = FIELDS[sym::choose("field", 12)];
    let n = sym::choose("length", 5);
    let s = sym::vec("name", n);
    let mut ascii = true;
    for c in &s { ascii &= *c < 0x80 }
    sym::assume(ascii);
    with_name(cmd, field, s)
}
/// Longer names, of which any one byte is arbitrary; names with other characters.
fn c19_list() {
    let (cmd, field) = FIELDS[sym::choose("field", 12)];
    let k = sym::choose("name", 10);
    if k == 9 {
        // any character of two bytes, at any place
        let at = sym::choose("at", 6);
        let mut s = b"ab:cd".to_vec();
        let (a, b) = (sym::u8("lead"), sym::u8("trail"));
        sym::assume((a >= 0xC2) & (a <= 0xDF) & (b & 0xC0 == 0x80));
        s.insert(at, b);
        s.insert(at, a);
        return with_name(cmd, field, s);
    }
    let mut s = ["air", "ignore", "default:stone", "a_9:Z_z0", "aa:bb:cc", "caf\u{e9}:bar", "mod:na\u{ef}ve", "stone", "\u{661}:b"][k].as_bytes().to_vec();
    if k < 4 {
        let at = sym::choose("at", s.len() + 1);
        if at < s.len() { let c = sym::u8("byte"); sym::assume(c < 0x80); s[at] = c }
    }
    with_name(cmd, field, s)
}
/// Long names, of which one byte is arbitrary, and long lists of names, of which one is.
fn c19_long() {
    let (cmd, field) = FIELDS[sym::choose("field", 12)];
    let many = (field == 2 || field == 6) && sym::boolean("many");
    if many {
        let at = [0, 1, 9, 70, 149][sym::choose("at", 5)];
        let mut s = b"mod:item".to_vec();
        let c = sym::u8("byte");
        sym::assume(c < 0x80);
        s[[0, 7][sym::choose("which", 2)]] = c;
        let (bad, fine) = named(&s);
        sym::assume(bad | fine);
        let mut l: Vec<String> = (0..150).map(|k| format!("mod:n{}", k)).collect();
        l[at] = unsafe { String::from_utf8_unchecked(s) };
        return judge(fine, |m, i| { let mut a = good(cmd, m, i); if field == 2 { a.nodes = l.clone() } else { a.items = Some(l.clone()) } a })
    }
    // 130 bytes, a colon, 170 bytes
    let mut s: Vec<u8> = (0..130).map(|k| b"abz_09"[k % 6]).collect();
    s.push(b':');
    for k in 0..170 { s.push(b"aZ_90zAb"[k % 8]) }
    let at = [0, 31, 32, 63, 64, 129, 130, 131, 162, 194, 195, 257, 258, 299, 300][sym::choose("at", 15)];
    let c = sym::u8("byte");
    sym::assume(c < 0x80);
    s[at] = c;
    with_name(cmd, field, s)
}
/// Options that are required together, or exclude each other.
fn c19_options() {
    let s = |t: &str| Some(t.to_string());
    match sym::choose("command", 5) {
        0 => {
            let (n, d, m) = (sym::choose("new_item", 3), sym::boolean("delete"), sym::boolean("deletemeta"));
            let invalid = (n == 0 && !d && !m) || (n > 0 && d) || (n == 1 && !m);
            judge(!invalid, |w, i| { let mut a = good("replaceininv", w, i); a.new_item = [None, s("default:stone"), s("mod:new")][n].clone(); a.delete = d; a.delete_meta = m; a })
        }
        1 => {
            let (v, d) = (sym::choose("value", 3), sym::boolean("delete"));
            judge((v == 2) != d && v != 1, |w, i| { let mut a = good("setmetavar", w, i); a.value = [None, s(""), s("x")][v].clone(); a.delete = d; a })
        }
        2 => {
            let (o, t) = (sym::boolean("object"), sym::choose("items", 3));
            judge(!o || t == 0, |w, i| { let mut a = good("deleteobjects", w, i); if o { a.object = s("mobs:cow") } a.items = [None, Some(vec![]), Some(vec!["a:b".to_string()])][t].clone(); a })
        }
        3 => {
            let (r, n) = (sym::boolean("area"), sym::boolean("node"));
            judge(r || n, |w, i| { let mut a = good("setparam2", w, i); if !r { a.area = None } if n { a.node = s("default:stone") } a })
        }
        _ => {
            let (r, n) = (sym::boolean("area"), sym::boolean("node"));
            let cmd = ["deletemeta", "deletetimers"][sym::choose("which", 2)];
            judge(true, |w, i| { let mut a = good(cmd, w, i); if r { a.area = Some(ALL.area()) } if n { a.node = s("default:stone") } a })
        }
    }
}
/// The old and the new name must differ.
fn c19_same() {
    let items = sym::boolean("items");
    let meta = items && sym::boolean("deletemeta");
    let (x, y) = (sym::vec("old", 2), sym::vec("new", 2));
    for c in x.iter().chain(&y) { sym::assume((b'a' <= *c) & (*c <= b'z')) }
    let f = |v: &[u8]| { let mut s = b"a:b".to_vec(); s.extend_from_slice(v); unsafe { String::from_utf8_unchecked(s) } };
    judge(!sym::eq(&x, &y) | meta, |w, i| {
        let mut a = good(if items { "replaceininv" } else { "replacenodes" }, w, i);
        if items { a.item = Some(f(&x)); a.new_item = Some(f(&y)); a.delete_meta = meta } else { a.node = Some(f(&x)); a.new_node = Some(f(&y)) }
        a
    })
}
/// Tables that are no map: (name, type, primary key).
fn broken(k: usize, name: &str) -> (Option<Map>, String) {
    let cols: Option<&[(&str, &str, i64)]> = match k {
        0 => return (None, world::nothing(name)),
        1 => return (None, world::empty_dir(name)),
        2 => None,
        3 => Some(&[("pos", "INT", 1)]),
        4 => Some(&[("data", "BLOB", 0), ("pos", "INT", 1)]),
        5 => Some(&[("pos", "INT", 0), ("data", "BLOB", 0)]),
        6 => Some(&[("pos", "TEXT", 1), ("data", "BLOB", 0)]),
        7 => Some(&[("pos", "INT", 1), ("data", "TEXT", 0)]),
        8 => Some(&[("hash", "INT", 1), ("data", "BLOB", 0)]),
        9 => Some(&[("pos", "INT", 1), ("value", "BLOB", 0)]),
        _ => Some(&[("pos", "INT", 0), ("data", "BLOB", 1)]),
    };
    let m = world::with_schema(name, cols);
    let f = m.file.clone();
    (Some(m), f)
}
fn c19_map() {
    let cmd = COMMANDS[sym::choose("command", 12)];
    let ask = sym::boolean("ask");
    let k = sym::choose("map", 14);
    let i = { let mut i = world("input"); i.add([0, 0, 0], victim(1)); i };
    if k > 10 {
        // a directory, a file, a directory with a slash
        let w = world("main");
        let mut a = good(cmd, &w.m, &i.m);
        a.map_path = match k { 11 => w.m.dir.clone(), 12 => w.m.file.clone(), _ => format!("{}/", w.m.dir) };
        a.do_confirmation = ask;
        accepted("C19", &run(a));
        return;
    }
    let (m, path) = broken(k, "main");
    let mut a = good(cmd, &i.m, &i.m);
    a.map_path = path.clone();
    a.do_confirmation = ask;
    let r = run(a);
    sym::check(!r.panicked && r.errors() == 1 && !r.has('i', "Done."), "C19 a missing or invalid map ends the run with an error message");
    if let Some(m) = m { sym::check(m.untouched(), "C19 a database that is no map is left alone") }
    sym::check(i.m.untouched() && i.same_all(&i.m.rows()), "C19 the input map is left alone");
    note_run(&r);
}
fn c19_input() {
    let k = sym::choose("map", 14);
    let mode = sym::choose("mode", 3);
    let mut w = world("main");
    w.add([0, 0, 0], victim(1));
    let (m, path) = if k > 10 { let i = world::new("input"); let p = match k { 11 => i.dir.clone(), 12 => i.file.clone(), _ => format!("{}/", i.dir) }; (Some(i), p) } else { broken(k, "input") };
    let mut a = args("overlay", &w.m);
    a.input_map_path = Some(path);
    if mode > 0 { a.area = Some(ALL.area()) }
    if mode > 1 { a.offset = Some(v3([3, 2, 1])) }
    let r = run(a);
    if k > 10 { accepted("C19", &r); return }
    sym::check(!r.panicked && r.errors() == 1 && !r.has('i', "Done."), "C19 a missing or invalid input map ends the run with an error message");
    sym::check(w.m.untouched() && w.same_all(&w.m.rows()), "C19 an invalid input map leaves the map unchanged");
    if let Some(m) = m { sym::check(m.untouched(), "C19 a database that is no map is left alone") }
    note_run(&r);
}

/// Every way of changing a map: the commands, and overlay's and clone's different modes.
pub const MODES: usize = 16;
pub fn mode(k: usize, m: &Map, i: &Map) -> InstArgs {
    let part = Bx { lo: [3, 2, 1], hi: [40, 12, 13] };
    match k {
        0..=10 => good(COMMANDS[k], m, i),
        11 => { let mut a = good("overlay", m, i); a.area = Some(part.area()); a }
        12 => { let mut a = good("overlay", m, i); a.area = Some(part.area()); a.invert = true; a }
        13 => { let mut a = good("overlay", m, i); a.area = Some(part.area()); a.offset = Some(v3([-3, 2, 1])); a }
        14 => { let mut a = good("overlay", m, i); a.offset = Some(v3([16, 0, 0])); a }
        _ => { let mut a = good("setmetavar", m, i); a.value = None; a.delete = true; a }
    }
}
/// Is the log of a run's operations on the map one transaction?
fn one_transaction(l: &[Entry]) {
    let mut committed = 0;
    let mut outside = false;
    let mut late = false;
    let mut vac = false;
    for e in l {
        if e.op == Op::Commit { committed += 1 }
        outside |= e.op == Op::Write && !e.in_txn;
        late |= e.op == Op::Write && committed > 0;
        vac |= e.op == Op::Vacuum;
    }
    sym::check(!outside, "C20 changes are made within a transaction");
    sym::check(!late && committed <= 1, "C20 the transaction is committed once, after the last change");
    sym::check(!vac, "C20 nothing else changes the database");
}
fn kind() -> Fault { match sym::choose("kind", 3) { 0 => Fault::Fail, 1 => Fault::Rollback, _ => Fault::Die } }
/// A failure at any one operation on the databases, or death there.
fn c20_fault() {
    let k = sym::choose("mode", MODES);
    let f = kind();
    let (w, i) = scene(3);
    let a = mode(k, &w.m, &i.m);
    let at = sym::u32("at");
    sym::assume((1 <= at) & (at <= 1000));
    let before = ops();
    world::set_fault(at as u64, f);
    let r = run(a);
    let n = ops() - before;
    let rows = w.m.rows();
    let log = w.m.log();
    one_transaction(&log);
    if n >= at as u64 {
        sym::check(!r.ok(), "C20 a run in which an operation fails is not reported as done");
        sym::check(w.same_all(&rows), "C20 if an operation fails or the run dies, the map is what it was");
    } else {
        sym::check(r.ok(), "C20 a run without failures is completed");
        sym::check(!w.same_all(&rows), "C20 what was changed is committed");
        sym::check(log.iter().filter(|e| e.op == Op::Commit && e.ok).count() == 1, "C20 a run that changes something commits once");
        sym::cover("no failure");
    }
    sym::check(i.same_all(&i.m.rows()), "C20 the input map is what it was");
    if n < at as u64 { sym::observe("rows", &[rows.len() as u8, r.panicked as u8]) }
}
/// Many blocks: is everything that is changed still committed at once?
fn many(n: usize, modes: &[usize]) {
    let k = modes[sym::choose("mode", modes.len())];
    let (mut w, mut i) = (world("main"), world("input"));
    let small = k == 1 || k == 6;
    for j in 0..n {
        let p = [(j % 1000) as i32 - 500, (j / 1000) as i32, 0];
        if small { w.add_raw(p, &[28, 0, 1]); i.add_raw(p, &[28, 0, 2]) } else { let mut b = victim(j as u8 & 1); if j % 40 == 7 { b.p2[0] = sym::u8("param2") } w.add(p, b); i.add(p, victim(100 + (j as u8 & 1))) }
    }
    let mut a = mode(k, &w.m, &i.m);
    if 11 <= k && k <= 13 { a.area = Some(Bx { lo: [-30000, 2, 1], hi: [30000, 12, 13] }.area()) }
    let r = run(a);
    sym::check(r.ok(), "C20 a run without failures is completed");
    let (log, rows) = (w.m.log(), w.m.rows());
    one_transaction(&log);
    sym::check(log.iter().filter(|e| e.op == Op::Commit && e.ok).count() == 1, "C20 a run that changes something commits once");
    let mut all = true;
    for (j, x) in w.raw.iter().enumerate() {
        // shifted: the row's first block has nothing to copy from
        if (k == 0 || k == 14) && j % 1000 == 0 { continue }
        all &= match row(&rows, x.0) { Some(d) => !sym::eq(d, &x.1), None => true };
    }
    sym::check(all, "C20 what was changed is committed");
    sym::check(i.same_all(&i.m.rows()), "C20 the input map is what it was");
    sym::observe("rows", &[rows.len() as u8]);
}
fn c20_many() { many(300, &[0, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15]) }
fn c20_most() { many(1100, &[0, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15]) }
fn c20_more() { many(5000, &[1, 6]) }
fn c21_answer() {
    let k = sym::choose("mode", MODES + 1);
    let (ask, yes) = (sym::boolean("ask"), sym::boolean("yes"));
    let (w, i) = scene(2);
    let mut a = if k == MODES { good("vacuum", &w.m, &i.m) } else { mode(k, &w.m, &i.m) };
    a.do_confirmation = ask;
    let r = run_answer(a, yes);
    sym::check(r.asked == ask as usize, "C21 the question is asked once, unless --yes is given");
    let rows = w.m.rows();
    if ask && !yes {
        sym::check(w.m.untouched() && w.same_all(&rows), "C21 without confirmation the map is unchanged");
        sym::check(i.m.untouched() && i.same_all(&i.m.rows()), "C21 without confirmation the input map is unchanged");
        sym::check(!r.panicked && r.errors() == 0, "C21 a run that is not confirmed just ends");
    } else {
        sym::check(r.ok(), "C21 a confirmed run is completed");
        if k < MODES { sym::check(!w.same_all(&rows), "C21 a confirmed run changes the map") }
    }
    note_run(&r);
}
fn c22_rows() { c22(false) }
fn c22_fault() { c22(true) }
fn c22(fault: bool) {
    let mut w = world("main");
    let n = sym::choose("blocks", 4);
    for k in 0..n {
        let p = [[0, 0, 0], [-2048, 2047, -2048], [5, -6, 7]][k];
        if k == 1 { w.add(p, victim(1)) } else { let d = sym::vec("data", 3 * k); w.add_raw(p, &d) }
    }
    let mut a = args("vacuum", &w.m);
    a.do_confirmation = sym::boolean("ask");
    let f = kind();
    let at = sym::u32("at");
    let before = ops();
    if fault { sym::assume((1 <= at) & (at <= 100)); world::set_fault(at as u64, f) }
    let r = run(a);
    let hit = fault && ops() - before >= at as u64;
    let log = w.m.log();
    sym::check(!log.iter().any(|e| e.op == Op::Write), "C22 vacuum writes no blocks");
    sym::check(log.iter().all(|e| e.op != Op::Vacuum || !e.in_txn), "C22 VACUUM is executed outside any transaction");
    sym::check(w.same_all(&w.m.rows()), "C22 every block is what it was");
    if !hit {
        sym::check(log.iter().filter(|e| e.op == Op::Vacuum && e.ok).count() == 1, "C22 the database is vacuumed once");
        sym::check(r.ok() && r.has('i', "Completed vacuum."), "C22 success is reported");
    } else {
        sym::check(r.panicked || r.errors() > 0, "C22 a failure is reported");
        sym::check(!r.has('i', "Completed vacuum.") || log.iter().any(|e| e.op == Op::Vacuum && e.ok), "C22 a vacuum that failed is not reported as completed");
    }
    if !hit { note_run(&r) }
}
fn input_left_alone(i: &W) {
    let l = i.m.log();
    sym::check(l.iter().any(|e| e.op == Op::OpenRo) && !l.iter().any(|e| e.op == Op::OpenRw), "C25 the input map is opened read-only");
    sym::check(i.m.untouched(), "C25 nothing that could change the input map is executed");
    sym::check(i.same_all(&i.m.rows()), "C25 the input map is what it was");
}
/// All modes of overlay, with a block of arbitrary bytes in either map.
fn c25_modes() {
    let k = sym::choose("mode", 5);
    let (mut w, mut i) = scene(2);
    let at = [1, 1, 0];
    let n = sym::choose("length", 3);
    match sym::choose("odd", 3) { 0 => i.add_raw(at, &sym::vec("data", n)), 1 => { w.add_raw(at, &sym::vec("data", n)); i.add(at, victim(9)) } _ => w.add(at, victim(9)) }
    let mut a = mode([6, 11, 12, 13, 14][k], &w.m, &i.m);
    a.do_confirmation = sym::boolean("ask");
    let r = run_answer(a, sym::boolean("yes"));
    input_left_alone(&i);
    note_run(&r);
}
fn c25_fault() {
    let k = sym::choose("mode", 5);
    let f = kind();
    let (w, i) = scene(2);
    let a = mode([6, 11, 12, 13, 14][k], &w.m, &i.m);
    let at = sym::u32("at");
    sym::assume((1 <= at) & (at <= 1000));
    world::set_fault(at as u64, f);
    let r = run(a);
    let l = i.m.log();
    if l.iter().any(|e| e.op == Op::OpenRo) { input_left_alone(&i) } else { sym::check(i.m.untouched() && i.same_all(&i.m.rows()) && l.is_empty(), "C25 the input map is what it was") }
    let _ = r;
}

/// How numbers are shown: all up to 3000, and those around each power of ten and each half of a shown digit.
fn c26_number() {
    let k = sym::choose("window", 92);
    let lo = if k < 50 { 60 * k as u64 } else {
        let unit = 10u64.pow(3 + (k as u32 - 50) / 4);
        match (k - 50) % 4 { 0 => unit - 30, 1 => unit / 1000 * 2675 - 30, 2 => unit / 100 * 995 - 30, _ => unit / 1000 * 7125 - 30 }
    };
    let n = sym::u16("n");
    sym::assume(n < 60);
    let n = lo + sym::pick(n as u64);
    let s = crate::utils::fmt_big_num(n);
    sym::check(shows(&s, n), "C26 a number is shown exactly below 1000 and otherwise rounded to three digits");
    sym::observe("shown", s.as_bytes());
}
/// Blocks that cannot be read, among others: each is counted once.
fn c26_skipped() {
    let cmd = ["clone", "deletemeta", "deleteobjects", "deletetimers", "fill", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2"][sym::choose("mode", 10)];
    let n = [1, 12, 999, 1001][sym::choose("blocks", 4)];
    let (mut w, mut i) = (world("main"), world("input"));
    for j in 0..n + 2 {
        let p = [(j % 1000) as i32 - 500, 0, 2 * (j / 1000) as i32];
        if j == 1 || j == n + 1 { w.add(p, victim(0)); i.add(p, victim(1)) }
        else {
            // a version that is not supported; clone and overlay: cut short
            let mut d = [30, 0, 1];
            if cmd == "clone" || cmd == "overlay" { d[0] = 28 } else if j < 4 { d[0] = sym::u8("version"); sym::assume(d[0] > 29) }
            w.add_raw(p, &d);
            i.add(p, victim(1))
        }
    }
    let mut a = good(cmd, &w.m, &i.m);
    let part = Bx { lo: [-30000, 1, -30000], hi: [30000, 9, 30000] };
    if cmd == "overlay" { a.area = Some(part.area()) }
    let r = run(a);
    sym::check(r.ok(), "C26 blocks that cannot be read do not end the run");
    sym::check(r.skipped().map_or(false, |s| shows(s, n as u64)), "C26 the number of blocks skipped is reported");
}
