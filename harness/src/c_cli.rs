//! The program as it is called: arguments and the confirmation prompt (C21, C23).
use super::c_run::{good, mode, scene, victim, ALL, COMMANDS, MODES};
use super::kit::*;
use super::world::Map;
use super::{spec, sym};
use crate::instance::InstArgs;

entries! { c21_typed, c21_yes, c23_corner, c23_digits, c23_number, c23_wide, c23_offset, c23_param2, c23_names, c23_forms, c23_bad }

fn v(a: &[&str]) -> Vec<Vec<u8>> { a.iter().map(|s| s.as_bytes().to_vec()).collect() }
fn cli(a: &[Vec<u8>], stdin: &[u8]) -> String { let r: Vec<&[u8]> = a.iter().map(|x| x.as_slice()).collect(); let s = sym::cli(&r, stdin); s }
fn done(out: &str) -> bool { out.contains("Done.") && !out.contains("rror") && !out.contains("[ended") }
/// Arguments on the command line that mean what `a` says.
fn line(a: &InstArgs) -> Vec<Vec<u8>> {
    let mut l = vec![a.map_path.clone(), a.command.clone()];
    if let Some(i) = &a.input_map_path { l.push(i.clone()) }
    let mut put = |n: &Option<String>| if let Some(n) = n { l.push(n.clone()) };
    if a.command == "replacenodes" { put(&a.node) }
    for n in [&a.new_node, &a.item, &a.new_item, &a.key, &a.value].iter() { put(n) }
    if a.command != "replacenodes" { if let Some(n) = &a.node { l.push("--node".into()); l.push(n.clone()) } }
    if let Some(o) = &a.object { l.push("--obj".into()); l.push(o.clone()) }
    if let Some(p) = a.param2 { l.push(p.to_string()) }
    if a.delete { l.push("--delete".into()) }
    if a.delete_meta { l.push("--deletemeta".into()) }
    if !a.nodes.is_empty() { l.push("--nodes".into()); l.extend(a.nodes.iter().cloned()) }
    if let Some(i) = &a.items { l.push("--items".into()); l.extend(i.iter().cloned()) }
    if let Some(b) = a.area {
        for (n, p) in [("--p1", b.min), ("--p2", b.max)].iter() { l.push(n.to_string()); for c in [p.x, p.y, p.z].iter() { l.push(c.to_string()) } }
    }
    if a.invert { l.push("--invert".into()) }
    if let Some(o) = a.offset { l.push("--offset".into()); for c in [o.x, o.y, o.z].iter() { l.push(c.to_string()) } }
    l.into_iter().map(|s| s.into_bytes()).collect()
}
/// What is typed at the prompt.
fn c21_typed() {
    let k = [1, 5, 10, 11, MODES][sym::choose("mode", 5)];
    let n = sym::choose("length", 5);
    let s = sym::vec("typed", n);
    let mut ok = true;
    for c in &s { ok &= *c < 0x80 && *c != 0x0b && *c != 0x0c }
    sym::assume(ok);
    typed(k, &s)
}
fn typed(k: usize, s: &[u8]) {
    let (w, i) = scene(2);
    let a = if k == MODES { good("vacuum", &w.m, &i.m) } else { mode(k, &w.m, &i.m) };
    let out = cli(&line(&a), s);
    // one line, without the spaces around it
    let blank = |c: u8| c == b' ' || c == b'\t' || c == b'\r';
    let mut e = 0;
    while e < s.len() && s[e] != b'\n' { e += 1 }
    let (mut p, mut q) = (0, e);
    while p < q && blank(s[p]) { p += 1 }
    while q > p && blank(s[q - 1]) { q -= 1 }
    let yes = q == p + 1 && (s[p] == b'y' || s[p] == b'Y');
    let rows = w.m.rows();
    if yes {
        sym::check(done(&out), "C21 after the answer y or Y the run is completed");
        if k < MODES { sym::check(!w.same_all(&rows), "C21 after the answer y or Y the map is changed") }
    } else {
        sym::check(w.same_all(&rows), "C21 after any other answer the map is unchanged");
        sym::check(!out.contains("Done."), "C21 after any other answer nothing is reported as done");
    }
    sym::check(i.same_all(&i.m.rows()), "C21 the input map is unchanged");
    sym::check(out.contains("Proceed?"), "C21 without --yes the user is asked");
    sym::cover(if yes { "yes" } else { "no" });
}
/// --yes in its different places, and answers of more bytes.
fn c21_yes() {
    let t = sym::choose("what", 12);
    if t >= 6 {
        typed(5, ["yes\n", "Yes", "y y\n", "\ny\n", "caf\u{e9}\n", "n\ny\n"][t - 6].as_bytes());
        return;
    }
    let k = sym::choose("mode", MODES);
    let (w, i) = scene(2);
    let mut l = line(&mode(k, &w.m, &i.m));
    let y = [b"-y".to_vec(), b"--yes".to_vec()][t % 2].clone();
    match t / 2 { 0 => l.insert(0, y), 1 => l.insert(1, y), _ => l.insert(2, y) }
    let out = cli(&l, b"n\n");
    sym::check(!out.contains("Proceed?"), "C21 with --yes no question is asked");
    sym::check(done(&out) && !w.same_all(&w.m.rows()), "C21 with --yes the run is completed");
    sym::check(i.same_all(&i.m.rows()), "C21 the input map is unchanged");
}

/// A number as the user types it: a sign, and digits (of which those marked ? are arbitrary). Its value.
fn number(n: &str, form: &str, split: bool) -> (Vec<u8>, i64) {
    let mut t = Vec::new();
    let mut x = 0i64;
    let neg = form.starts_with('-');
    for (k, c) in form.bytes().enumerate() {
        if c == b'-' { t.push(c); continue }
        let d = if c == b'?' { let d = sym::int(&format!("{}.{}", n, k), 8 | if split { 0x100 } else { 0 }) as u8; sym::assume((b'0' <= d) & (d <= b'9')); d } else { c };
        t.push(d);
        x = x.wrapping_mul(10).wrapping_add((d - b'0') as i64);
    }
    (t, if neg { -x } else { x })
}
fn t(n: i32) -> Vec<u8> { n.to_string().into_bytes() }
/// Blocks along an axis, from `from` on.
fn lane(w: &mut W, ax: usize, from: i32, n: i32) { for k in 0..n { let mut p = [0; 3]; p[ax] = from + k; w.add_raw(p, &[28, 0, k as u8]) } }
/// Were exactly the blocks deleted that lie within the extent (the others, if inverted)?
fn deleted(w: &W, ax: usize, lo: i64, hi: i64, invert: bool) -> bool {
    let rows = w.m.rows();
    let mut ok = true;
    for (key, d) in &w.raw {
        let p = { let d = ((*key >> (12 * ax as i64)) & 0xFFF) as i64; (if d >= 2048 { d - 4096 } else { d }) * 16 };
        let gone = if invert { (p > hi) | (p + 15 < lo) } else { (lo <= p) & (p + 15 <= hi) };
        match row(&rows, *key) { Some(x) => ok &= !gone & (x == d.as_slice()), None => ok &= gone }
    }
    ok & rows.iter().all(|r| w.before(r.0).is_some())
}
/// deleteblocks with corners whose coordinate along one axis is typed in two forms, in either order.
fn corner(f1: &str, f2: &str, from: i32, n: i32) {
    let (ax, swap, invert) = (sym::choose("axis", 3), sym::boolean("swap"), sym::boolean("invert"));
    let mut w = world("main");
    lane(&mut w, ax, from, n);
    let (t1, v1) = number("a", f1, false);
    let (t2, v2) = number("b", f2, false);
    let mut l = vec![b"-y".to_vec(), w.m.file.clone().into_bytes(), b"deleteblocks".to_vec()];
    let (mut p1, mut p2) = (vec![t(-31000); 3], vec![t(31000); 3]);
    // any two opposite corners
    if swap { p1.swap(1, 0); std::mem::swap(&mut p1[(ax + 1) % 3], &mut p2[(ax + 1) % 3]) }
    p1[ax] = t1;
    p2[ax] = t2;
    let turned = sym::boolean("p2 first".replace(' ', "_").as_str());
    let (first, second) = if turned { ((&b"--p2"[..], p2), (&b"--p1"[..], p1)) } else { ((&b"--p1"[..], p1), (&b"--p2"[..], p2)) };
    if invert && turned { l.push(b"--invert".to_vec()) }
    l.push(first.0.to_vec());
    l.extend(first.1);
    l.push(second.0.to_vec());
    l.extend(second.1);
    if invert && !turned { l.push(b"--invert".to_vec()) }
    let out = cli(&l, b"");
    let (lo, hi) = if v1 < v2 { (v1, v2) } else { (v2, v1) };
    if lo >= -31000 && hi <= 31000 {
        sym::check(done(&out), "C23 corners within the map are accepted");
        sym::check(deleted(&w, ax, lo, hi, invert), "C23 the selection is what the user typed");
        sym::cover("accepted");
    } else {
        sym::check(!out.contains("Done.") && out.contains("rror"), "C23 a number that does not fit is reported as an error");
        sym::check(w.same_all(&w.m.rows()), "C23 if a number does not fit nothing is changed");
        sym::cover("refused");
    }
}
fn c23_corner() { let (a, b) = [("?", "-?"), ("??", "12"), ("-??", "-3"), ("-?", "-20"), ("0??", "31")][sym::choose("form", 5)]; corner(a, b, -7, 14) }
fn c23_digits() { let (a, b) = [("???", "640"), ("-???", "-640")][sym::choose("form", 2)]; corner(a, b, if a.starts_with('-') { -42 } else { 36 }, 6) }
fn c23_number() { let (a, b) = [("3????", "0"), ("-3????", "0")][sym::choose("form", 2)]; corner(a, b, if a.starts_with('-') { -1938 } else { 1935 }, 3) }
/// Numbers that are too large: around 2^16, 2^31, 2^32 and 2^64, either sign.
fn c23_wide() {
    let neg = sym::boolean("negative");
    let f = ["655??", "65???", "131???", "21474836??", "429496????", "858993????", "1844674407370955????", "340282366920938463463374607431768211???", "0000000000??"][sym::choose("form", 9)];
    let (ax, which) = (sym::choose("axis", 3), sym::choose("which", 3));
    let f = if neg { format!("-{}", f) } else { f.to_string() };
    let small = f.contains("0000");
    let (n, x) = number("n", &f, small);
    let (w, i) = scene(1);
    let mut l = vec![b"-y".to_vec(), w.m.file.clone().into_bytes()];
    let three = |n: Vec<u8>| { let mut p = vec![t(0); 3]; p[ax] = n; p };
    match which {
        2 => {
            l.extend(v(&["overlay", &i.m.file, "--offset"]));
            l.extend(three(n));
        }
        _ => {
            l.extend(v(&["deleteblocks", "--p1"]));
            let (mut p1, mut p2) = (vec![t(-16); 3], vec![t(31); 3]);
            if which == 0 { p1[ax] = n } else { p2[ax] = n }
            l.extend(p1);
            l.extend(v(&["--p2"]));
            l.extend(p2);
        }
    }
    let out = cli(&l, b"");
    if small {
        sym::check(done(&out), "C23 leading zeros change nothing");
        let rows = w.m.rows();
        if which < 2 { let o = if which == 0 { 31 } else { -16 }; sym::check(w.same_all(&rows) != ((x.min(o) <= 0) & (x.max(o) >= 15)), "C23 the selection is what the user typed") }
        return;
    }
    sym::check(!out.contains("Done.") && out.contains("rror"), "C23 a number that does not fit is reported as an error");
    sym::check(w.same_all(&w.m.rows()), "C23 if a number does not fit nothing is changed");
}
/// The offset of clone and overlay: the same as when it is given directly.
fn c23_offset() {
    let (ax, two, f) = (sym::choose("axis", 3), sym::boolean("overlay"), ["?", "-?", "1?", "-1?"][sym::choose("form", 4)]);
    let (n, x) = number("n", f, true);
    let mut w = [world("main"), world("twin")];
    let mut i = world("input");
    for k in 0..2 { for j in 0..2 { let mut p = [0; 3]; p[ax] = j; w[k].add(p, victim(j as u8)); if k == 0 { i.add(p, victim(100 + j as u8)) } } }
    let mut o = [0, 0, 0];
    o[ax] = x as i32;
    o[(ax + 1) % 3] = -3;
    let area = Bx { lo: [0; 3], hi: [20; 3] };
    let mut a = good(if two { "overlay" } else { "clone" }, &w[1].m, &i.m);
    a.area = Some(area.area());
    a.offset = Some(v3(o));
    let mut l = vec![b"-y".to_vec()];
    let mut b = good(if two { "overlay" } else { "clone" }, &w[0].m, &i.m);
    b.area = Some(area.area());
    b.offset = None;
    l.extend(line(&b));
    l.push(b"--offset".to_vec());
    for k in 0..3 { l.push(if k == ax { n.clone() } else { t(o[k]) }) }
    let r = run(a);
    let out = cli(&l, b"");
    sym::check(r.ok() && done(&out), "C23 an offset is accepted");
    sym::check(same(&w[0].m, &w[1].m), "C23 the offset is what the user typed");
}
fn same(a: &Map, b: &Map) -> bool {
    let (x, y) = (a.rows(), b.rows());
    let mut ok = x.len() == y.len();
    for r in &x { ok &= match row(&y, r.0) { 
        // metadata variables have no order
        Some(d) => match (spec::decode(d), spec::decode(&r.1)) {
            (Some(p), Some(q)) => spec::eq_rest(&p, &q) & spec::eq_tables(&p.names, &q.names) & p.ids.iter().zip(&q.ids).fold(0, |a, (x, y)| a | (x ^ y)).eq(&0),
            _ => sym::eq(d, &r.1),
        },
        None => false,
    } }
    ok
}
/// Any text of up to three characters as a param2 value.
fn c23_param2() {
    let n = 1 + sym::choose("length", 4);
    let s = sym::vec("text", n);
    let (mut text, mut digits, mut x) = (true, true, 0i32);
    for c in &s { text &= (*c < 0x80) & (*c != 0); digits &= (b'0' <= *c) & (*c <= b'9') }
    sym::assume(text & (s[0] != b'+'));
    let mut w = world("main");
    w.add([0, 0, 0], victim(0));
    let out = cli(&[b"-y".to_vec(), w.m.file.clone().into_bytes(), b"setparam2".to_vec(), s.clone(), b"--node".to_vec(), OLD.to_vec()], b"");
    if digits { for c in &s { x = 10 * x + (*c - b'0') as i32 } }
    if digits && x < 256 {
        sym::check(done(&out), "C23 a param2 value from 0 to 255 is accepted");
        let mut ok = false;
        let old_id = w.bl[0].1.names.iter().find(|n| n.1 == OLD).unwrap().0;
        if let (Some(b), Some(o)) = (read(&w.m.rows(), [0, 0, 0]), w.block([0, 0, 0])) {
            ok = true;
            for i in 0..4096 { let old = o.ids[i] == old_id; ok &= b.p2[i] == if old { x as u8 } else { o.p2[i] } }
        }
        sym::check(ok, "C23 the param2 value is what the user typed");
        sym::cover("value");
    } else {
        sym::check(!out.contains("Done."), "C23 any other param2 value is not accepted");
        sym::check(w.same_all(&w.m.rows()), "C23 if the param2 value is not accepted nothing is changed");
        sym::cover("no value");
    }
}
/// A block with four kinds of node, each with metadata, timers, objects and inventories that commands can tell apart.
fn stage(w: &mut W) {
    for x in 0..2 {
        let mut b = rich(28, 0, "", 0);
        b.names = vec![(0, b"a:a".to_vec()), (1, b"a:b".to_vec()), (2, b"a:c".to_vec()), (3, b"air".to_vec())];
        b.meta.clear();
        b.timers.clear();
        b.objs.clear();
        for i in 0..4096 { b.ids[i] = (i % 4) as u16 }
        for k in 0..4u16 {
            b.meta.push(spec::Meta { pos: 100 + k, vars: vec![var("a", "1", 0), var("b", "2", 1)], inv: inv(&["a:a 5", "a:b 6", "a:c"]) });
            b.timers.push(Timer { pos: 100 + k, timeout: 5000, elapsed: k as u32 });
            let d = match k { 0 => entity("a:a", ""), 1 => entity("a:b", ""), 2 => entity("__builtin:item", "return { [\"itemstring\"] = \"a:a 3\" }"), _ => entity("__builtin:item", "return { [\"itemstring\"] = \"a:b\" }") };
            b.objs.push(Obj { kind: 7, pos: [10_000 * (16 * x + k as i32), 50_000, 50_000], data: d });
        }
        w.add([x, 0, 0], b);
    }
}
/// The command line `l` (after the map) does what `a` does.
fn agree(a: InstArgs, twin: &W, m: &W, l: Vec<Vec<u8>>, change: bool) {
    let mut c = vec![m.m.dir.clone().into_bytes()];
    c.extend(l);
    let r = run(a);
    let out = cli(&c, b"y\n");
    sym::check(r.ok() && done(&out), "C23 documented arguments are accepted");
    sym::check(same(&twin.m, &m.m), "C23 the command acts on exactly what the user gave");
    if change { sym::check(!m.same_all(&m.m.rows()), "C23 the command acts") }
}
fn stages() -> (W, W, W) { let (mut m, mut t, mut i) = (world("main"), world("twin"), world("input")); stage(&mut m); stage(&mut t); i.add([0, 0, 0], victim(1)); i.add([1, 0, 0], victim(2)); (m, t, i) }
fn s(x: &str) -> Option<String> { Some(x.to_string()) }
/// A name that ends in any of four letters.
fn letter(n: &str) -> String { let c = sym::u8(n); sym::assume((b'a' <= c) & (c <= b'd')); unsafe { String::from_utf8_unchecked(vec![b'a', b':', c]) } }
/// Which name is which: positional and optional names, lists, keys and values.
fn c23_names() {
    let k = sym::choose("form", 14);
    let (m, t, i) = stages();
    let mut a = args(["replacenodes", "replacenodes", "replaceininv", "replaceininv", "setmetavar", "setmetavar", "deletemeta", "deletetimers", "setparam2", "deleteobjects", "deleteobjects", "fill", "deleteobjects", "setmetavar"][k], &t.m);
    let (x, y) = (letter("x"), letter("y"));
    let b = |t: &String| t.clone().into_bytes();
    let mut l = vec![a.command.clone().into_bytes()];
    match k {
        0 | 1 => { sym::assume(!sym::eq(x.as_bytes(), y.as_bytes())); a.node = Some(x.clone()); a.new_node = Some(y.clone()); l.push(b(&x)); l.push(b(&y)) }
        2 => { sym::assume(!sym::eq(x.as_bytes(), y.as_bytes())); a.item = Some(x.clone()); a.new_item = Some(y.clone()); l.push(b(&x)); l.push(b(&y)) }
        3 => { a.item = s("a:a"); a.new_item = s("a:b"); a.nodes = vec![x.clone(), y.clone()]; l.extend(v(&["a:a", "a:b", "--nodes"])); l.push(b(&x)); l.push(b(&y)) }
        4 => { a.key = Some(x[2..].to_string()); a.value = Some(y[2..].to_string()); l.push(b(&x)[2..].to_vec()); l.push(b(&y)[2..].to_vec()) }
        5 => { a.key = s("a"); a.value = s("7 z"); a.nodes = vec![x.clone(), y.clone(), "a:c".to_string()]; l.extend(v(&["a", "7 z", "--nodes"])); l.push(b(&x)); l.push(b(&y)); l.push(b"a:c".to_vec()) }
        6 | 7 => { a.node = Some(x.clone()); l.push(b"--node".to_vec()); l.push(b(&x)) }
        8 => { a.node = Some(x.clone()); a.param2 = Some(9); l.push(b"9".to_vec()); l.push(b"--node".to_vec()); l.push(b(&x)) }
        9 => { a.object = Some(x.clone()); l.push(b"--obj".to_vec()); l.push(b(&x)) }
        10 => { a.items = Some(vec![x.clone(), y.clone()]); l.push(b"--items".to_vec()); l.push(b(&x)); l.push(b(&y)) }
        11 => { a.new_node = Some(x.clone()); a.area = Some(Bx { lo: [-3; 3], hi: [9; 3] }.area()); l.push(b(&x)); l.extend(v(&["--p1", "-3", "-3", "-3", "--p2", "9", "9", "9"])) }
        12 => { a.items = Some(vec![]); l.push(b"--items".to_vec()) }
        _ => { a.key = Some(x[2..].to_string()); a.delete = true; l.push(b(&x)[2..].to_vec()); l.push(b"--delete".to_vec()) }
    }
    let _ = i;
    agree(a, &t, &m, l, k == 12);
}
/// The forms of the manual, with their options in different places.
fn c23_forms() {
    let (m, t, i) = stages();
    let area = Bx { lo: [2, 1, 0], hi: [17, 12, 9] };
    let p = ["--p1", "2", "12", "0", "--p2", "17", "1", "9"];
    let k = sym::choose("form", 25);
    let (place, invert) = (sym::boolean("options_first"), sym::boolean("invert"));
    let mut a = args("vacuum", &t.m);
    // what stands in fixed places, what is optional, and which of the two it takes
    let (pos, mut opt): (Vec<&str>, Vec<&str>) = match k {
        0 => { a.offset = Some(v3([1, 0, -2])); ("clone", "--offset 1 0 -2") }
        1 => ("deleteblocks", ""),
        2 => ("deletemeta", ""),
        3 => { a.node = s("a:a"); ("deletemeta", "--node a:a") }
        4 => ("deleteobjects", ""),
        5 => { a.object = s("a:b"); ("deleteobjects", "--obj a:b") }
        6 => { a.items = Some(vec![]); ("deleteobjects", "--items") }
        7 => { a.items = Some(vec!["a:a".to_string()]); ("deleteobjects", "--items a:a") }
        8 => ("deletetimers", ""),
        9 => { a.node = s("a:c"); ("deletetimers", "--node a:c") }
        10 => { a.new_node = s("air"); ("fill air", "") }
        11 => ("overlay INPUT", ""),
        12 => { a.offset = Some(v3([-1, 2, 0])); ("overlay INPUT", "--offset -1 2 0") }
        13 => { a.item = s("a:a"); a.new_item = s("x:y"); ("replaceininv a:a x:y", "") }
        14 => { a.item = s("a:a"); a.delete = true; ("replaceininv a:a", "--delete") }
        15 => { a.item = s("a:a"); a.delete_meta = true; ("replaceininv a:a", "--deletemeta") }
        16 => { a.item = s("a:a"); a.new_item = s("x:y"); a.delete_meta = true; a.nodes = vec!["a:a".to_string()]; ("replaceininv a:a x:y", "--deletemeta --nodes a:a") }
        17 => { a.node = s("a:a"); a.new_node = s("x:y"); ("replacenodes a:a x:y", "") }
        18 => { a.key = s("a"); a.value = s("v"); ("setmetavar a v", "") }
        19 => { a.key = s("a"); a.delete = true; ("setmetavar a", "--delete") }
        20 => { a.key = s("n"); a.value = s("v"); a.nodes = vec!["a:a".to_string(), "a:c".to_string()]; ("setmetavar n v", "--nodes a:a a:c") }
        21 => { a.param2 = Some(200); ("setparam2 200", "") }
        22 => { a.param2 = Some(0); a.node = s("a:b"); ("setparam2 0", "--node a:b") }
        23 => ("vacuum", ""),
        _ => { a.key = s("b"); a.delete = true; a.nodes = vec!["a:b".to_string()]; ("setmetavar b", "--delete --nodes a:b") }
    }.split_me();
    a.command = pos[0].to_string();
    let has = ["vacuum"].iter().all(|c| *c != a.command);
    let only = ["clone", "deleteblocks", "fill"].iter().any(|c| *c == a.command);
    if has && (only || sym::boolean("area")) {
        a.area = Some(area.area());
        opt.extend(p.iter());
        if invert && a.offset.is_none() { a.invert = true; opt.push("--invert") }
    } else if a.command == "setparam2" && a.node.is_none() {
        a.area = Some(area.area());
        opt.extend(p.iter());
    }
    let input = i.m.file.clone();
    let fix = |x: &str| if x == "INPUT" { input.clone() } else { x.to_string() }.into_bytes();
    if pos.len() > 1 && pos[0] == "overlay" { a.input_map_path = Some(input.clone()) }
    let mut l: Vec<Vec<u8>> = vec![fix(pos[0])];
    let rest: Vec<Vec<u8>> = pos[1..].iter().map(|x| fix(x)).collect();
    let o: Vec<Vec<u8>> = opt.iter().map(|x| fix(x)).collect();
    // a list takes everything after it
    let list = opt.last().map_or(false, |x| x.starts_with("a:")) || opt.ends_with(&["--items"]);
    if place && !list { l.extend(o); l.extend(rest) } else { l.extend(rest); l.extend(o) }
    agree(a, &t, &m, l, false);
}
trait SplitMe { fn split_me(self) -> (Vec<&'static str>, Vec<&'static str>); }
impl SplitMe for (&'static str, &'static str) { fn split_me(self) -> (Vec<&'static str>, Vec<&'static str>) { (self.0.split_whitespace().collect(), self.1.split_whitespace().collect()) } }
/// Arguments that are no numbers, missing, or not known.
fn c23_bad() {
    let k = sym::choose("form", 12);
    let (w, i) = scene(1);
    let c = sym::u8("byte");
    sym::assume((0 < c) & (c < 0x80) & ((c < b'0') | (c > b'9')) & (c != b'+') & (c != b'-'));
    let at = |f: &[u8]| { let mut f = f.to_vec(); for x in f.iter_mut() { if *x == b'#' { *x = c } } f };
    let p = |a: &[u8], b: &[u8]| { let mut l = v(&["deleteblocks", "--p1"]); l.extend(vec![at(a), t(0), t(0)]); l.extend(v(&["--p2", "40", "40"])); l.push(at(b)); l };
    let l = match k {
        0 => p(b"#", b"40"),
        1 => p(b"-20", b"4#"),
        2 => p(b"-#", b"40"),
        3 => p(b"-2#0", b"40"),
        4 => p(b"#20", b"40"),
        5 => { let mut l = v(&["overlay", &i.m.file, "--offset"]); l.push(at(b"1#")); l.extend(v(&["0", "0"])); l }
        6 => v(&["deleteblocks", "--p1", "0", "0", "0"]),
        7 => v(&["deleteblocks", "--p1", "0", "0", "--p2", "40", "40", "40"]),
        8 => v(&["deleteblocks"]),
        9 => v(&["fill", "--p1", "0", "0", "0", "--p2", "40", "40", "40"]),
        10 => v(&["fill", "--p1", "0", "0", "0", "--p2", "40", "40", "40", "a:b", "--nonsense"]),
        _ => v(&["nonsense"]),
    };
    let mut c = vec![b"-y".to_vec(), w.m.file.clone().into_bytes()];
    c.extend(l);
    let out = cli(&c, b"");
    sym::check(!out.contains("Done.") && out.contains("rror"), "C23 arguments that cannot be understood are reported as an error");
    sym::check(w.same_all(&w.m.rows()) && i.same_all(&i.m.rows()), "C23 if arguments cannot be understood nothing is changed");
}
