mod exec;
mod expr;
mod mem;
mod parse;
mod z3;

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned());
    let num = |n: &str, d: f64| opt(n).map_or(d, |v| v.parse().unwrap());
    let out = opt("--out").expect("--out");
    std::fs::create_dir_all(&out).unwrap();
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut x = expr::Ctx::new();
    x.cst(0, 8); // expression 0 stands for "concrete" in memory overlays
    let m = Rc::new(parse::parse(&text, &mut x));
    drop(text);
    let load = t0.elapsed().as_secs_f64();
    let lim = exec::Limits {
        max_steps: num("--steps", 2.5e9) as u64, deadline: num("--time", 300.0), max_paths: num("--paths", 1e9) as u64,
        procs: num("--procs", 8.0) as i32, max_viol: num("--viols", 4.0) as u64, witnesses: num("--wit", 2.0) as u64, after: num("--after", 20.0),
    };
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut exec::Shared;
    unsafe { (*sh).active.store(1, SeqCst) }
    let entry = opt("--entry").expect("--entry");
    let mut e = exec::Engine::new(m.clone(), x, lim, sh, out.clone());
    e.entry = entry.clone();
    e.verbose = a.iter().any(|x| x == "--verbose");
    e.s.slow = e.verbose;
    let s = e.initial(&entry);
    e.work.push(s);
    e.run_all();
    // report of this process
    let mut r = String::new();
    r.push_str(&format!("N paths {}\nN steps {}\nN forks {}\nN concs {}\nN viols {}\nN queries {}\nN states {}\nN infeasible {}\nN exprs {}\nF solver {}\n",
        e.st.paths, e.st.steps, e.st.forks, e.st.concs, e.st.viols, e.s.queries, e.st.states, e.st.infeasible, e.x.nodes.len(), e.s.time));
    for (k, v) in &e.st.checks { r.push_str(&format!("K {} {} {}\n", v.0, v.1, k)) }
    for (k, v) in &e.st.covers { r.push_str(&format!("C {} {}\n", v, k)) }
    for (k, v) in &e.st.incomplete { r.push_str(&format!("X {} {}\n", v, k)) }
    for (i, v) in e.visited.iter().enumerate() { if *v { r.push_str(&format!("V {}\n", i)) } }
    std::fs::write(format!("{}/res.{}", out, std::process::id()), r).unwrap();
    unsafe { (*sh).active.fetch_sub(1, SeqCst) };
    let mut bad = false;
    for c in &e.children {
        let mut s = 0;
        unsafe { waitpid(*c, &mut s, 0) };
        if s != 0 { bad = true }
    }
    if !e.is_root { unsafe { _exit(if bad { 3 } else { 0 }) } }
    // root: aggregate
    let mut nums: BTreeMap<String, u64> = BTreeMap::new();
    let mut solver = 0.0;
    let mut checks: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut covers: BTreeMap<String, u64> = BTreeMap::new();
    let mut inc: BTreeMap<String, u64> = BTreeMap::new();
    let mut vis: BTreeSet<u32> = BTreeSet::new();
    let mut procs = 0;
    if bad { inc.insert("a worker process died".into(), 1); }
    for f in std::fs::read_dir(&out).unwrap() {
        let f = f.unwrap();
        let n = f.file_name().to_string_lossy().into_owned();
        if !n.starts_with("res.") { continue }
        procs += 1;
        for l in std::fs::read_to_string(f.path()).unwrap().lines() {
            let p: Vec<&str> = l.splitn(4, ' ').collect();
            match p[0] {
                "N" => *nums.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "F" => solver += p[2].parse::<f64>().unwrap(),
                "K" => { let c = checks.entry(p[3].into()).or_default(); c.0 += p[1].parse::<u64>().unwrap(); c.1 += p[2].parse::<u64>().unwrap() }
                "C" => *covers.entry(l.splitn(3, ' ').nth(2).unwrap().into()).or_default() += p[1].parse::<u64>().unwrap(),
                "X" => *inc.entry(l.splitn(3, ' ').nth(2).unwrap().into()).or_default() += p[1].parse::<u64>().unwrap(),
                "V" => { vis.insert(p[1].parse().unwrap()); }
                _ => {}
            }
        }
        let _ = std::fs::remove_file(f.path());
    }
    // functions and source lines executed
    let mut funcs = BTreeSet::new();
    let mut subs: BTreeSet<(String, String)> = BTreeSet::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for f in &m.funcs {
        for (i, b) in f.blocks.iter().enumerate() {
            if !vis.contains(&(f.base_block + i as u32)) { continue }
            funcs.insert(f.name.clone());
            for &d in &b.dbg {
                let mut d = d;
                let mut depth = 0;
                while let Some(parse::Meta::Loc { scope, inlined, line }) = m.meta.get(&d) {
                    let mut s = *scope;
                    while let Some(parse::Meta::Block { scope }) = m.meta.get(&s) { s = *scope }
                    if let Some(parse::Meta::Sub { name, linkage, file, .. }) = m.meta.get(&s) {
                        if let Some(parse::Meta::File { name: fname, .. }) = m.meta.get(file) {
                            subs.insert((fname.clone(), if linkage.is_empty() { name.clone() } else { linkage.clone() }));
                            lines.entry(fname.clone()).or_default().insert(*line);
                        }
                    }
                    d = *inlined;
                    depth += 1;
                    if depth > 100 { break }
                }
            }
        }
    }
    let mut j = String::from("{\n");
    j.push_str(&format!("\"entry\": {}, \"load_s\": {:.3}, \"wall_s\": {:.3}, \"solver_s\": {:.3}, \"processes\": {}, \"z3\": {},\n", esc(&entry), load, t0.elapsed().as_secs_f64(), solver, procs, esc(&z3::version())));
    for (k, v) in &nums { j.push_str(&format!("\"{}\": {},\n", k, v)) }
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    j.push_str(&format!("\"checks\": {{{}}},\n", checks.iter().map(|(k, v)| format!("{}: [{}, {}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"covers\": {{{}}},\n\"incomplete\": {{{}}},\n", map(&covers), map(&inc)));
    j.push_str(&format!("\"functions\": [{}],\n", funcs.iter().map(|f| esc(f)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"inlined\": [{}],\n", subs.iter().filter(|(f, _)| !f.starts_with('/')).map(|(f, n)| format!("[{}, {}]", esc(f), esc(n))).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"lines\": {{{}}}\n}}\n", lines.iter().filter(|(f, _)| !f.starts_with('/')).map(|(f, n)| format!("{}: {}", esc(f), n.len())).collect::<Vec<_>>().join(", ")));
    std::fs::write(format!("{}/result.json", out), j).unwrap();
}
