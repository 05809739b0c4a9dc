//! Inputs, assumptions and assertions of a check. In the symbolic build these are the executor's primitives; in the
//! native build they read a recorded input file and evaluate the assertions on the real program.
#![allow(dead_code)]

#[cfg(symx)]
mod imp {
    extern "C" {
        pub fn sym_int(name: *const u8, len: usize, width: u64) -> u64;
        pub fn sym_bytes(name: *const u8, len: usize, p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, msg: *const u8, len: usize);
        pub fn sym_cover(msg: *const u8, len: usize);
        pub fn sym_choose(name: *const u8, len: usize, n: u64) -> u64;
        pub fn sym_pick(v: u64) -> u64;
        pub fn sym_maybe(c: bool) -> u64;
        pub fn sym_catch(f: extern "C" fn(*mut u8), d: *mut u8) -> u32;
        pub fn sym_panicked(p: *mut u8, n: usize) -> usize;
        pub fn sym_observe(l: *const u8, len: usize, p: *const u8, n: usize);
        pub fn sym_end();
        pub fn sym_log(p: *const u8, n: usize);
        pub fn sym_args(p: *const u8, n: usize);
        pub fn sym_stdin(p: *const u8, n: usize);
        pub fn sym_stdout(p: *mut u8, n: usize) -> usize;
    }
    /// Runs the program with the given arguments and standard input; what it prints.
    pub fn cli(args: &[&[u8]], stdin: &[u8]) -> String {
        let mut a = b"mapeditr\0".to_vec();
        for x in args { a.extend_from_slice(x); a.push(0) }
        unsafe { sym_args(a.as_ptr(), a.len()); sym_stdin(stdin.as_ptr(), stdin.len()) }
        let r = catch(crate::cmd_line::run_cmd_line);
        let mut b = vec![0u8; 65536];
        let n = unsafe { sym_stdout(b.as_mut_ptr(), b.len()) };
        b.truncate(n);
        let mut s = String::from_utf8_lossy(&b).into_owned();
        if let Err(m) = r { s.push_str("\n[ended: "); s.push_str(&m); s.push_str("]\n") }
        s
    }
    pub fn int(name: &str, width: u64) -> u64 { unsafe { sym_int(name.as_ptr(), name.len(), width) } }
    pub fn bytes(name: &str, out: &mut [u8]) { unsafe { sym_bytes(name.as_ptr(), name.len(), out.as_mut_ptr(), out.len()) } }
    pub fn assume(c: bool) { unsafe { sym_assume(c) } }
    pub fn check(c: bool, msg: &str) { unsafe { sym_check(c, msg.as_ptr(), msg.len()) } }
    pub fn cover(msg: &str) { unsafe { sym_cover(msg.as_ptr(), msg.len()) } }
    pub fn choose(name: &str, n: usize) -> usize { unsafe { sym_choose(name.as_ptr(), name.len(), n as u64) as usize } }
    /// Splits the path on the value: afterwards it is concrete.
    pub fn pick(v: u64) -> u64 { unsafe { sym_pick(v) } }
    /// Can it be true on this path?
    pub fn maybe(c: bool) -> bool { unsafe { sym_maybe(c) != 0 } }
    pub fn observe(l: &str, b: &[u8]) { unsafe { sym_observe(l.as_ptr(), l.len(), b.as_ptr(), b.len()) } }
    pub fn end() -> ! { unsafe { sym_end() } loop {} }
    pub fn log(s: &str) { unsafe { sym_log(s.as_ptr(), s.len()) } }
    struct Call<F: FnOnce() -> R, R> { f: Option<F>, r: Option<R> }
    extern "C" fn call<F: FnOnce() -> R, R>(p: *mut u8) { unsafe { let c = &mut *(p as *mut Call<F, R>); let r = (c.f.take().unwrap())(); c.r = Some(r); } }
    /// Runs `f`; an error is the message of the panic that ended it.
    pub fn catch<F: FnOnce() -> R, R>(f: F) -> Result<R, String> {
        let mut c = Call { f: Some(f), r: None };
        let bad = unsafe { sym_catch(call::<F, R>, &mut c as *mut _ as *mut u8) };
        if bad == 0 { return Ok(c.r.unwrap()) }
        let mut b = vec![0u8; 256];
        let n = unsafe { sym_panicked(b.as_mut_ptr(), 256) };
        Err(String::from_utf8_lossy(&b[..n.min(256)]).into_owned())
    }
    pub const NATIVE: bool = false;
}

#[cfg(not(symx))]
mod imp {
    use std::sync::Mutex;
    pub static INPUT: Mutex<(Vec<Vec<String>>, usize)> = Mutex::new((Vec::new(), 0));
    pub static FAILED: Mutex<Vec<String>> = Mutex::new(Vec::new());
    fn next(kind: &str, name: &str) -> Vec<String> {
        let mut g = INPUT.lock().unwrap_or_else(|e| e.into_inner());
        let k = g.1;
        g.1 += 1;
        match g.0.get(k) {
            Some(l) if l[0] == kind && l[1] == name => l.clone(),
            // Inputs after the recorded ones do not matter for what was recorded.
            None => vec![kind.to_string(), name.to_string(), "0".to_string(), "0".to_string()],
            Some(l) => { drop(l); println!("DIVERGED expected {} {}", kind, name); std::process::exit(4) }
        }
    }
    pub fn int(name: &str, _: u64) -> u64 { next("I", name)[3].parse().unwrap() }
    pub fn bytes(name: &str, out: &mut [u8]) {
        let l = next("B", name);
        let h = l[2].as_bytes();
        for i in 0..out.len() { if 2 * i + 1 < h.len() { out[i] = u8::from_str_radix(&l[2][2 * i..2 * i + 2], 16).unwrap() } }
    }
    pub fn assume(c: bool) { if !c { println!("ASSUMPTION-FAILED"); std::process::exit(5) } }
    pub fn check(c: bool, msg: &str) { if !c { println!("FAILED {}", msg); FAILED.lock().unwrap_or_else(|e| e.into_inner()).push(msg.to_string()) } }
    pub fn cover(_: &str) {}
    pub fn choose(name: &str, _: usize) -> usize { next("C", name)[2].parse().unwrap() }
    pub fn pick(v: u64) -> u64 { v }
    pub fn maybe(c: bool) -> bool { c }
    pub fn observe(l: &str, b: &[u8]) { println!("O {} {}", l.replace(' ', "_"), b.iter().map(|x| format!("{:02x}", x)).collect::<String>()) }
    pub fn finish() -> ! {
        let n = FAILED.lock().unwrap_or_else(|e| e.into_inner()).len();
        super::super::world::cleanup();
        std::process::exit(if n > 0 { 1 } else { 0 })
    }
    pub fn end() -> ! { finish() }
    pub fn log(s: &str) { println!("LOG {}", s) }
    pub fn catch<F: FnOnce() -> R, R>(f: F) -> Result<R, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
    }
    pub const NATIVE: bool = true;
    pub fn cli(args: &[&[u8]], stdin: &[u8]) -> String {
        use std::os::unix::ffi::OsStrExt;
        use std::process::*;
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.env("VERIF_CLI", "1").args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a))).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut c = c.spawn().unwrap();
        let _ = std::io::Write::write_all(&mut c.stdin.take().unwrap(), stdin);
        let o = c.wait_with_output().unwrap();
        let mut s = String::from_utf8_lossy(&o.stdout).into_owned();
        s.push_str(&String::from_utf8_lossy(&o.stderr));
        if !o.status.success() { s.push_str("\n[ended]\n") }
        s
    }
    pub fn cli_child() { crate::cmd_line::run_cmd_line() }
    /// `replay FILE`: runs the check named in the file on its inputs with the real libraries.
    pub fn main(table: &[(&'static str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let text = std::fs::read_to_string(&a[1]).unwrap();
        let mut entry = a.get(2).cloned().unwrap_or_default();
        let mut ins = Vec::new();
        for l in text.lines() {
            let p: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
            match p[0].as_str() { "E" => entry = p[1].clone(), "I" | "B" | "C" => { let mut p = p; while p.len() < 4 { p.push(String::new()) } ins.push(p) } _ => {} }
        }
        INPUT.lock().unwrap().0 = ins;
        let f = table.iter().find(|t| t.0 == entry).expect("unknown entry").1;
        if let Err(m) = catch(f) { println!("FAILED uncaught panic {}", m.lines().next().unwrap_or("")); FAILED.lock().unwrap_or_else(|e| e.into_inner()).push(m) }
        finish()
    }
}
pub use imp::*;

pub fn begin() {}
pub fn done() {}
pub fn u8(n: &str) -> u8 { int(n, 8) as u8 }
pub fn u16(n: &str) -> u16 { int(n, 16) as u16 }
pub fn u32(n: &str) -> u32 { int(n, 32) as u32 }
pub fn u64(n: &str) -> u64 { int(n, 64) }
pub fn i32(n: &str) -> i32 { int(n, 32) as i32 }
pub fn i64(n: &str) -> i64 { int(n, 64) as i64 }
pub fn boolean(n: &str) -> bool { choose(n, 2) == 1 }
/// A symbolic integer within bounds; paths are split on it wherever it decides what the program does.
pub fn extent(n: &str, lo: i32, hi: i32) -> i32 { let v = int(n, 32 | 0x100) as i32; assume((lo <= v) & (v <= hi)); v }
pub fn range(n: &str, lo: i32, hi: i32) -> i32 { let v = i32(n); assume((lo <= v) & (v <= hi)); v }
pub fn vec(n: &str, len: usize) -> Vec<u8> { let mut v = vec![0; len]; bytes(n, &mut v); v }
/// Equality without branching on the contents.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i] }
    d == 0
}
