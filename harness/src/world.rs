//! Map databases of a check: the model's in memory, or real SQLite files in a scratch directory.
#![allow(dead_code)]
pub use sqlite::ctl::{Entry, Fault, Op};

#[cfg(symx)]
mod imp {
    use super::*;
    extern "C" { fn sym_file(p: *const u8, n: usize, kind: u64); fn sym_gap(p: *const u8, n: usize); }
    fn gap(s: &str) { unsafe { sym_gap(s.as_ptr(), s.len()) } }
    fn file(p: &str, kind: u64) { unsafe { sym_file(p.as_ptr(), p.len(), kind) } }
    #[derive(Clone, Debug)]
    pub struct Map { pub dir: String, pub file: String, db: usize }
    pub fn new(name: &str) -> Map {
        let dir = format!("/worlds/{}", name);
        let f = format!("{}/map.sqlite", dir);
        sqlite::ctl::w().gap = Some(gap);
        file(&dir, 2);
        file(&f, 1);
        let db = sqlite::ctl::create(&f);
        Map { dir, file: f, db }
    }
    /// A directory without a map, and a path that does not exist.
    pub fn empty_dir(name: &str) -> String { let d = format!("/worlds/{}", name); file(&d, 2); d }
    pub fn nothing(name: &str) -> String { format!("/worlds/{}", name) }
    /// A map file whose table has the given columns (name, type, pk), or no table.
    pub fn with_schema(name: &str, cols: Option<&[(&str, &str, i64)]>) -> Map {
        let m = new(name);
        let d = &mut sqlite::ctl::w().dbs[m.db];
        match cols { Some(c) => d.cols = c.iter().map(|c| (c.0.to_string(), c.1.to_string(), c.2)).collect(), None => d.has_table = false }
        m
    }
    impl Map {
        pub fn put(&self, key: i64, data: &[u8]) { sqlite::ctl::put(self.db, key, data.to_vec()) }
        /// Committed rows, in storage order.
        pub fn rows(&self) -> Vec<(i64, Vec<u8>)> { sqlite::ctl::w().dbs[self.db].rows.iter().map(|r| (r.pos, (*r.data).clone())).collect() }
        pub fn log(&self) -> Vec<Entry> { sqlite::ctl::w().log.iter().filter(|e| e.db == self.db).cloned().collect() }
    }
    pub fn set_fault(at: u64, k: Fault) { let w = sqlite::ctl::w(); w.fault = Some((w.ops + at, k)) }
    pub fn ops() -> u64 { sqlite::ctl::w().ops }
    pub fn write_limit(n: usize) { unsafe { flate2::LIMIT = n; zstd::LIMIT = n } }
    pub fn deflate(raw: &[u8]) -> Vec<u8> { let mut v = Vec::with_capacity(raw.len() + 9); v.push(0x78); if !raw.is_empty() { v.extend_from_slice(&(raw.len() as u32).to_le_bytes()); v.extend_from_slice(raw) } v.extend_from_slice(&[0; 4]); v }
    pub fn zstd(raw: &[u8]) -> Vec<u8> { let mut v = Vec::with_capacity(raw.len() + 12); v.extend_from_slice(&[0x28, 0xB5, 0x2F, 0xFD]); if !raw.is_empty() { v.extend_from_slice(&(raw.len() as u32).to_le_bytes()); v.extend_from_slice(raw) } v.extend_from_slice(&[0; 4]); v }
    fn chunks(b: &[u8], mut p: usize) -> Option<(Vec<u8>, usize)> {
        let mut out = Vec::new();
        loop {
            if b.len() < p + 4 { return None }
            let n = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize;
            p += 4;
            if n == 0 { return Some((out, p)) }
            if b.len() < p + n { return None }
            out.extend_from_slice(&b[p..p + n]);
            p += n;
        }
    }
    pub fn inflate(b: &[u8]) -> Option<(Vec<u8>, usize)> { if b.is_empty() || b[0] != 0x78 { return None } chunks(b, 1) }
    pub fn unzstd(b: &[u8]) -> Option<Vec<u8>> { if b.len() < 4 || b[..4] != [0x28, 0xB5, 0x2F, 0xFD] { return None } let (v, n) = chunks(b, 4)?; if n == b.len() { Some(v) } else { None } }
    pub fn cleanup() {}
}

#[cfg(not(symx))]
mod imp {
    use super::*;
    use std::io::{Read, Write};
    use std::sync::Mutex;
    static SCRATCH: Mutex<Option<String>> = Mutex::new(None);
    fn scratch() -> String {
        let mut g = SCRATCH.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() { let d = format!("{}/mapeditr-replay-{}", std::env::temp_dir().display(), std::process::id()); std::fs::create_dir_all(&d).unwrap(); *g = Some(d) }
        g.clone().unwrap()
    }
    pub fn cleanup() { let d = SCRATCH.lock().unwrap_or_else(|e| e.into_inner()).take(); if let Some(d) = d { let _ = std::fs::remove_dir_all(&d); } }
    #[derive(Clone, Debug)]
    pub struct Map { pub dir: String, pub file: String }
    pub fn with_schema(name: &str, cols: Option<&[(&str, &str, i64)]>) -> Map {
        let dir = format!("{}/{}", scratch(), name);
        std::fs::create_dir_all(&dir).unwrap();
        let file = format!("{}/map.sqlite", dir);
        let c = real::open(&file).unwrap();
        match cols {
            Some(c2) => c.execute(format!("CREATE TABLE blocks ({})", c2.iter().map(|k| format!("{} {}{}", k.0, k.1, if k.2 > 0 { " PRIMARY KEY" } else { "" })).collect::<Vec<_>>().join(", "))).unwrap(),
            None => c.execute("CREATE TABLE other (x INT)").unwrap(),
        }
        Map { dir, file }
    }
    pub fn new(name: &str) -> Map { with_schema(name, Some(&[("pos", "INT", 1), ("data", "BLOB", 0)])) }
    pub fn empty_dir(name: &str) -> String { let d = format!("{}/{}", scratch(), name); std::fs::create_dir_all(&d).unwrap(); d }
    pub fn nothing(name: &str) -> String { format!("{}/{}", scratch(), name) }
    impl Map {
        pub fn put(&self, key: i64, data: &[u8]) {
            let c = real::open(&self.file).unwrap();
            c.execute("PRAGMA synchronous = OFF").unwrap();
            let mut s = c.prepare("INSERT INTO blocks (pos, data) VALUES (?, ?)").unwrap();
            s.bind(1, key).unwrap();
            s.bind(2, data).unwrap();
            s.next().unwrap();
        }
        pub fn rows(&self) -> Vec<(i64, Vec<u8>)> {
            let dead = self.file.replacen("/map.sqlite", "/crash-map.sqlite", 1);
            let f = if sqlite::w().died && std::path::Path::new(&dead).exists() { dead } else { self.file.clone() };
            let c = real::open(&f).unwrap();
            let mut v = Vec::new();
            let mut s = match c.prepare("SELECT pos, data FROM blocks") { Ok(s) => s, Err(_) => return v };
            while s.next().unwrap() == real::State::Row { v.push((s.read(0).unwrap(), s.read(1).unwrap())) }
            v
        }
        pub fn log(&self) -> Vec<Entry> {
            let g = sqlite::w();
            let me = std::path::Path::new(&self.file).canonicalize().unwrap();
            let k = g.paths.iter().position(|p| p.canonicalize().map_or(false, |p| p == me));
            g.log.iter().filter(|e| Some(e.db) == k).cloned().collect()
        }
    }
    pub fn set_fault(at: u64, k: Fault) { let mut w = sqlite::w(); let n = w.ops + at; w.fault = Some((n, k)) }
    pub fn ops() -> u64 { sqlite::w().ops }
    pub fn write_limit(_: usize) {}
    pub fn deflate(raw: &[u8]) -> Vec<u8> { let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default()); e.write_all(raw).unwrap(); e.finish().unwrap() }
    pub fn zstd(raw: &[u8]) -> Vec<u8> { zstd::stream::encode_all(raw, 0).unwrap() }
    pub fn inflate(b: &[u8]) -> Option<(Vec<u8>, usize)> { let mut d = flate2::read::ZlibDecoder::new(b); let mut v = Vec::new(); d.read_to_end(&mut v).ok()?; let n = d.total_in() as usize; Some((v, n)) }
    pub fn unzstd(b: &[u8]) -> Option<Vec<u8>> { zstd::stream::decode_all(b).ok() }
}
pub use imp::*;

impl Map {
    pub fn get(&self, key: i64) -> Option<Vec<u8>> { self.rows().into_iter().find(|r| r.0 == key).map(|r| r.1) }
    pub fn has(&self, op: Op) -> bool { self.log().iter().any(|e| e.op == op) }
    /// No statement that could change the database was executed, whether or not it succeeded.
    pub fn untouched(&self) -> bool { !self.log().iter().any(|e| matches!(e.op, Op::Write | Op::Vacuum)) }
}
