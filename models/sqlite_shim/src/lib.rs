//! The real sqlite crate with a counter on its operations, for native replay: logs operations and makes the n-th
//! one fail (or "kills the process" there: the files are copied as they are and the thread panics).
pub use real::{version, Bindable, Error, OpenFlags, Readable, Result, State, Type, Value};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub mod ctl {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Fault { Fail, Rollback, Die }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Op { OpenRw, OpenRo, Begin, Commit, Rollback, Vacuum, Read, Write, Other }
    #[derive(Clone, Copy, Debug)]
    pub struct Entry { pub db: usize, pub op: Op, pub ok: bool, pub in_txn: bool }
    pub struct World { pub paths: Vec<std::path::PathBuf>, pub log: Vec<Entry>, pub fault: Option<(u64, Fault)>, pub ops: u64, pub died: bool }
}
use ctl::*;
pub static W: Mutex<World> = Mutex::new(World { paths: Vec::new(), log: Vec::new(), fault: None, ops: 0, died: false });
pub fn w() -> std::sync::MutexGuard<'static, World> { W.lock().unwrap_or_else(|e| e.into_inner()) }

fn op() -> Option<Fault> {
    let mut g = w();
    g.ops += 1;
    let k = match g.fault { Some((n, k)) if n == g.ops => k, _ => return None };
    if k == Fault::Die {
        g.died = true;
        for p in g.paths.clone() {
            let mut names = vec![p.clone()];
            for s in &["-journal", "-wal", "-shm"] { let mut q = p.clone().into_os_string(); q.push(s); names.push(PathBuf::from(q)) }
            for n in names { if n.exists() { let mut d = n.clone().into_os_string().into_string().unwrap(); d = d.replacen("/map.sqlite", "/crash-map.sqlite", 1); std::fs::copy(&n, &d).unwrap(); } }
        }
        drop(g);
        panic!("the process dies here");
    }
    Some(k)
}
fn err<T>() -> Result<T> { Err(Error { code: Some(10), message: Some("disk I/O error".to_string()) }) }

pub struct Connection { c: real::Connection, db: usize }
pub fn open<T: AsRef<Path>>(path: T) -> Result<Connection> { Connection::open(path) }

fn kind(sql: &str) -> Op {
    let t = sql.trim().to_ascii_uppercase();
    let f = t.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("");
    match f { "BEGIN" => Op::Begin, "COMMIT" | "END" => Op::Commit, "ROLLBACK" => Op::Rollback, "VACUUM" => Op::Vacuum, "SELECT" => Op::Read, "PRAGMA" => Op::Other, _ => Op::Write }
}

impl Connection {
    pub fn open<T: AsRef<Path>>(path: T) -> Result<Connection> { Self::open_with_flags(path, OpenFlags::new().set_create().set_read_write()) }
    pub fn open_with_flags<T: AsRef<Path>>(path: T, flags: OpenFlags) -> Result<Connection> {
        let f = op();
        let canon = path.as_ref().canonicalize().unwrap_or_else(|_| path.as_ref().to_path_buf());
        let db = { let mut g = w(); match g.paths.iter().position(|p| p.canonicalize().unwrap_or_else(|_| p.clone()) == canon) { Some(k) => k, None => { g.paths.push(canon); g.paths.len() - 1 } } };
        let ro = format!("{:?}", flags) == format!("{:?}", OpenFlags::new().set_read_only());
        w().log.push(Entry { db, op: if ro { Op::OpenRo } else { Op::OpenRw }, ok: f.is_none(), in_txn: false });
        if f.is_some() { return err() }
        Ok(Connection { c: real::Connection::open_with_flags(path, flags)?, db })
    }
    fn in_txn(&self) -> bool { extern "C" { fn sqlite3_get_autocommit(p: *mut std::ffi::c_void) -> i32; } unsafe { sqlite3_get_autocommit(self.c.as_raw() as *mut _) == 0 } }
    pub fn execute<T: AsRef<str>>(&self, sql: T) -> Result<()> {
        for part in sql.as_ref().split(';') {
            if part.trim().is_empty() { continue }
            let mut s = self.prepare(part)?;
            while s.next()? == State::Row {}
        }
        Ok(())
    }
    pub fn iterate<T: AsRef<str>, F>(&self, sql: T, f: F) -> Result<()> where F: FnMut(&[(&str, Option<&str>)]) -> bool { self.c.iterate(sql, f) }
    pub fn prepare<'l, T: AsRef<str>>(&'l self, sql: T) -> Result<Statement<'l>> {
        let k = kind(sql.as_ref());
        if op().is_some() { w().log.push(Entry { db: self.db, op: Op::Other, ok: false, in_txn: self.in_txn() }); return err() }
        Ok(Statement { s: self.c.prepare(sql)?, c: self, k, rows: 0 })
    }
    pub fn change_count(&self) -> usize { self.c.change_count() }
    pub fn total_change_count(&self) -> usize { self.c.total_change_count() }
    pub fn set_busy_handler<F>(&mut self, f: F) -> Result<()> where F: FnMut(usize) -> bool + Send + 'static { self.c.set_busy_handler(f) }
    pub fn set_busy_timeout(&mut self, n: usize) -> Result<()> { self.c.set_busy_timeout(n) }
    pub fn remove_busy_handler(&mut self) -> Result<()> { self.c.remove_busy_handler() }
}

pub struct Statement<'l> { s: real::Statement<'l>, c: &'l Connection, k: Op, rows: u64 }
impl<'l> Statement<'l> {
    pub fn bind<T: Bindable>(&mut self, i: usize, v: T) -> Result<()> { if op().is_some() { return err() } self.s.bind(i, v) }
    pub fn bind_by_name<T: Bindable>(&mut self, n: &str, v: T) -> Result<()> { self.s.bind_by_name(n, v) }
    pub fn column_count(&self) -> usize { self.s.column_count() }
    pub fn column_name(&self, i: usize) -> &str { self.s.column_name(i) }
    pub fn column_names(&self) -> Vec<&str> { self.s.column_names() }
    pub fn column_type(&self, i: usize) -> Type { self.s.column_type(i) }
    pub fn parameter_index(&self, p: &str) -> Result<Option<usize>> { self.s.parameter_index(p) }
    pub fn read<T: Readable>(&self, i: usize) -> Result<T> { self.s.read(i) }
    pub fn reset(&mut self) -> Result<()> { self.s.reset() }
    pub fn into_cursor(self) -> real::Cursor<'l> { self.s.into_cursor() }
    pub fn next(&mut self) -> Result<State> {
        let t = self.c.in_txn();
        if let Some(f) = op() {
            w().log.push(Entry { db: self.c.db, op: self.k, ok: false, in_txn: t });
            if f == Fault::Rollback && t && self.k != Op::Read { let _ = self.c.c.execute("ROLLBACK"); }
            self.rows = 0;
            return err();
        }
        let r = self.s.next();
        let quiet = self.rows > 0 && (self.k == Op::Read || self.k == Op::Other);
        match &r { Ok(State::Row) => self.rows += 1, _ => self.rows = 0 }
        if !quiet { w().log.push(Entry { db: self.c.db, op: self.k, ok: r.is_ok(), in_txn: t }) }
        r
    }
}
