//! Stand-in for the sqlite crate in the symbolic build: map databases held in memory, keyed by path.
//! Covers the SQL a map editor needs on one table `blocks(pos, data)`; anything else ends the path as "outside the
//! model". Transactions, autocommit, read-only connections, live cursors in rowid order, re-insertion of replaced rows at the end,
//! misuse of statements that were not reset, and injected failures behave as in SQLite.
use std::cell::{Cell, RefCell};
use std::fmt;
use std::path::Path;
use std::rc::Rc;

#[derive(Debug)]
pub struct Error { pub code: Option<isize>, pub message: Option<String> }
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match (self.code, &self.message) {
            (Some(c), Some(m)) => write!(f, "{} (code {})", m, c),
            (Some(c), _) => write!(f, "an SQLite error (code {})", c),
            (_, Some(m)) => m.fmt(f),
            _ => write!(f, "an SQLite error"),
        }
    }
}
impl std::error::Error for Error {}
fn err<T>(code: isize, m: &str) -> Result<T> { Err(Error { code: Some(code), message: Some(m.to_string()) }) }

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Type { Binary, Float, Integer, String, Null }
#[derive(Clone, Debug, PartialEq)]
pub enum Value { Binary(Vec<u8>), Float(f64), Integer(i64), String(String), Null }
impl Value {
    pub fn as_binary(&self) -> Option<&[u8]> { if let Value::Binary(v) = self { Some(v) } else { None } }
    pub fn as_float(&self) -> Option<f64> { if let Value::Float(v) = self { Some(*v) } else { None } }
    pub fn as_integer(&self) -> Option<i64> { if let Value::Integer(v) = self { Some(*v) } else { None } }
    pub fn as_string(&self) -> Option<&str> { if let Value::String(v) = self { Some(v) } else { None } }
    pub fn kind(&self) -> Type { match self { Value::Binary(_) => Type::Binary, Value::Float(_) => Type::Float, Value::Integer(_) => Type::Integer, Value::String(_) => Type::String, Value::Null => Type::Null } }
}

/// What the harness sets up and looks at.
pub mod ctl {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Fault { Fail, Rollback, Die }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Op { OpenRw, OpenRo, Begin, Commit, Rollback, Vacuum, Read, Write, Other }
    #[derive(Clone, Copy, Debug)]
    pub struct Entry { pub db: usize, pub op: Op, pub ok: bool, pub in_txn: bool }
    #[derive(Clone)]
    pub struct Row { pub id: i64, pub pos: i64, pub data: Rc<Vec<u8>> }
    pub struct Db { pub path: String, pub cols: Vec<(String, String, i64)>, pub rows: Vec<Row>, pub next: i64, pub has_table: bool }
    pub struct World { pub dbs: Vec<Db>, pub log: Vec<Entry>, pub fault: Option<(u64, Fault)>, pub ops: u64, pub gap: Option<fn(&str)> }
    static mut W: World = World { dbs: Vec::new(), log: Vec::new(), fault: None, ops: 0, gap: None };
    #[allow(static_mut_refs)]
    pub fn w() -> &'static mut World { unsafe { &mut W } }
    pub fn create(path: &str) -> usize {
        w().dbs.push(Db { path: path.to_string(), cols: vec![("pos".to_string(), "INT".to_string(), 1), ("data".to_string(), "BLOB".to_string(), 0)], rows: Vec::new(), next: 1, has_table: true });
        w().dbs.len() - 1
    }
    pub fn put(db: usize, pos: i64, data: Vec<u8>) { let d = &mut w().dbs[db]; d.rows.push(Row { id: d.next, pos, data: Rc::new(data) }); d.next += 1 }
    /// Counts a database operation; true if it is the one that fails.
    pub(crate) fn op() -> Option<Fault> {
        let w = w();
        w.ops += 1;
        match w.fault { Some((n, k)) if n == w.ops => { if k == Fault::Die { panic!("the process dies here") } Some(k) } _ => None }
    }
    pub(crate) fn gap(what: &str) { if let Some(g) = w().gap { g(what) } panic!("outside the database model: {}", what) }
}
use ctl::{w, Fault, Op, Row};

#[derive(Clone, Copy, Debug)]
pub struct OpenFlags(i32);
impl OpenFlags {
    pub fn new() -> Self { OpenFlags(0) }
    pub fn set_create(self) -> Self { OpenFlags(self.0 | 4) }
    pub fn set_full_mutex(self) -> Self { OpenFlags(self.0 | 0x10000) }
    pub fn set_no_mutex(self) -> Self { OpenFlags(self.0 | 0x8000) }
    pub fn set_read_only(self) -> Self { OpenFlags(self.0 | 1) }
    pub fn set_read_write(self) -> Self { OpenFlags(self.0 | 2) }
}

pub struct Connection { db: usize, ro: bool, txn: Cell<bool>, pend: RefCell<Option<(Vec<Row>, i64)>>, active: Cell<u32>, changes: Cell<usize>, total: Cell<usize> }
unsafe impl Send for Connection {}

pub fn open<T: AsRef<Path>>(path: T) -> Result<Connection> { Connection::open(path) }
pub fn version() -> usize { 3_008_000 }

impl Connection {
    pub fn open<T: AsRef<Path>>(path: T) -> Result<Connection> { Self::open_with_flags(path, OpenFlags::new().set_create().set_read_write()) }
    pub fn open_with_flags<T: AsRef<Path>>(path: T, flags: OpenFlags) -> Result<Connection> {
        let rw = flags.0 & 7;
        if rw != 1 && rw != 2 && rw != 6 { return err(21, "bad parameter or other API misuse") }
        let ro = rw == 1;
        let fail = ctl::op();
        let p = match path.as_ref().to_str() { Some(p) => p, None => return err(14, "failed to process a path") };
        let db = match w().dbs.iter().position(|d| same_path(&d.path, p)) {
            Some(d) => d,
            None => if rw == 6 { let k = ctl::create(p); w().dbs[k].has_table = false; k } else { return err(14, "unable to open database file") }
        };
        w().log.push(ctl::Entry { db, op: if ro { Op::OpenRo } else { Op::OpenRw }, ok: fail.is_none(), in_txn: false });
        if fail.is_some() { return err(14, "unable to open database file") }
        Ok(Connection { db, ro, txn: Cell::new(false), pend: RefCell::new(None), active: Cell::new(0), changes: Cell::new(0), total: Cell::new(0) })
    }
    fn log(&self, op: Op, ok: bool) { w().log.push(ctl::Entry { db: self.db, op, ok, in_txn: self.txn.get() }) }
    fn rollback(&self) { self.txn.set(false); *self.pend.borrow_mut() = None }
    fn with_rows<R>(&self, f: impl FnOnce(&[Row]) -> R) -> R {
        match &*self.pend.borrow() { Some(p) => f(&p.0), None => f(&w().dbs[self.db].rows) }
    }
    fn change<R>(&self, f: impl FnOnce(&mut Vec<Row>, &mut i64) -> R) -> R {
        let d = &mut w().dbs[self.db];
        if self.txn.get() {
            let mut p = self.pend.borrow_mut();
            let p = p.get_or_insert_with(|| (d.rows.clone(), d.next));
            f(&mut p.0, &mut p.1)
        } else { f(&mut d.rows, &mut d.next) }
    }
    fn fault(&self, op: Op) -> Result<()> {
        match ctl::op() {
            None => Ok(()),
            Some(k) => { self.log(op, false); if k == Fault::Rollback && self.txn.get() && op != Op::Read { self.rollback() } err(10, "disk I/O error") }
        }
    }
    pub fn execute<T: AsRef<str>>(&self, sql: T) -> Result<()> {
        for part in sql.as_ref().split(';') {
            if part.trim().is_empty() { continue }
            let mut s = self.prepare(part)?;
            while s.next()? == State::Row {}
        }
        Ok(())
    }
    pub fn iterate<T: AsRef<str>, F>(&self, _: T, _: F) -> Result<()> where F: FnMut(&[(&str, Option<&str>)]) -> bool { ctl::gap("iterate"); Ok(()) }
    pub fn prepare<'l, T: AsRef<str>>(&'l self, sql: T) -> Result<Statement<'l>> {
        let q = parse(sql.as_ref());
        if let Q::Pragma(_) | Q::Begin | Q::Commit | Q::Rollback | Q::Vacuum = q {} else {
            if !w().dbs[self.db].has_table { return err(1, "no such table: blocks") }
            if !w().dbs[self.db].cols.iter().any(|c| c.0 == "pos") { return err(1, "no such column: pos") }
            if !w().dbs[self.db].cols.iter().any(|c| c.0 == "data") { return err(1, "no such column: data") }
        }
        if let Some(_) = ctl::op() { self.log(Op::Other, false); return err(1, "prepare failed") }
        let n = q.params();
        Ok(Statement { c: self, q, args: vec![Value::Null; n], run: Run::Ready, row: Vec::new(), last: i64::MIN, count: 0, active: false })
    }
    pub fn change_count(&self) -> usize { self.changes.get() }
    pub fn changes(&self) -> usize { self.change_count() }
    pub fn total_changes(&self) -> usize { self.total_change_count() }
    pub fn total_change_count(&self) -> usize { self.total.get() }
    pub fn set_busy_handler<F>(&mut self, _: F) -> Result<()> where F: FnMut(usize) -> bool + Send + 'static { Ok(()) }
    pub fn set_busy_timeout(&mut self, _: usize) -> Result<()> { Ok(()) }
    pub fn remove_busy_handler(&mut self) -> Result<()> { Ok(()) }
}

fn same_path(a: &str, b: &str) -> bool {
    fn parts(s: &str) -> impl Iterator<Item = &str> { s.split('/').filter(|p| !p.is_empty() && *p != ".") }
    a.starts_with('/') == b.starts_with('/') && parts(a).eq(parts(b))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Col { Pos, Data, Count }
#[derive(Clone, Copy, Debug)]
enum Arg { P(usize), I(i64) }
#[derive(Clone, Debug)]
enum Q {
    Begin, Commit, Rollback, Vacuum, Pragma(bool),
    Select { cols: Vec<Col>, wh: Vec<(u8, Arg)>, order: i8, limit: Option<Arg> },
    Insert { replace: u8, pos: Arg, data: Arg },
    Update { data: Arg, wh: Vec<(u8, Arg)> },
    Delete { wh: Vec<(u8, Arg)> },
}
impl Q {
    fn params(&self) -> usize {
        let mut n = 0;
        let mut f = |a: &Arg| if let Arg::P(k) = a { if *k > n { n = *k } };
        match self {
            Q::Select { wh, limit, .. } => { wh.iter().for_each(|x| f(&x.1)); limit.iter().for_each(|x| f(x)) }
            Q::Insert { pos, data, .. } => { f(pos); f(data) }
            Q::Update { data, wh } => { f(data); wh.iter().for_each(|x| f(&x.1)) }
            Q::Delete { wh } => wh.iter().for_each(|x| f(&x.1)),
            _ => {}
        }
        n
    }
}

struct Toks { t: Vec<String>, i: usize, np: usize }
impl Toks {
    fn peek(&self) -> &str { self.t.get(self.i).map_or("", |s| s.as_str()) }
    fn acc(&mut self, s: &str) -> bool { if self.peek() == s { self.i += 1; true } else { false } }
    fn exp(&mut self, s: &str) { if !self.acc(s) { ctl::gap("SQL syntax") } }
    fn arg(&mut self) -> Arg {
        let t = self.peek().to_string();
        self.i += 1;
        if t == "?" { self.np += 1; return Arg::P(self.np) }
        if let Some(n) = t.strip_prefix('?') { if let Ok(n) = n.parse::<usize>() { if n > self.np { self.np = n } return Arg::P(n) } }
        if t == "-" { if let Arg::I(v) = self.arg() { return Arg::I(-v) } }
        match t.parse() { Ok(v) => Arg::I(v), Err(_) => { ctl::gap("SQL operand"); Arg::I(0) } }
    }
    fn wh(&mut self) -> Vec<(u8, Arg)> {
        let mut v = Vec::new();
        if self.acc("WHERE") {
            loop {
                self.exp("POS");
                if self.acc("BETWEEN") { let a = self.arg(); self.exp("AND"); let b = self.arg(); v.push((3, a)); v.push((1, b)) }
                else {
                    let op = match self.peek() { "=" | "==" | "IS" => 0, "<=" => 1, "<" => 2, ">=" => 3, ">" => 4, "!=" | "<>" => 5, _ => { ctl::gap("SQL comparison"); 0 } };
                    self.i += 1;
                    let a = self.arg();
                    v.push((op, a));
                }
                if !self.acc("AND") { break }
            }
        }
        v
    }
}

fn parse(sql: &str) -> Q {
    let mut t: Vec<String> = Vec::new();
    let b = sql.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() || c == b';' || c == b'"' || c == b'`' || c == b'[' || c == b']' { i += 1; continue }
        let s = i;
        if c.is_ascii_alphanumeric() || c == b'_' || c == b'?' { i += 1; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 } }
        else { i += 1; if i < b.len() && (b[i] == b'=' || (c == b'<' && b[i] == b'>')) && (c == b'<' || c == b'>' || c == b'!' || c == b'=') { i += 1 } }
        t.push(sql[s..i].to_ascii_uppercase());
    }
    let mut k = Toks { t, i: 1, np: 0 };
    let first = k.t.get(0).cloned().unwrap_or_default();
    let q = match first.as_str() {
        "BEGIN" => { let _ = k.acc("DEFERRED") || k.acc("IMMEDIATE") || k.acc("EXCLUSIVE"); k.acc("TRANSACTION"); Q::Begin }
        "COMMIT" | "END" => { k.acc("TRANSACTION"); Q::Commit }
        "ROLLBACK" => { k.acc("TRANSACTION"); Q::Rollback }
        "VACUUM" => Q::Vacuum,
        "PRAGMA" => { let ti = k.acc("TABLE_INFO"); k.i = k.t.len(); Q::Pragma(ti) }
        "SELECT" => {
            let mut cols = Vec::new();
            k.acc("ALL");
            loop {
                if k.acc("POS") { cols.push(Col::Pos) } else if k.acc("DATA") { cols.push(Col::Data) }
                else if k.acc("*") { cols.push(Col::Pos); cols.push(Col::Data) }
                else if k.acc("COUNT") { k.exp("("); k.i += 1; k.exp(")"); cols.push(Col::Count) }
                else { ctl::gap("SQL column") }
                if !k.acc(",") { break }
            }
            k.exp("FROM"); k.exp("BLOCKS");
            let wh = k.wh();
            let mut order = 0;
            if k.acc("ORDER") { k.exp("BY"); k.exp("POS"); order = 1; if k.acc("DESC") { order = -1 } else { k.acc("ASC"); } }
            let limit = if k.acc("LIMIT") { Some(k.arg()) } else { None };
            Q::Select { cols, wh, order, limit }
        }
        "INSERT" | "REPLACE" => {
            let mut replace = if first == "REPLACE" { 1 } else { 0 };
            if k.acc("OR") { if k.acc("REPLACE") { replace = 1 } else if k.acc("IGNORE") { replace = 2 } else { k.i += 1 } }
            k.exp("INTO"); k.exp("BLOCKS");
            let mut swap = false;
            if k.acc("(") { if k.acc("DATA") { swap = true; k.exp(","); k.exp("POS") } else { k.exp("POS"); k.exp(","); k.exp("DATA") } k.exp(")") }
            k.exp("VALUES"); k.exp("(");
            let a = k.arg(); k.exp(","); let b = k.arg(); k.exp(")");
            if swap { Q::Insert { replace, pos: b, data: a } } else { Q::Insert { replace, pos: a, data: b } }
        }
        "UPDATE" => { k.exp("BLOCKS"); k.exp("SET"); k.exp("DATA"); k.exp("="); let data = k.arg(); let wh = k.wh(); Q::Update { data, wh } }
        "DELETE" => { k.exp("FROM"); k.exp("BLOCKS"); let wh = k.wh(); Q::Delete { wh } }
        _ => { ctl::gap("SQL statement"); Q::Begin }
    };
    if k.i < k.t.len() { ctl::gap("SQL clause") }
    q
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State { Row, Done }
#[derive(Clone, Copy, PartialEq, Eq)]
enum Run { Ready, Row, Done }

pub trait Bindable { fn bind(self, s: &mut Statement, i: usize) -> Result<()>; }
pub trait Readable: Sized { fn read(s: &Statement, i: usize) -> Result<Self>; }

pub struct Statement<'l> { c: &'l Connection, q: Q, args: Vec<Value>, run: Run, row: Vec<Value>, last: i64, count: u64, active: bool }

impl<'l> Statement<'l> {
    pub fn bind<T: Bindable>(&mut self, i: usize, v: T) -> Result<()> { v.bind(self, i) }
    pub fn bind_by_name<T: Bindable>(&mut self, _: &str, _: T) -> Result<()> { ctl::gap("bind_by_name"); Ok(()) }
    fn set(&mut self, i: usize, v: Value) -> Result<()> {
        if self.run != Run::Ready { return err(21, "bad parameter or other API misuse") }
        if i == 0 || i > self.args.len() { return err(25, "column index out of range") }
        if ctl::op().is_some() { return err(7, "out of memory") }
        self.args[i - 1] = v;
        Ok(())
    }
    pub fn column_count(&self) -> usize { match &self.q { Q::Select { cols, .. } => cols.len(), Q::Pragma(true) => 6, _ => 0 } }
    pub fn column_name(&self, i: usize) -> &str { match &self.q { Q::Select { cols, .. } => match cols[i] { Col::Pos => "pos", Col::Data => "data", _ => "count(*)" }, _ => ["cid", "name", "type", "notnull", "dflt_value", "pk"][i] } }
    pub fn column_names(&self) -> Vec<&str> { (0..self.column_count()).map(|i| self.column_name(i)).collect() }
    pub fn column_type(&self, i: usize) -> Type { self.row.get(i).map_or(Type::Null, |v| v.kind()) }
    pub fn parameter_index(&self, _: &str) -> Result<Option<usize>> { Ok(None) }
    pub fn read<T: Readable>(&self, i: usize) -> Result<T> { T::read(self, i) }
    pub fn reset(&mut self) -> Result<()> { self.done(Run::Ready); Ok(()) }
    pub fn count(&self) -> usize { self.column_count() }
    pub fn name(&self, i: usize) -> &str { self.column_name(i) }
    pub fn names(&self) -> Vec<&str> { self.column_names() }
    pub fn kind(&self, i: usize) -> Type { self.column_type(i) }
    pub fn cursor(self) -> Cursor<'l> { self.into_cursor() }
    pub fn into_cursor(self) -> Cursor<'l> { Cursor { st: None, vals: Vec::new(), s: self } }
    fn done(&mut self, r: Run) {
        if self.active { self.active = false; self.c.active.set(self.c.active.get() - 1) }
        self.run = r;
        self.row.clear();
    }
    fn int(&self, a: Arg) -> i64 { match a { Arg::I(v) => v, Arg::P(n) => match &self.args[n - 1] { Value::Integer(v) => *v, _ => { ctl::gap("a parameter that is not an integer"); 0 } } } }
    fn blob(&self, a: Arg) -> Vec<u8> { match a { Arg::P(n) => match &self.args[n - 1] { Value::Binary(v) => v.clone(), Value::String(s) => s.clone().into_bytes(), Value::Null => Vec::new(), _ => { ctl::gap("data that is not a blob"); Vec::new() } }, _ => { ctl::gap("literal data"); Vec::new() } } }
    fn hit(&self, pos: i64, wh: &[(u8, Arg)]) -> bool {
        wh.iter().all(|&(op, a)| { let v = self.int(a); match op { 0 => pos == v, 1 => pos <= v, 2 => pos < v, 3 => pos >= v, 4 => pos > v, _ => pos != v } })
    }
    pub fn next(&mut self) -> Result<State> {
        let c = self.c;
        if self.run == Run::Done { self.done(Run::Ready) }
        let q = self.q.clone();
        let kind = match &q { Q::Begin => Op::Begin, Q::Commit => Op::Commit, Q::Rollback => Op::Rollback, Q::Vacuum => Op::Vacuum, Q::Pragma(_) => Op::Other, Q::Select { .. } => Op::Read, _ => Op::Write };
        if let Err(e) = c.fault(kind) { self.done(Run::Done); return Err(e) }
        let was_txn = c.txn.get();
        let res = self.step(&q);
        match &q { Q::Select { .. } | Q::Pragma(_) if self.count > 0 => {} _ => w().log.push(ctl::Entry { db: c.db, op: kind, ok: res.is_ok(), in_txn: was_txn }) }
        match res {
            Ok(true) => { if !self.active { self.active = true; c.active.set(c.active.get() + 1) } self.run = Run::Row; self.count += 1; Ok(State::Row) }
            Ok(false) => { self.done(Run::Done); self.count = 0; self.last = i64::MIN; Ok(State::Done) }
            Err(e) => { self.done(Run::Done); self.count = 0; Err(e) }
        }
    }
    fn step(&mut self, q: &Q) -> Result<bool> {
        let c = self.c;
        if self.run == Run::Ready { self.count = 0; self.last = i64::MIN }
        match q {
            Q::Begin => { if c.txn.get() { return err(1, "cannot start a transaction within a transaction") } c.txn.set(true); Ok(false) }
            Q::Commit => {
                if !c.txn.get() { return err(1, "cannot commit - no transaction is active") }
                if let Some((r, n)) = c.pend.borrow_mut().take() { let d = &mut w().dbs[c.db]; d.rows = r; d.next = n }
                c.txn.set(false);
                Ok(false)
            }
            Q::Rollback => { if !c.txn.get() { return err(1, "cannot rollback - no transaction is active") } c.rollback(); Ok(false) }
            Q::Vacuum => {
                if c.ro { return err(8, "attempt to write a readonly database") }
                if c.txn.get() { return err(1, "cannot VACUUM from within a transaction") }
                if c.active.get() > 0 { return err(1, "cannot VACUUM - SQL statements in progress") }
                Ok(false)
            }
            Q::Pragma(ti) => {
                let d = &w().dbs[c.db];
                let n = self.count as usize;
                if !*ti || !d.has_table || n >= d.cols.len() { return Ok(false) }
                let k = &d.cols[n];
                self.row = vec![Value::Integer(n as i64), Value::String(k.0.clone()), Value::String(k.1.clone()), Value::Integer(0), Value::Null, Value::Integer(k.2)];
                Ok(true)
            }
            Q::Select { cols, wh, order, limit } => {
                if let Some(l) = limit { if self.count >= self.int(*l) as u64 { return Ok(false) } }
                let last = self.last;
                let hit = c.with_rows(|rows| {
                    if cols.contains(&Col::Count) {
                        if self.count > 0 { return None }
                        let mut n = 0;
                        for r in rows { if self.hit(r.pos, wh) { n += 1 } }
                        return Some((0, vec![Value::Integer(n)]))
                    }
                    let mut best: Option<&Row> = None;
                    if *order == 0 {
                        let from = if last == i64::MIN { 0 } else { match rows.binary_search_by(|r| r.id.cmp(&last)) { Ok(k) => k + 1, Err(k) => k } };
                        for r in &rows[from..] { if self.hit(r.pos, wh) { best = Some(r); break } }
                    } else {
                        for r in rows {
                            if !self.hit(r.pos, wh) { continue }
                            let after = self.count == 0 || if *order > 0 { r.pos > last } else { r.pos < last };
                            if after && best.map_or(true, |b| if *order > 0 { r.pos < b.pos } else { r.pos > b.pos }) { best = Some(r) }
                        }
                    }
                    best.map(|r| (if *order == 0 { r.id } else { r.pos }, cols.iter().map(|k| if *k == Col::Pos { Value::Integer(r.pos) } else { Value::Binary((*r.data).clone()) }).collect::<Vec<_>>()))
                });
                match hit { Some((l, row)) => { self.last = l; self.row = row; Ok(true) } None => Ok(false) }
            }
            Q::Insert { replace, pos, data } => {
                if c.ro { return err(8, "attempt to write a readonly database") }
                let p = self.int(*pos);
                let d = Rc::new(self.blob(*data));
                let old = c.with_rows(|rows| rows.iter().position(|r| r.pos == p));
                if old.is_some() && *replace == 0 { return err(19, "UNIQUE constraint failed: blocks.pos") }
                if old.is_some() && *replace == 2 { return Ok(false) }
                c.change(|rows, next| {
                    if let Some(k) = old { rows.remove(k); }
                    // SQLite gives a new row the largest rowid in use plus one.
                    let id = rows.last().map_or(1, |r| r.id + 1).max(if old.is_some() { *next } else { 0 });
                    rows.push(Row { id, pos: p, data: d });
                    *next = id + 1;
                });
                c.changes.set(1); c.total.set(c.total.get() + 1);
                Ok(false)
            }
            Q::Update { data, wh } => {
                if c.ro { return err(8, "attempt to write a readonly database") }
                let d = Rc::new(self.blob(*data));
                let n = c.change(|rows, _| { let mut n = 0; for r in rows.iter_mut() { if self.hit(r.pos, wh) { r.data = d.clone(); n += 1 } } n });
                c.changes.set(n); c.total.set(c.total.get() + n);
                Ok(false)
            }
            Q::Delete { wh } => {
                if c.ro { return err(8, "attempt to write a readonly database") }
                let n = c.change(|rows, _| { let n = rows.len(); rows.retain(|r| !self.hit(r.pos, wh)); n - rows.len() });
                c.changes.set(n); c.total.set(c.total.get() + n);
                Ok(false)
            }
        }
    }
}
impl<'l> Drop for Statement<'l> { fn drop(&mut self) { self.done(Run::Done) } }

pub struct Cursor<'l> { st: Option<State>, vals: Vec<Value>, s: Statement<'l> }
impl<'l> Cursor<'l> {
    pub fn bind(&mut self, v: &[Value]) -> Result<()> { self.st = None; self.s.reset()?; for (i, v) in v.iter().enumerate() { self.s.bind(i + 1, v)? } Ok(()) }
    pub fn column_count(&self) -> usize { self.s.column_count() }
    pub fn count(&self) -> usize { self.s.column_count() }
    pub fn next(&mut self) -> Result<Option<&[Value]>> {
        if self.st == Some(State::Done) { return Ok(None) }
        let s = self.s.next()?;
        self.st = Some(s);
        if s == State::Done { return Ok(None) }
        self.vals = self.s.row.clone();
        Ok(Some(&self.vals))
    }
}

impl<'l> Bindable for &'l Value { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { s.set(i, self.clone()) } }
impl<'l> Bindable for &'l [u8] { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { s.set(i, Value::Binary(self.to_vec())) } }
impl Bindable for f64 { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { s.set(i, Value::Float(self)) } }
impl Bindable for i64 { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { s.set(i, Value::Integer(self)) } }
impl<'l> Bindable for &'l str { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { s.set(i, Value::String(self.to_string())) } }
impl Bindable for () { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { s.set(i, Value::Null) } }
impl<T: Bindable> Bindable for Option<T> { fn bind(self, s: &mut Statement, i: usize) -> Result<()> { match self { Some(v) => v.bind(s, i), None => ().bind(s, i) } } }

impl Readable for Value { fn read(s: &Statement, i: usize) -> Result<Self> { Ok(s.row.get(i).cloned().unwrap_or(Value::Null)) } }
impl Readable for f64 { fn read(s: &Statement, i: usize) -> Result<Self> { Ok(match s.row.get(i) { Some(Value::Float(v)) => *v, Some(Value::Integer(v)) => *v as f64, _ => 0. }) } }
impl Readable for i64 { fn read(s: &Statement, i: usize) -> Result<Self> { Ok(match s.row.get(i) { Some(Value::Integer(v)) => *v, None | Some(Value::Null) => 0, _ => { ctl::gap("integer read of another type"); 0 } }) } }
impl Readable for String { fn read(s: &Statement, i: usize) -> Result<Self> { match s.row.get(i) { Some(Value::String(v)) => Ok(v.clone()), None | Some(Value::Null) => Err(Error { code: None, message: Some("cannot read a text column".to_string()) }), _ => { ctl::gap("text read of another type"); Ok(String::new()) } } } }
impl Readable for Vec<u8> { fn read(s: &Statement, i: usize) -> Result<Self> { Ok(match s.row.get(i) { Some(Value::Binary(v)) => v.clone(), Some(Value::String(v)) => v.clone().into_bytes(), None | Some(Value::Null) => Vec::new(), _ => { ctl::gap("blob read of another type"); Vec::new() } }) } }
impl<T: Readable> Readable for Option<T> { fn read(s: &Statement, i: usize) -> Result<Self> { if s.column_type(i) == Type::Null { Ok(None) } else { T::read(s, i).map(Some) } } }
