//! A stand-in for rocksdb that keeps its databases in memory and can fail or "crash" on demand.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Mutex, MutexGuard};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
pub struct Control {
    /// What the process sees.
    pub map: BTreeMap<PathBuf, Map>,
    /// What survives a crash of the process.
    pub durable: BTreeMap<PathBuf, Map>,
    /// Write calls made so far.
    pub writes: u64,
    /// The write calls, counted from 0, that fail.
    pub fail_writes: Vec<u64>,
    /// Every later call fails once this many write calls were made: the process is dying.
    pub die_after_writes: Option<u64>,
    /// The reads, counted from 0, that fail.
    pub fail_reads: Vec<u64>,
    pub reads: u64,
    /// The content of every database after every write call.
    pub history: Vec<Map>,
}

static CONTROL: Mutex<Option<Control>> = Mutex::new(None);

pub struct Guard(MutexGuard<'static, Option<Control>>);
impl std::ops::Deref for Guard {
    type Target = Control;
    fn deref(&self) -> &Control {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Control {
        self.0.as_mut().unwrap()
    }
}
pub fn control() -> Guard {
    let mut g = CONTROL.lock().unwrap();
    g.get_or_insert_with(Control::default);
    Guard(g)
}
/// The process is gone and comes back.
pub fn crash() {
    let mut c = control();
    c.map = c.durable.clone();
    c.die_after_writes = None;
    c.fail_reads.clear();
    c.fail_writes.clear();
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl Error {
    pub fn into_string(self) -> String {
        self.0
    }
}
impl std::error::Error for Error {}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Clone)]
enum Op {
    Put(Vec<u8>, Vec<u8>),
    Del(Vec<u8>),
}

pub trait WriteBatchIterator {
    fn put(&mut self, key: Box<[u8]>, value: Box<[u8]>);
    fn delete(&mut self, key: Box<[u8]>);
}

#[derive(Default)]
pub struct WriteBatch(Vec<Op>);
impl WriteBatch {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn size_in_bytes(&self) -> usize {
        self.0.iter().map(|o| match o { Op::Put(k, v) => k.len() + v.len() + 3, Op::Del(k) => k.len() + 2 }).sum()
    }
    pub fn put<A: AsRef<[u8]>, B: AsRef<[u8]>>(&mut self, k: A, v: B) {
        self.0.push(Op::Put(k.as_ref().to_vec(), v.as_ref().to_vec()));
    }
    pub fn delete<A: AsRef<[u8]>>(&mut self, k: A) {
        self.0.push(Op::Del(k.as_ref().to_vec()));
    }
    pub fn clear(&mut self) {
        self.0.clear();
    }
    pub fn iterate(&self, cb: &mut dyn WriteBatchIterator) {
        for o in &self.0 {
            match o {
                Op::Put(k, v) => cb.put(k.clone().into(), v.clone().into()),
                Op::Del(k) => cb.delete(k.clone().into()),
            }
        }
    }
}

#[derive(Default)]
pub struct Options {
    manual_wal_flush: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn set_manual_wal_flush(&mut self, v: bool) {
        self.manual_wal_flush = v;
    }
}
#[derive(Default)]
pub struct WriteOptions {
    no_wal: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn disable_wal(&mut self, v: bool) {
        self.no_wal = v;
    }
    pub fn set_sync(&mut self, _: bool) {}
}

pub struct DB(PathBuf, bool);
impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        Self::open(&Options::default(), path)
    }
    pub fn open<P: AsRef<Path>>(o: &Options, path: P) -> Result<Self, Error> {
        let p = path.as_ref().to_path_buf();
        control().map.entry(p.clone()).or_default();
        Ok(Self(p, o.manual_wal_flush))
    }
    pub fn get<A: AsRef<[u8]>>(&self, k: A) -> Result<Option<Vec<u8>>, Error> {
        let mut c = control();
        let n = c.reads;
        c.reads += 1;
        if c.fail_reads.contains(&n) || c.die_after_writes.map_or(false, |d| c.writes >= d) {
            return Err(Error("injected".into()));
        }
        Ok(c.map[&self.0].get(k.as_ref()).cloned())
    }
    fn apply(&self, ops: Vec<Op>, durable: bool) -> Result<(), Error> {
        let mut c = control();
        let n = c.writes;
        if c.die_after_writes.map_or(false, |d| n >= d) {
            return Err(Error("injected".into()));
        }
        c.writes += 1;
        if c.fail_writes.contains(&n) {
            return Err(Error("injected".into()));
        }
        let mut m = c.map[&self.0].clone();
        for o in ops {
            match o {
                Op::Put(k, v) => {
                    m.insert(k, v);
                }
                Op::Del(k) => {
                    m.remove(&k);
                }
            }
        }
        c.history.push(m.clone());
        if durable && !self.1 {
            c.durable.insert(self.0.clone(), m.clone());
        }
        c.map.insert(self.0.clone(), m);
        Ok(())
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.apply(b.0, true)
    }
    pub fn write_opt(&self, b: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        self.apply(b.0, !o.no_wal)
    }
    pub fn write_without_wal(&self, b: WriteBatch) -> Result<(), Error> {
        self.apply(b.0, false)
    }
    pub fn put<A: AsRef<[u8]>, B: AsRef<[u8]>>(&self, k: A, v: B) -> Result<(), Error> {
        self.apply(vec![Op::Put(k.as_ref().to_vec(), v.as_ref().to_vec())], true)
    }
    pub fn delete<A: AsRef<[u8]>>(&self, k: A) -> Result<(), Error> {
        self.apply(vec![Op::Del(k.as_ref().to_vec())], true)
    }
}
