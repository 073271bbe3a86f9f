//! Results of a simulated run and helpers shared by the engines.
use crate::store::{Bytes, Res};
use crate::{splitmix, HangPanic};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Properties this contradicts.
    pub tags: Vec<&'static str>,
    /// Properties it contradicts if it does not happen without the faults, rejected calls or restarts of the run.
    pub cond: Vec<&'static str>,
    pub oracle: &'static str,
    pub step: usize,
    pub detail: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    /// Digests of storage states met between operations.
    pub states: Vec<u64>,
    pub nontrivial: bool,
    /// Simulated time: storage calls and deliveries, in microseconds.
    pub sim_us: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_owned(), n);
        }
    }
}

pub struct RunResult {
    /// The violation relevant to the scenario's property, if any.
    pub violation: Option<Violation>,
    /// A violation that concerns other properties only.
    pub other: Option<Violation>,
    pub digest: u64,
    pub stats: Stats,
    pub trace: Vec<String>,
}

pub enum CallRes<T> {
    Ok(T),
    Err(String),
    Panic(String),
    Hang,
}

impl<T> CallRes<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, CallRes::Ok(_))
    }
    pub fn brief(&self) -> String {
        match self {
            CallRes::Ok(_) => "ok".into(),
            CallRes::Err(e) => format!("error: {e}"),
            CallRes::Panic(e) => format!("PANIC: {e}"),
            CallRes::Hang => "HANG".into(),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics of the code under test are caught and reported as outcomes; nothing is printed.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_owned()))
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
}

pub fn call<T>(f: impl FnOnce() -> Res<T>) -> CallRes<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => CallRes::Ok(v),
        Ok(Err(e)) => CallRes::Err(e),
        Err(p) => {
            if p.is::<HangPanic>() {
                CallRes::Hang
            } else {
                CallRes::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
            }
        }
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h.rotate_left(17) ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0_u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    mix(h, b.len() as u64)
}

pub fn map_digest(m: &BTreeMap<Bytes, Bytes>) -> u64 {
    let mut h = 0x5EED;
    for (k, v) in m {
        h = hash_bytes(hash_bytes(h, k), v);
    }
    h
}

pub fn short(b: &[u8]) -> String {
    let n = b.len().min(8);
    let s = crate::scenario::hex(&b[..n]);
    if b.len() > n {
        format!("{s}..({})", b.len())
    } else {
        s
    }
}

/// Number of leading bits two keys share.
pub fn lcp(a: &[u8], b: &[u8]) -> usize {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return i * 8 + (x ^ y).leading_zeros() as usize;
        }
    }
    a.len().min(b.len()) * 8
}
pub fn bit(k: &[u8], i: usize) -> bool {
    k.get(i / 8).is_some_and(|b| b >> (7 - i % 8) & 1 == 1)
}

impl RunResult {
    /// A violation that does not concern `prop` is only remembered.
    pub fn sorted(mut self, prop: &str) -> Self {
        if let Some(v) = self.violation.take() {
            if v.tags.contains(&prop) || v.cond.contains(&prop) {
                self.violation = Some(v);
            } else if self.other.is_none() {
                self.other = Some(v);
            }
        }
        self
    }
}
