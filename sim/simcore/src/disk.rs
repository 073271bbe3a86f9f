//! The simulated disk shared by all storage stand-ins.
use crate::splitmix;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

pub type SharedDisk = Arc<Mutex<Disk>>;

pub fn lock(d: &SharedDisk) -> MutexGuard<'_, Disk> {
    d.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Open,
    Read,
    Put,
    Delete,
    Commit,
}

pub const CALL_NAMES: [&str; 5] = ["open", "read", "put", "delete", "commit"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind {
    /// The call fails and has no effect.
    Err,
    /// The call takes effect and still reports failure (writes only; reads: as Err).
    ErrApplied,
    /// The process dies before the call takes effect.
    CrashBefore,
    /// The process dies right after the call took effect.
    CrashAfter,
    /// The machine loses power before the call: the last `n` unsynced records are lost.
    PowerLoss(u32),
    /// A read finds nothing although the record exists (lost record, transient).
    ReadMissing,
    /// A read returns a damaged record.
    ReadDamaged(u32),
}

pub const FAULT_NAMES: [&str; 7] =
    ["err", "err_applied", "crash_before", "crash_after", "power_loss", "read_missing", "read_damaged"];

impl FaultKind {
    pub fn index(self) -> usize {
        match self {
            FaultKind::Err => 0,
            FaultKind::ErrApplied => 1,
            FaultKind::CrashBefore => 2,
            FaultKind::CrashAfter => 3,
            FaultKind::PowerLoss(_) => 4,
            FaultKind::ReadMissing => 5,
            FaultKind::ReadDamaged(_) => 6,
        }
    }
}

/// A fault waiting for the `nth` (from 0) matching call, failing `span` consecutive matching calls.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Armed {
    pub on: Option<Call>,
    pub nth: u32,
    pub span: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Debug)]
pub enum Write {
    Put(Vec<u8>, Vec<u8>),
    Del(Vec<u8>),
    /// From the first key up to, but without, the second.
    DelRange(Vec<u8>, Vec<u8>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    Ok,
    Fail,
}

pub struct HangPanic;

/// What a record applied by the process survives.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Durability {
    /// In the operating system's hands: survives the process, and power loss once synced.
    Logged,
    /// In a buffer of the process until the log is flushed.
    Buffered,
    /// Only in the memory of the process until everything is flushed or the database is closed.
    Unlogged,
}

/// A disk with atomic records. Applied records are visible to the process; unsynced ones are lost on power loss.
pub struct Disk {
    pub map: BTreeMap<Vec<u8>, Vec<u8>>,
    base: BTreeMap<Vec<u8>, Vec<u8>>,
    log: Vec<(Vec<Write>, Durability)>,
    /// Records dropped from `log` into `base` by syncs.
    log_start: usize,
    pub dead: bool,
    pub powered_off: bool,
    armed: Vec<(Armed, u32)>,
    /// Faults that fired since `arm`.
    pub fired: Vec<(FaultKind, Call)>,
    pub op_calls: u64,
    pub op_call_limit: u64,
    pub op_kind_calls: [u64; 5],
    pub total_calls: u64,
    pub fault_counts: [[u64; 5]; 7],
    pub damage: Option<fn(&[u8], u32) -> Vec<u8>>,
    pub open_handles: u32,
    /// A database has been made on it.
    pub created: bool,
    pub keep_log: bool,
    /// Recovery skips unreadable records instead of stopping at the first.
    pub skip_corrupt: bool,
    /// Rolling hash over every call and its outcome: the event log's digest.
    pub digest: u64,
    pub trace: Option<Vec<String>>,
}

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

impl Default for Disk {
    fn default() -> Self {
        Self {
            map: BTreeMap::new(),
            base: BTreeMap::new(),
            log: Vec::new(),
            log_start: 0,
            dead: false,
            powered_off: false,
            armed: Vec::new(),
            fired: Vec::new(),
            op_calls: 0,
            op_call_limit: u64::MAX,
            op_kind_calls: [0; 5],
            total_calls: 0,
            fault_counts: [[0; 5]; 7],
            damage: None,
            open_handles: 0,
            created: false,
            keep_log: false,
            skip_corrupt: false,
            digest: 0,
            trace: None,
        }
    }
}

impl Disk {
    pub fn arm(&mut self, faults: &[Armed], call_limit: u64) {
        self.armed = faults.iter().map(|&f| (f, 0)).collect();
        self.fired.clear();
        self.op_calls = 0;
        self.op_call_limit = call_limit;
        self.op_kind_calls = [0; 5];
    }

    /// A disk that held these records, all durable, before the process began.
    pub fn preload(&mut self, records: &[(Vec<u8>, Vec<u8>)]) {
        self.map = records.iter().cloned().collect();
        self.base = self.map.clone();
        self.created = true;
    }

    pub fn disarm(&mut self) {
        self.arm(&[], u64::MAX);
    }

    pub fn log_len(&self) -> usize {
        self.log_start + self.log.len()
    }

    fn note(&mut self, call: Call, key: &[u8], what: &str) {
        let mut k = 0_u64;
        for &b in key.iter().take(16) {
            k = (k << 8 | k >> 56) ^ u64::from(b);
        }
        let mut w = 0_u64;
        for b in what.bytes() {
            w = w.wrapping_mul(31).wrapping_add(u64::from(b));
        }
        self.digest = mix(mix(self.digest, (call as u64) << 56 ^ w), k);
        if let Some(t) = &mut self.trace {
            let hex: String = key.iter().take(6).map(|b| format!("{b:02x}")).collect();
            t.push(format!("    {} {} -> {}", CALL_NAMES[call as usize], hex, what));
        }
    }

    /// Decides the fate of a call; on a fault, says which.
    fn fault(&mut self, call: Call) -> Option<FaultKind> {
        self.total_calls += 1;
        self.op_calls += 1;
        self.op_kind_calls[call as usize] += 1;
        if self.op_calls > self.op_call_limit {
            self.op_call_limit = u64::MAX;
            std::panic::panic_any(HangPanic);
        }
        let mut hit = None;
        for (f, seen) in &mut self.armed {
            if f.on.map_or(true, |c| c == call) {
                let applies = match f.kind {
                    FaultKind::ReadMissing | FaultKind::ReadDamaged(_) => call == Call::Read,
                    FaultKind::ErrApplied => call != Call::Read && call != Call::Open,
                    _ => true,
                };
                if applies {
                    let n = *seen;
                    *seen += 1;
                    if hit.is_none() && n >= f.nth && n - f.nth < f.span {
                        hit = Some(f.kind);
                    }
                }
            }
        }
        if let Some(k) = hit {
            self.fired.push((k, call));
            self.fault_counts[k.index()][call as usize] += 1;
        }
        hit
    }

    fn die(&mut self) {
        self.dead = true;
    }

    /// Power fails between calls.
    pub fn power_cut(&mut self, n: u32) {
        self.lose_power(n);
    }

    fn lose_power(&mut self, n: u32) {
        self.dead = true;
        self.powered_off = true;
        let n = (n as usize).min(self.log.len());
        let keep = self.log.len() - n;
        self.log.truncate(keep);
        if self.skip_corrupt && n > 0 {
            self.log.pop();
            if keep > 1 {
                self.log.remove(0);
            }
        }
    }

    pub fn open(&mut self) -> Outcome {
        if self.dead {
            return Outcome::Fail;
        }
        match self.fault(Call::Open) {
            None | Some(FaultKind::ErrApplied | FaultKind::ReadMissing | FaultKind::ReadDamaged(_)) => {
                self.note(Call::Open, &[], "ok");
                Outcome::Ok
            }
            Some(FaultKind::Err) => {
                self.note(Call::Open, &[], "err");
                Outcome::Fail
            }
            Some(FaultKind::PowerLoss(n)) => {
                self.note(Call::Open, &[], "power_loss");
                self.lose_power(n);
                Outcome::Fail
            }
            Some(FaultKind::CrashBefore | FaultKind::CrashAfter) => {
                self.note(Call::Open, &[], "crash");
                self.die();
                Outcome::Fail
            }
        }
    }

    pub fn read(&mut self, key: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        if self.dead {
            return Err(());
        }
        match self.fault(Call::Read) {
            None | Some(FaultKind::ErrApplied) => {
                let v = self.map.get(key).cloned();
                self.note(Call::Read, key, if v.is_some() { "some" } else { "none" });
                Ok(v)
            }
            Some(FaultKind::Err) => {
                self.note(Call::Read, key, "err");
                Err(())
            }
            Some(FaultKind::ReadMissing) => {
                self.note(Call::Read, key, "missing");
                Ok(None)
            }
            Some(FaultKind::ReadDamaged(s)) => {
                self.note(Call::Read, key, "damaged");
                let v = self.map.get(key).cloned();
                Ok(match (self.damage, v) {
                    (Some(d), Some(v)) => Some(d(&v, s)),
                    (_, v) => v,
                })
            }
            Some(FaultKind::PowerLoss(n)) => {
                self.note(Call::Read, key, "power_loss");
                self.lose_power(n);
                Err(())
            }
            Some(FaultKind::CrashBefore | FaultKind::CrashAfter) => {
                self.note(Call::Read, key, "crash");
                self.die();
                Err(())
            }
        }
    }

    fn apply(&mut self, batch: Vec<Write>, durability: Durability) {
        if durability != Durability::Logged && !self.keep_log {
            self.keep_log = true;
            self.base = self.map.clone();
        }
        play(&mut self.map, &batch);
        if self.keep_log {
            self.log.push((batch, durability));
        }
    }

    /// A queued write (no effect on the disk): it can fail or be the moment of a crash.
    pub fn queue(&mut self, call: Call, key: &[u8]) -> Outcome {
        if self.dead {
            return Outcome::Fail;
        }
        match self.fault(call) {
            None | Some(FaultKind::ReadMissing | FaultKind::ReadDamaged(_)) => {
                self.note(call, key, "queued");
                Outcome::Ok
            }
            Some(FaultKind::Err | FaultKind::ErrApplied) => {
                self.note(call, key, "err");
                Outcome::Fail
            }
            Some(FaultKind::PowerLoss(n)) => {
                self.note(call, key, "power_loss");
                self.lose_power(n);
                Outcome::Fail
            }
            Some(FaultKind::CrashBefore | FaultKind::CrashAfter) => {
                self.note(call, key, "crash");
                self.die();
                Outcome::Fail
            }
        }
    }

    /// One atomic record.
    pub fn write(&mut self, call: Call, batch: Vec<Write>) -> Outcome {
        self.write_as(call, batch, Durability::Logged)
    }

    /// One atomic record of a given durability.
    pub fn write_as(&mut self, call: Call, batch: Vec<Write>, durability: Durability) -> Outcome {
        if self.dead {
            return Outcome::Fail;
        }
        let key = match batch.first() {
            Some(Write::Put(k, _) | Write::Del(k) | Write::DelRange(k, _)) => k.clone(),
            None => Vec::new(),
        };
        match self.fault(call) {
            None | Some(FaultKind::ReadMissing | FaultKind::ReadDamaged(_)) => {
                self.note(call, &key, "written");
                self.apply(batch, durability);
                Outcome::Ok
            }
            Some(FaultKind::Err) => {
                self.note(call, &key, "err");
                Outcome::Fail
            }
            Some(FaultKind::ErrApplied) => {
                self.note(call, &key, "err_applied");
                self.apply(batch, durability);
                Outcome::Fail
            }
            Some(FaultKind::CrashBefore) => {
                self.note(call, &key, "crash_before");
                self.die();
                Outcome::Fail
            }
            Some(FaultKind::CrashAfter) => {
                self.note(call, &key, "crash_after");
                self.apply(batch, durability);
                self.die();
                Outcome::Fail
            }
            Some(FaultKind::PowerLoss(n)) => {
                self.note(call, &key, "power_loss");
                self.lose_power(n);
                Outcome::Fail
            }
        }
    }

    /// Makes the log durable.
    pub fn sync_log(&mut self) {
        self.flush_log();
        if self.log.iter().all(|(_, d)| *d == Durability::Logged) {
            self.sync();
        }
    }

    /// Makes everything applied so far durable.
    pub fn sync(&mut self) {
        if self.dead {
            return;
        }
        if self.keep_log {
            self.log_start += self.log.len();
            self.log.clear();
            self.base = self.map.clone();
        }
    }

    /// The buffered part of the log reaches the operating system.
    pub fn flush_log(&mut self) {
        for (_, d) in &mut self.log {
            if *d == Durability::Buffered {
                *d = Durability::Logged;
            }
        }
    }

    /// The process closes the database in good order.
    pub fn close(&mut self) {
        if !self.dead {
            for (_, d) in &mut self.log {
                *d = Durability::Logged;
            }
        }
    }

    /// Machine or process comes back: only durable state survives.
    pub fn restart(&mut self) {
        if self.dead {
            let before = self.log.len();
            self.log.retain(|(_, d)| *d == Durability::Logged);
            if self.powered_off || self.log.len() != before {
                let mut m = self.base.clone();
                for (batch, _) in &self.log {
                    play(&mut m, batch);
                }
                self.map = m;
            }
        }
        self.dead = false;
        self.powered_off = false;
        self.open_handles = 0;
        self.disarm();
    }
}

fn play(map: &mut BTreeMap<Vec<u8>, Vec<u8>>, batch: &[Write]) {
    for w in batch {
        match w {
            Write::Put(k, v) => {
                map.insert(k.clone(), v.clone());
            }
            Write::Del(k) => {
                map.remove(k);
            }
            Write::DelRange(from, to) => {
                map.retain(|k, _| k < from || k >= to);
            }
        }
    }
}
