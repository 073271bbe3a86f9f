//! The reader engine: several tree handles on one storage, one writer, and a schedule that decides at every storage
//! call who goes on. Actors are threads, of which exactly one runs at any time.
use crate::run::*;
use crate::scenario::{op_text, On, Op, Scenario};
use crate::store::*;
use crate::{lock, Armed, Disk, SharedDisk, CALL_NAMES, FAULT_NAMES, HASH_SEED};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

type Map = BTreeMap<Bytes, Bytes>;

struct Turn {
    current: usize,
    done: Vec<bool>,
    /// Remaining context switches: storage calls until then, and who goes on.
    switches: Vec<(u64, usize)>,
    next: usize,
    left: u64,
    step: u64,
    digest: u64,
    states: Vec<u64>,
    switched: u64,
    /// Actors inside a call on the tree.
    busy: Vec<bool>,
    overlapped: u64,
    trace: Option<Vec<String>>,
}

pub struct Sched {
    turn: Mutex<Turn>,
    cv: Condvar,
}

struct WriterDied;

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static DIE_AT: RefCell<Option<u64>> = const { RefCell::new(None) };
}

/// Called by shared storages at every call: the schedule decides who goes on.
pub fn yield_point() {
    let me = ME.with(|m| m.borrow().clone());
    let Some((s, id)) = me else { return };
    s.yield_now(id);
    let die = DIE_AT.with(|d| {
        let mut d = d.borrow_mut();
        match &mut *d {
            Some(0) => {
                *d = None;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    });
    if die {
        std::panic::panic_any(WriterDied);
    }
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, Turn> {
        self.turn.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
    }

    fn wait(&self, mut t: MutexGuard<'_, Turn>, id: usize) {
        while t.current != id {
            t = self.cv.wait(t).unwrap_or_else(std::sync::PoisonError::into_inner);
        }
    }

    fn yield_now(&self, id: usize) {
        let mut t = self.lock();
        t.step += 1;
        t.digest = mix(t.digest, id as u64);
        if id != 0 && t.busy[0] || id == 0 && t.busy[1..].iter().any(|&b| b) {
            t.overlapped += 1;
        }
        if t.left > 0 {
            t.left -= 1;
            return;
        }
        let Some(&(_, to)) = t.switches.get(t.next) else { return };
        t.next += 1;
        t.left = t.switches.get(t.next).map_or(u64::MAX, |s| s.0);
        let n = t.done.len();
        let to = (0..n).map(|i| (to + i) % n).find(|&i| !t.done[i]).unwrap_or(id);
        if to != id {
            t.current = to;
            t.switched += 1;
            let (d, step) = (t.digest, t.step);
            t.states.push(mix(d, to as u64));
            if let Some(tr) = &mut t.trace {
                tr.push(format!("  -- call {step}: actor {id} is held up, actor {to} goes on"));
            }
            self.cv.notify_all();
            self.wait(t, id);
        }
    }

    fn finish(&self, id: usize) {
        let mut t = self.lock();
        t.done[id] = true;
        if let Some(to) = (0..t.done.len()).find(|&i| !t.done[i]) {
            t.current = to;
        }
        self.cv.notify_all();
    }

    fn say(&self, id: usize, s: impl FnOnce() -> String) {
        let mut t = self.lock();
        if t.trace.is_some() {
            let s = format!("actor {id}: {}", s());
            if let Some(tr) = &mut t.trace {
                tr.push(s);
            }
        }
    }
    fn set_busy(&self, id: usize, b: bool) {
        self.lock().busy[id] = b;
    }
}

#[derive(Clone)]
struct Version {
    root: Bytes,
    content: Arc<Map>,
    holds: u32,
    pins: u32,
}

#[derive(Default)]
struct Shared {
    vers: Vec<Version>,
    violation: Option<Violation>,
    other: Option<Violation>,
    stats: Stats,
    digest: u64,
    stop: bool,
}

pub struct Readers<'a> {
    w: &'a dyn World,
    scn: &'a Scenario,
    tracing: bool,
    spec: Spec,
    disk: SharedDisk,
    shared: Mutex<Shared>,
}

fn key<'s>(scn: &'s Scenario, k: u32) -> &'s Bytes {
    &scn.keys[k as usize % scn.keys.len()]
}
fn val<'s>(scn: &'s Scenario, v: u32) -> &'s Bytes {
    &scn.vals[v as usize % scn.vals.len()]
}

const MAX_LIVE: usize = 8;

impl<'a> Readers<'a> {
    pub fn new(w: &'a dyn World, scn: &'a Scenario, tracing: bool) -> Self {
        let mut d = Disk::default();
        d.op_call_limit = 400_000;
        let backend = scn.backends.first().copied().unwrap_or(Backend::Hash);
        Self {
            w,
            scn,
            tracing,
            spec: Spec { backend, n: scn.n },
            disk: Arc::new(Mutex::new(d)),
            shared: Mutex::new(Shared::default()),
        }
    }

    fn sh(&self) -> MutexGuard<'_, Shared> {
        self.shared.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
    }

    fn report(&self, tags: &[&'static str], oracle: &'static str, step: usize, detail: String) {
        let v = Violation { tags: tags.to_vec(), cond: Vec::new(), oracle, step, detail };
        let mut s = self.sh();
        if tags.contains(&self.scn.prop.as_str()) {
            if s.violation.is_none() {
                s.violation = Some(v);
            }
            s.stop = true;
        } else if s.other.is_none() {
            s.other = Some(v);
        }
    }

    fn open(&self) -> Res<Box<dyn Store>> {
        match call(|| self.w.open(self.spec, self.scn.depth as usize, &self.disk)) {
            CallRes::Ok(s) => Ok(s),
            r => Err(r.brief()),
        }
    }

    /// The writer's operation number `step`.
    fn write(&self, store: &mut Option<Box<dyn Store>>, step: usize, op: &Op, sched: Option<&Sched>) {
        let scn = self.scn;
        if store.is_none() {
            *store = self.open().ok();
        }
        let Some(st) = store.as_mut() else { return };
        match op.name.as_str() {
            "insert" | "w_insert" => {
                let one = op.arg(1) == 1;
                let (prev, mut content) = {
                    let s = self.sh();
                    let n = s.vers.len();
                    if op.arg(0) == 0 || n == 0 {
                        (None, Map::new())
                    } else {
                        let v = &s.vers[n - 1 - ((op.arg(0) - 1) % n as u64) as usize];
                        (Some(v.root.clone()), (*v.content).clone())
                    }
                };
                let mut add = Map::new();
                let mut keys = Vec::new();
                for &(k, v) in op.items.iter().take(if one { 1 } else { usize::MAX }) {
                    let k = key(scn, k).clone();
                    if add.insert(k.clone(), val(scn, v).clone()).is_none() {
                        keys.push(k);
                    }
                }
                if keys.is_empty() {
                    return;
                }
                let vals: Vec<Bytes> = keys.iter().map(|k| add[k].clone()).collect();
                if let Some(s) = sched {
                    s.say(0, || format!("op {step} {}", op_text(op)));
                    s.set_busy(0, true);
                }
                let r = self.faulty(op, || {
                    if one {
                        call(|| st.insert_one(prev.as_deref(), &keys[0], &vals[0]))
                    } else {
                        call(|| st.insert(prev.as_deref(), &keys, &vals))
                    }
                });
                if let Some(s) = sched {
                    s.set_busy(0, false);
                    s.say(0, || format!("op {step} -> {}", r.0.brief()));
                }
                match r {
                    (CallRes::Ok(root), _) => {
                        content.extend(add);
                        let mut s = self.sh();
                        s.digest = hash_bytes(s.digest, &root);
                        match s.vers.iter_mut().find(|v| v.root == root) {
                            Some(v) => v.holds += 1,
                            None => s.vers.push(Version { root, content: Arc::new(content), holds: 1, pins: 0 }),
                        }
                    }
                    (_, true) => *store = None,
                    (CallRes::Err(_), false) if !op.faults.is_empty() => {}
                    (r, _) => self.report(&["C01"], "insert_failed", step, r.brief()),
                }
            }
            "remove" | "w_remove" => {
                let root = {
                    let mut s = self.sh();
                    let free: Vec<usize> = (0..s.vers.len()).filter(|&i| s.vers[i].pins == 0 || s.vers[i].holds > 1).collect();
                    if free.is_empty() {
                        return;
                    }
                    let i = free[free.len() - 1 - (op.arg(0) % free.len() as u64) as usize];
                    s.vers[i].holds -= 1;
                    let root = s.vers[i].root.clone();
                    if s.vers[i].holds == 0 {
                        s.vers.remove(i);
                    }
                    root
                };
                if let Some(s) = sched {
                    s.say(0, || format!("op {step} remove {}", short(&root)));
                    s.set_busy(0, true);
                }
                let r = self.faulty(op, || call(|| st.remove(&root)));
                if let Some(s) = sched {
                    s.set_busy(0, false);
                }
                match r {
                    (CallRes::Ok(()), _) => {}
                    (_, true) => *store = None,
                    (CallRes::Err(_), false) if !op.faults.is_empty() => {}
                    (r, _) => self.report(&["C04"], "remove_failed", step, r.brief()),
                }
            }
            _ => {}
        }
    }

    /// Runs a call of the writer with its faults; says whether the writer died.
    fn faulty<T>(&self, op: &Op, f: impl FnOnce() -> CallRes<T>) -> (CallRes<T>, bool) {
        if op.arg(2) > 0 {
            DIE_AT.with(|d| *d.borrow_mut() = Some(op.arg(2) - 1));
        }
        let armed: Vec<Armed> = op
            .faults
            .iter()
            .filter_map(|f| match f.on {
                On::Call(c) => Some(Armed { on: Some(c), nth: f.at, span: f.span, kind: f.kind }),
                _ => None,
            })
            .collect();
        let limit = {
            let mut d = lock(&self.disk);
            let left = d.op_call_limit.saturating_sub(d.op_calls);
            d.arm(&armed, left);
            left
        };
        let r = f();
        let alive = DIE_AT.with(|d| d.borrow_mut().take());
        let died = op.arg(2) > 0 && alive.is_none() && matches!(r, CallRes::Panic(_));
        let mut d = lock(&self.disk);
        let fired = d.fired.clone();
        let used = d.op_calls;
        d.arm(&[], limit.saturating_sub(used));
        drop(d);
        let mut s = self.sh();
        for (k, c) in &fired {
            s.stats.add(&format!("fault_{}_{}", FAULT_NAMES[k.index()], CALL_NAMES[*c as usize]), 1);
        }
        if died {
            s.stats.add("fault_writer_died", 1);
        }
        (r, died)
    }

    fn read(&self, store: &mut dyn Store, id: usize, step: usize, op: &Op, sched: Option<&Sched>) {
        let scn = self.scn;
        let v = {
            let mut s = self.sh();
            let n = s.vers.len();
            if n == 0 {
                return;
            }
            let v = &mut s.vers[n - 1 - (op.arg(1) % n as u64) as usize];
            v.pins += 1;
            v.clone()
        };
        let keys: Vec<Bytes> = op.items.iter().map(|i| key(scn, i.0).clone()).collect();
        let Some(first) = keys.first().cloned() else { return };
        if let Some(s) = sched {
            s.say(id, || format!("op {step} {} under {}", op_text(op), short(&v.root)));
            s.set_busy(id, true);
        }
        let overlap_before = sched.map_or(0, |s| s.lock().overlapped);
        let tags: &[&'static str] = &["C11", "C02"];
        let bad: Option<(&'static str, String)> = match op.name.as_str() {
            "r_get" => match call(|| store.get(&v.root, &keys)) {
                CallRes::Ok(m) => keys.iter().find_map(|k| {
                    let (got, want) = (m.get(k).cloned().flatten(), v.content.get(k).cloned());
                    (got != want).then(|| {
                        let t = |x: Option<Bytes>| x.map_or("absent".into(), |x| short(&x));
                        ("reader_value", format!("get of {} under live root {} gives {} instead of {}", short(k), short(&v.root), t(got), t(want)))
                    })
                }),
                r => Some(("reader_error", format!("get under live root {}: {}", short(&v.root), r.brief()))),
            },
            "r_one" => match call(|| store.get_one(&v.root, &first)) {
                CallRes::Ok(got) if got == v.content.get(&first).cloned() => None,
                CallRes::Ok(_) => Some(("reader_value", format!("get_one of {} under live root {} is wrong", short(&first), short(&v.root)))),
                r => Some(("reader_error", format!("get_one under live root {}: {}", short(&v.root), r.brief()))),
            },
            _ => match (call(|| store.prove(&v.root, &first)), v.content.get(&first)) {
                (CallRes::Ok(p), Some(x)) => match call(|| self.w.verify(self.spec, &v.root, &first, x, &p)) {
                    CallRes::Ok(()) => None,
                    r => Some(("reader_proof", format!("a proof made beside the writer under {} is rejected: {}", short(&v.root), r.brief()))),
                },
                (CallRes::Err(_), None) => None,
                (CallRes::Ok(_), None) => Some(("reader_proof", format!("a proof of an absent key was made under {}", short(&v.root)))),
                (r, _) => Some(("reader_error", format!("proof under live root {}: {}", short(&v.root), r.brief()))),
            },
        };
        if let Some(s) = sched {
            s.set_busy(id, false);
            let o = s.lock().overlapped > overlap_before;
            let mut sh = self.sh();
            sh.stats.add("reads_beside_the_writer", u64::from(o));
            sh.stats.nontrivial |= o;
        }
        {
            let mut s = self.sh();
            s.stats.add("reads", 1);
            if let Some(x) = s.vers.iter_mut().find(|x| x.root == v.root) {
                x.pins -= 1;
            }
            s.digest = mix(s.digest, bad.is_some() as u64);
        }
        if let Some((oracle, d)) = bad {
            if let Some(s) = sched {
                s.say(id, || d.clone());
            }
            self.report(tags, oracle, step, d);
        }
    }

    fn actor(&self, id: usize, sched: &Arc<Sched>) {
        let scn = self.scn;
        HASH_SEED.with(|h| h.set(scn.hash_seed ^ (id as u64) << 32));
        crate::codec::disarm();
        sched.wait(sched.lock(), id);
        ME.with(|m| *m.borrow_mut() = Some((sched.clone(), id)));
        let mut store = self.open().ok();
        for (i, op) in scn.ops.iter().enumerate() {
            if self.sh().stop {
                break;
            }
            let writer = op.name.starts_with("w_");
            if writer && id == 0 {
                let full = self.sh().vers.len() >= MAX_LIVE && op.name == "w_insert";
                if full {
                    let rm = Op::new("w_remove", &[MAX_LIVE as u64 - 1, 0, 0], vec![]);
                    self.write(&mut store, i, &rm, Some(sched));
                }
                self.write(&mut store, i, op, Some(sched));
            } else if op.name.starts_with("r_") && id > 0 && op.arg(0) as usize % (self.readers()) + 1 == id {
                if let Some(s) = &mut store {
                    self.read(s.as_mut(), id, i, op, Some(sched));
                }
            }
        }
        drop(store);
        ME.with(|m| *m.borrow_mut() = None);
        sched.finish(id);
    }

    fn readers(&self) -> usize {
        (self.scn.params.first().copied().unwrap_or(1) as usize).clamp(1, 4)
    }

    pub fn run(self) -> RunResult {
        let scn = self.scn;
        // what exists before the readers come
        let mut store = self.open().ok();
        for (i, op) in scn.ops.iter().enumerate() {
            if op.name == "insert" || op.name == "remove" {
                self.write(&mut store, i, op, None);
            }
        }
        drop(store);
        let actors = self.readers() + 1;
        let switches: Vec<(u64, usize)> =
            scn.ops.iter().filter(|o| o.name == "switch").map(|o| (o.arg(0), o.arg(1) as usize % actors)).collect();
        let sched = Arc::new(Sched {
            turn: Mutex::new(Turn {
                current: switches.first().map_or(0, |s| s.1),
                done: vec![false; actors],
                left: switches.first().map_or(u64::MAX, |s| s.0),
                switches,
                next: 0,
                step: 0,
                digest: 0x5C4ED,
                states: Vec::new(),
                switched: 0,
                busy: vec![false; actors],
                overlapped: 0,
                trace: self.tracing.then(Vec::new),
            }),
            cv: Condvar::new(),
        });
        std::thread::scope(|s| {
            for id in 0..actors {
                let (me, sched) = (&self, &sched);
                s.spawn(move || {
                    // a panic of the harness must not leave the others waiting
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| me.actor(id, sched)));
                    if r.is_err() {
                        eprintln!("HARNESS PANIC in actor {id}: {}", last_panic());
                        std::process::exit(3);
                    }
                });
            }
        });
        // quiet again: a new handle reads every live version exactly
        if !self.sh().stop {
            if let Ok(mut s) = self.open() {
                let n = self.sh().vers.len();
                let items: Vec<(u32, u32)> = (0..scn.keys.len() as u32).map(|k| (k, 0)).collect();
                for j in 0..n {
                    let op = Op::new("r_get", &[0, j as u64], items.clone());
                    self.read(s.as_mut(), 1, scn.ops.len(), &op, None);
                }
            }
        }
        let mut t = sched.lock();
        let mut s = self.shared.into_inner().unwrap_or_else(std::sync::PoisonError::into_inner);
        s.stats.add("context_switches", t.switched);
        s.stats.states.append(&mut t.states);
        s.stats.sim_us = t.step * 20;
        let d = lock(&self.disk);
        s.stats.add("storage_calls", d.total_calls);
        let digest = mix(mix(mix(s.digest, t.digest), d.digest), t.step);
        RunResult { violation: s.violation, other: s.other, digest, stats: s.stats, trace: t.trace.take().unwrap_or_default() }.sorted(&scn.prop)
    }
}
