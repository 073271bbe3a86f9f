//! The replica engine: stores that receive the same updates over a lossy network and must agree on the root.
use crate::run::*;
use crate::scenario::{op_text, Fault, On, Op, Scenario};
use crate::store::*;
use crate::{lock, Armed, Disk, Rng, SharedDisk, CALL_NAMES, FAULT_NAMES};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type Map = BTreeMap<u32, u32>;
type V<T> = Result<T, Violation>;

const STEP_US: u64 = 1000;
const RESEND_US: u64 = 9000;

struct Replica {
    spec: Spec,
    disk: SharedDisk,
    store: Option<Box<dyn Store>>,
    /// Durable beside the store: last root with its content, and the newest update of each key.
    root: Option<Bytes>,
    content: Rc<Map>,
    stamps: BTreeMap<u32, u64>,
    /// Updates that are durable here.
    have: BTreeSet<u64>,
    /// Received, not yet applied: lost in a crash.
    inbox: Vec<u64>,
    old: Vec<Bytes>,
}

enum Event {
    Update { to: usize, from: usize, id: u64 },
    Ack { to: usize, from: usize, id: u64 },
    Resend { from: usize, to: usize, id: u64, tries: u32 },
}

pub struct Replicas<'a> {
    w: &'a dyn World,
    scn: &'a Scenario,
    reps: Vec<Replica>,
    /// Every update: stamp -> (key, value, origin).
    updates: Vec<(u32, u32, usize)>,
    acked: BTreeSet<(usize, u64)>,
    queue: BTreeMap<(u64, u64), Event>,
    now: u64,
    seq: u64,
    net: Rng,
    calm: bool,
    /// Replicas on the far side of the partition, until when.
    cut: (u64, u64),
    by_content: HashMap<Rc<Map>, Bytes>,
    by_root: HashMap<Bytes, Rc<Map>>,
    step: usize,
    stats: Stats,
    digest: u64,
    tracing: bool,
    trace: Vec<String>,
    other: Option<Violation>,
}

impl<'a> Replicas<'a> {
    pub fn new(w: &'a dyn World, scn: &'a Scenario, tracing: bool) -> Self {
        Self {
            w,
            scn,
            reps: Vec::new(),
            updates: Vec::new(),
            acked: BTreeSet::new(),
            queue: BTreeMap::new(),
            now: 0,
            seq: 0,
            net: Rng::new(scn.params.get(1).copied().unwrap_or(0) ^ 0x4E7),
            calm: false,
            cut: (0, 0),
            by_content: HashMap::new(),
            by_root: HashMap::new(),
            step: 0,
            stats: Stats::default(),
            digest: 0x4E9,
            tracing,
            trace: Vec::new(),
            other: None,
        }
    }

    fn viol(&self, tags: &[&'static str], oracle: &'static str, detail: String) -> Violation {
        let mut tags = tags.to_vec();
        if self.scn.prop == "C15" {
            tags.push("C15");
        }
        Violation { tags, cond: Vec::new(), oracle, step: self.step, detail }
    }
    fn note(&mut self, v: Violation) -> V<()> {
        if v.tags.contains(&self.scn.prop.as_str()) {
            return Err(v);
        }
        if self.other.is_none() {
            self.other = Some(v);
        }
        Ok(())
    }
    fn say(&mut self, s: impl FnOnce() -> String) {
        if self.tracing {
            let t = format!("[{:>8} us] {}", self.now, s());
            self.trace.push(t);
        }
    }
    fn key(&self, k: u32) -> Bytes {
        self.scn.keys[k as usize % self.scn.keys.len()].clone()
    }
    fn val(&self, v: u32) -> Bytes {
        self.scn.vals[v as usize % self.scn.vals.len()].clone()
    }

    fn open(&mut self, r: usize) {
        let w = self.w;
        let rep = &mut self.reps[r];
        rep.store = None;
        let (spec, disk, depth) = (rep.spec, rep.disk.clone(), self.scn.depth as usize);
        if let CallRes::Ok(s) = call(|| w.open(spec, depth, &disk)) {
            self.reps[r].store = Some(s);
        }
    }

    fn with<T>(&mut self, r: usize, f: impl FnOnce(&mut dyn Store) -> Res<T>) -> CallRes<T> {
        let Some(mut s) = self.reps[r].store.take() else { return CallRes::Err("closed".into()) };
        let x = call(|| f(s.as_mut()));
        self.reps[r].store = Some(s);
        x
    }

    // ------------------------------------------------------------------ network

    fn post(&mut self, delay: u64, e: Event) {
        self.seq += 1;
        self.queue.insert((self.now + delay, self.seq), e);
    }

    fn reachable(&self, a: usize, b: usize) -> bool {
        self.calm || self.now >= self.cut.1 || (self.cut.0 >> a & 1) == (self.cut.0 >> b & 1)
    }

    fn send(&mut self, from: usize, to: usize, make: impl Fn() -> Event) {
        if self.calm {
            self.post(1, make());
            return;
        }
        if !self.reachable(from, to) {
            self.stats.add("net_partitioned", 1);
            return;
        }
        let loss = self.scn.params.get(2).copied().unwrap_or(0).min(60);
        if self.net.below(100) < loss {
            self.stats.add("net_lost", 1);
            return;
        }
        let d = self.net.below(self.scn.params.get(3).copied().unwrap_or(0).min(40) * STEP_US + 1);
        self.post(d, make());
        if self.net.below(100) < loss {
            self.stats.add("net_duplicated", 1);
            let d = self.net.below(20 * STEP_US);
            self.post(d, make());
        }
    }

    fn deliver_until(&mut self, t: u64) {
        while let Some((&(at, seq), _)) = self.queue.iter().next() {
            if at > t {
                break;
            }
            let e = self.queue.remove(&(at, seq)).expect("event");
            self.now = self.now.max(at);
            match e {
                Event::Update { to, from, id } => {
                    self.stats.add("net_delivered", 1);
                    if self.reps[to].have.contains(&id) {
                        self.send(to, from, || Event::Ack { to: from, from: to, id });
                    } else {
                        if self.reps[to].inbox.last().is_some_and(|&l| l > id) {
                            self.stats.add("net_reordered", 1);
                        }
                        // a copy may sit in the inbox already: receivers cope with it when applying
                        self.reps[to].inbox.push(id);
                    }
                }
                Event::Ack { to, from, id } => {
                    let _ = to;
                    self.acked.insert((from, id));
                }
                Event::Resend { from, to, id, tries } => {
                    if !self.acked.contains(&(to, id)) && tries < 400 {
                        if tries > 0 {
                            self.stats.add("net_resent", 1);
                        }
                        self.send(from, to, || Event::Update { to, from, id });
                        let wait = if self.calm { 3 * STEP_US } else { RESEND_US };
                        self.post(wait, Event::Resend { from, to, id, tries: tries + 1 });
                    }
                }
            }
        }
        self.now = self.now.max(t);
    }

    // ------------------------------------------------------------------ replicas

    fn arm(&mut self, r: usize, faults: &[Fault]) {
        let armed: Vec<Armed> = faults
            .iter()
            .filter_map(|f| {
                let on = match f.on {
                    On::Any => None,
                    On::Call(c) => Some(c),
                    _ => return None,
                };
                Some(Armed { on, nth: f.at, span: f.span, kind: f.kind })
            })
            .collect();
        lock(&self.reps[r].disk).arm(&armed, u64::MAX);
    }

    /// Applies what has arrived, in one batch, pair by pair, or as given by `mode`.
    fn apply(&mut self, r: usize, mode: u64, faults: &[Fault]) -> V<()> {
        let mut ids = self.reps[r].inbox.clone();
        if mode & 4 != 0 {
            ids.reverse();
        }
        if mode & 8 != 0 && ids.len() > 1 {
            // only a part; the rest stays in the inbox
            ids.truncate(ids.len() / 2);
        }
        let mut groups: Vec<Vec<u64>> = Vec::new();
        match mode & 3 {
            0 => groups.push(ids),
            1 => groups.extend(ids.into_iter().map(|i| vec![i])),
            _ => groups.extend(ids.chunks(3).map(<[u64]>::to_vec)),
        }
        for g in groups {
            // newest update of each key wins, older ones are dropped
            let mut items: BTreeMap<u32, (u64, u32)> = BTreeMap::new();
            for &id in &g {
                let (k, v, _) = self.updates[id as usize];
                let newest = items.get(&k).map(|x| x.0).max(self.reps[r].stamps.get(&k).copied());
                if newest.map_or(true, |s| id > s) {
                    items.insert(k, (id, v));
                }
            }
            if !items.is_empty() {
                let mut order: Vec<u32> = items.keys().copied().collect();
                Rng::new(g[0] ^ mode << 8 ^ (r as u64) << 20).shuffle(&mut order);
                let keys: Vec<Bytes> = order.iter().map(|&k| self.key(k)).collect();
                let vals: Vec<Bytes> = order.iter().map(|k| self.val(items[k].1)).collect();
                let mut content = (*self.reps[r].content).clone();
                for (&k, &(_, v)) in &items {
                    content.insert(k, v);
                }
                let content = Rc::new(content);
                let prev = self.reps[r].root.clone();
                self.arm(r, faults);
                let x = if keys.len() == 1 && mode & 16 != 0 {
                    self.with(r, |s| s.insert_one(prev.as_deref(), &keys[0], &vals[0]))
                } else {
                    self.with(r, |s| s.insert(prev.as_deref(), &keys, &vals))
                };
                let fired = lock(&self.reps[r].disk).fired.clone();
                lock(&self.reps[r].disk).disarm();
                for (k, c) in &fired {
                    self.stats.add(&format!("fault_{}_{}", FAULT_NAMES[k.index()], CALL_NAMES[*c as usize]), 1);
                }
                match x {
                    CallRes::Ok(root) => {
                        self.acknowledge(r, root, content)?;
                        for (&k, &(s, _)) in &items {
                            self.reps[r].stamps.insert(k, s);
                        }
                    }
                    CallRes::Err(_) if !fired.is_empty() => {
                        self.stats.nontrivial = true;
                        if lock(&self.reps[r].disk).dead {
                            self.crash(r);
                            return Ok(());
                        }
                        // tried again with the next batch
                        return Ok(());
                    }
                    x => {
                        let v = self.viol(&["C01"], "insert_failed", x.brief());
                        self.note(v)?;
                        return Ok(());
                    }
                }
            }
            for id in g {
                self.reps[r].have.insert(id);
                self.reps[r].inbox.retain(|&x| x != id);
                let origin = self.updates[id as usize].2;
                if origin != r {
                    self.send(r, origin, || Event::Ack { to: origin, from: r, id });
                }
            }
        }
        Ok(())
    }

    fn acknowledge(&mut self, r: usize, root: Bytes, content: Rc<Map>) -> V<()> {
        self.digest = hash_bytes(mix(self.digest, r as u64), &root);
        self.stats.add("roots_compared", 1);
        self.say(|| format!("replica {r}: {} keys, root {}", content.len(), short(&root)));
        match self.by_content.get(&content) {
            Some(o) if *o != root => {
                let d = format!("replica {r} has root {} for {} keys for which {} was returned before", short(&root), content.len(), short(o));
                return Err(self.viol(&["C03"], "replica_root", d));
            }
            Some(_) => self.stats.add("roots_met_again", 1),
            None => {
                self.by_content.insert(content.clone(), root.clone());
            }
        }
        let known = self.by_root.get(&root).cloned();
        match known {
            Some(c) if !self.same(&c, &content) => {
                return Err(self.viol(&["C03", "C01"], "root_collision", format!("root {} stands for two maps", short(&root))));
            }
            _ => {
                self.by_root.insert(root.clone(), content.clone());
            }
        }
        let rep = &mut self.reps[r];
        if let Some(o) = rep.root.replace(root) {
            rep.old.push(o);
        }
        if rep.content.len() > 1 {
            self.stats.nontrivial = true;
        }
        rep.content = content;
        let mut h = 3;
        for rep in &self.reps {
            h = hash_bytes(h, rep.root.as_deref().unwrap_or(&[]));
        }
        self.stats.states.push(h);
        Ok(())
    }

    /// Key and value numbers may stand for equal bytes.
    fn same(&self, a: &Map, b: &Map) -> bool {
        let bytes = |m: &Map| -> BTreeMap<Bytes, Bytes> { m.iter().map(|(&k, &v)| (self.key(k), self.val(v))).collect() };
        a == b || bytes(a) == bytes(b)
    }

    fn crash(&mut self, r: usize) {
        self.stats.add("fault_replica_crash", 1);
        let rep = &mut self.reps[r];
        if !rep.spec.backend.on_disk() {
            return;
        }
        rep.store = None;
        rep.inbox.clear();
        lock(&rep.disk).restart();
        // the old handle's database must be gone before the path is opened again
        self.open(r);
        // its own updates are durable with the client: they come again
        let own: Vec<u64> = (0..self.updates.len() as u64).filter(|&i| self.updates[i as usize].2 == r && !self.reps[r].have.contains(&i)).collect();
        self.reps[r].inbox = own;
    }

    fn do_op(&mut self, op: &Op) -> V<()> {
        let r = op.arg(0) as usize % self.reps.len();
        match op.name.as_str() {
            "update" => {
                for &(k, v) in &op.items {
                    let id = self.updates.len() as u64;
                    let nk = self.scn.keys.len() as u32;
                    let nv = self.scn.vals.len() as u32;
                    self.updates.push((k % nk, v % nv, r));
                    self.reps[r].inbox.push(id);
                    for to in 0..self.reps.len() {
                        if to != r {
                            self.post(0, Event::Resend { from: r, to, id, tries: 0 });
                        }
                    }
                }
            }
            "apply" => self.apply(r, op.arg(1), &op.faults)?,
            "gc" => {
                if !self.reps[r].old.is_empty() {
                    let i = op.arg(1) as usize % self.reps[r].old.len();
                    let root = self.reps[r].old.remove(i);
                    // one removal for each time it was acknowledged
                    let _ = self.with(r, |s| s.remove(&root));
                }
            }
            "crash" => self.crash(r),
            "cut" => {
                self.stats.add("net_partitions", 1);
                self.cut = (op.arg(0), self.now + op.arg(1).min(60) * STEP_US);
            }
            _ => {}
        }
        Ok(())
    }

    fn run_all(&mut self) -> V<()> {
        let scn = self.scn;
        for b in &scn.backends {
            let spec = Spec { backend: *b, n: scn.n };
            let mut d = Disk::default();
            d.keep_log = false;
            self.reps.push(Replica {
                spec,
                disk: Arc::new(Mutex::new(d)),
                store: None,
                root: None,
                content: Rc::default(),
                stamps: BTreeMap::new(),
                have: BTreeSet::new(),
                inbox: Vec::new(),
                old: Vec::new(),
            });
        }
        for r in 0..self.reps.len() {
            self.open(r);
        }
        for (i, op) in scn.ops.iter().enumerate() {
            self.step = i;
            self.deliver_until((i as u64 + 1) * STEP_US);
            self.say(|| format!("op {i}: {}", op_text(op)));
            self.do_op(op)?;
        }
        // faults stop: everyone catches up within a bounded time
        self.calm = true;
        self.step = scn.ops.len();
        let total = self.updates.len();
        let mut rounds = 0;
        while self.reps.iter().any(|r| r.have.len() < total) {
            rounds += 1;
            if rounds > 60 {
                let v = self.viol(&["C01"], "no_progress", "replicas did not catch up after the network healed".into());
                self.note(v)?;
                return Ok(());
            }
            self.deliver_until(self.now + 4 * STEP_US);
            for r in 0..self.reps.len() {
                self.apply(r, self.net.clone().u64() & 3, &[])?;
            }
        }
        self.stats.add("rounds_to_converge", rounds);
        // all replicas hold the same map: same root, and that of a fresh tree built at once
        let Some(content) = self.reps.first().map(|r| r.content.clone()) else { return Ok(()) };
        if content.is_empty() {
            return Ok(());
        }
        let keys: Vec<Bytes> = content.keys().map(|&k| self.key(k)).collect();
        let vals: Vec<Bytes> = content.values().map(|&v| self.val(v)).collect();
        let w = self.w;
        let disk = Arc::new(Mutex::new(Disk::default()));
        let spec = Spec { backend: Backend::Hash, n: scn.n };
        let fresh = match call(|| w.open(spec, scn.n * 8 + 8, &disk)?.insert(None, &keys, &vals)) {
            CallRes::Ok(x) => x,
            _ => return Ok(()),
        };
        for r in 0..self.reps.len() {
            if self.reps[r].content != content {
                // the harness itself is wrong if this happens
                panic!("replicas hold different maps after convergence");
            }
            let root = self.reps[r].root.clone().unwrap_or_default();
            if root != fresh {
                let d = format!("replica {r} ends with root {}, a tree built at once has {}", short(&root), short(&fresh));
                return Err(self.viol(&["C03"], "replica_root_final", d));
            }
            let got = self.with(r, |s| s.get(&root, &keys));
            let good = matches!(&got, CallRes::Ok(m) if keys.iter().zip(&vals).all(|(k, v)| m.get(k).cloned().flatten().as_ref() == Some(v)));
            if !good {
                let v = self.viol(&["C01", "C02"], "replica_content", format!("replica {r} does not read back the map its root stands for: {}", got.brief()));
                self.note(v)?;
            }
        }
        Ok(())
    }

    pub fn run(mut self) -> RunResult {
        let r = self.run_all();
        let mut calls = 0;
        for p in &self.reps {
            let d = lock(&p.disk);
            calls += d.total_calls;
            self.digest = mix(self.digest, d.digest);
        }
        self.stats.add("storage_calls", calls);
        self.stats.sim_us = self.now;
        RunResult { violation: r.err(), other: self.other, digest: self.digest, stats: self.stats, trace: self.trace }
            .sorted(&self.scn.prop)
    }
}

