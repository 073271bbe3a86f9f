//! The store engine: one history of operations, faults, crashes and restarts against a reference model.
use crate::codec::{self, CodecCall};
use crate::golden::Golden;
use crate::run::*;
use crate::scenario::{op_text, Fault, On, Op, Scenario};
use crate::store::*;
use crate::{lock, Armed, Call, Disk, FaultKind, Outcome, Rng, SharedDisk, CALL_NAMES, FAULT_NAMES};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub type Content = BTreeMap<u32, u32>;

#[derive(Clone)]
pub struct Ver {
    pub root: Bytes,
    pub content: Rc<Content>,
    pub holds: u32,
}

#[derive(Clone, Default)]
pub struct Model {
    /// Live versions, oldest first.
    pub vers: Vec<Ver>,
}

struct Inst {
    spec: Spec,
    disk: SharedDisk,
    store: Option<Box<dyn Store>>,
    /// A second handle on the same storage, used in turn with the first.
    spare: Option<Box<dyn Store>>,
    depth: usize,
    /// Leftovers of failed operations are legitimate here (storage without atomic batches).
    leaky: bool,
}

#[derive(Clone)]
enum Mut {
    Insert { prev: Option<Bytes>, content: Rc<Content>, items: Vec<(u32, u32)>, one: bool },
    Remove { root: Bytes },
}

enum MutOut {
    Acked(Bytes),
    Refused,
    /// The operation failed because of an injected fault; the store is as before.
    Failed,
    /// A crash or failed call; the operation had taken effect (its root, if an insert).
    Applied(Bytes),
    /// Power was lost: model and storage were set back.
    SetBack,
    /// Partially applied on a storage without atomic batches.
    Partial,
}

struct LastFailed {
    m: Mut,
    before: u64,
    after: u64,
    root: Bytes,
}

#[derive(Default)]
struct Seen {
    rejected: bool,
    failed: bool,
    crashed: bool,
}

pub struct Engine<'a> {
    w: &'a dyn World,
    scn: &'a Scenario,
    prop: &'a str,
    insts: Vec<Inst>,
    pub model: Model,
    all_roots: HashMap<Bytes, Rc<Content>>,
    canon: HashMap<Rc<Content>, Option<Bytes>>,
    boundaries: Vec<(u64, Model)>,
    last_failed: Option<LastFailed>,
    seen: Seen,
    damaged: bool,
    step: usize,
    pub stats: Stats,
    digest: u64,
    tracing: bool,
    pub trace: Vec<String>,
    other: Option<Violation>,
    all_keys: Vec<u32>,
    audit_turn: usize,
}

type V<T> = Result<T, Violation>;

const MAX_LIVE: usize = 16;

impl<'a> Engine<'a> {
    pub fn new(w: &'a dyn World, scn: &'a Scenario, tracing: bool) -> Self {
        Self {
            w,
            scn,
            prop: &scn.prop,
            insts: Vec::new(),
            model: Model::default(),
            all_roots: HashMap::new(),
            canon: HashMap::new(),
            boundaries: Vec::new(),
            last_failed: None,
            seen: Seen::default(),
            damaged: false,
            step: 0,
            stats: Stats::default(),
            digest: 0,
            tracing,
            trace: Vec::new(),
            other: None,
            all_keys: (0..scn.keys.len() as u32).collect(),
            audit_turn: 0,
        }
    }

    fn key(&self, k: u32) -> &'a Bytes {
        &self.scn.keys[k as usize % self.scn.keys.len()]
    }
    fn val(&self, v: u32) -> &'a Bytes {
        &self.scn.vals[v as usize % self.scn.vals.len()]
    }

    fn viol(&self, tags: &[&'static str], oracle: &'static str, detail: String) -> Violation {
        let mut cond = Vec::new();
        if self.seen.rejected {
            cond.push("C08");
        }
        if self.seen.failed {
            cond.push("C07");
            cond.push("C02");
        }
        if self.seen.crashed {
            cond.push("C05");
            cond.push("C02");
        }
        let v = self.w.variant();
        if v.starts_with("fmt_") || v == "main" {
            cond.push("C14");
        }
        if self.scn.image.is_some() {
            cond.push("C22");
        }
        // decided by running the history again without what the property is about: see `cli::confirm`
        if self.scn.engine == "store" {
            cond.extend(["C16", "C17", "C18"]);
        }
        let mut tags = tags.to_vec();
        if self.scn.prop == "C15" {
            tags.push("C15");
        }
        if self.damaged {
            tags.retain(|t| *t == "C12" || *t == "C10");
            cond.clear();
        }
        Violation { tags, cond, oracle, step: self.step, detail }
    }

    fn relevant(&self, v: &Violation) -> bool {
        v.tags.contains(&self.prop) || v.cond.contains(&self.prop)
    }

    /// Stops the run for a violation of this property; remembers others and goes on where that is possible.
    fn note(&mut self, v: Violation) -> V<()> {
        if self.relevant(&v) {
            return Err(v);
        }
        if self.other.is_none() {
            self.other = Some(v);
        }
        Ok(())
    }

    fn say(&mut self, s: impl FnOnce() -> String) {
        if self.tracing {
            let t = s();
            self.trace.push(t);
        }
    }

    fn new_disk(&self) -> SharedDisk {
        let mut d = Disk::default();
        d.keep_log = true;
        if self.tracing {
            d.trace = Some(Vec::new());
        }
        d.damage = Some(damage_bytes);
        Arc::new(Mutex::new(d))
    }

    fn drain_disk_trace(&mut self, i: usize) {
        if self.tracing {
            let t = lock(&self.insts[i].disk).trace.as_mut().map(std::mem::take).unwrap_or_default();
            self.trace.extend(t);
        }
    }

    // ---------------------------------------------------------------- model helpers

    fn pick_root(&self, sel: u64) -> Option<usize> {
        let n = self.model.vers.len();
        if n == 0 {
            None
        } else {
            Some(n - 1 - (sel % n as u64) as usize)
        }
    }

    pub fn leaf_depth(&self, content: &Content, k: u32) -> usize {
        let key = self.key(k);
        let mut lens = BTreeSet::new();
        for &o in content.keys() {
            if o != k {
                lens.insert(lcp(key, self.key(o)));
            }
        }
        lens.len()
    }
    fn max_depth(&self, content: &Content) -> usize {
        fn depth(keys: &[&Bytes]) -> usize {
            if keys.len() < 2 {
                return 0;
            }
            let split = lcp(keys[0], keys[keys.len() - 1]);
            let at = keys.partition_point(|k| !bit(k, split));
            if at == 0 || at == keys.len() {
                return 0;
            }
            1 + depth(&keys[..at]).max(depth(&keys[at..]))
        }
        let mut keys: Vec<&Bytes> = content.keys().map(|&k| self.key(k)).collect();
        keys.sort_unstable();
        depth(&keys)
    }
    fn limited(&self, i: usize) -> bool {
        self.insts[i].depth < self.insts[i].spec.n * 8
    }
    /// Whether reading `keys` at a version is within the depth limit.
    fn readable(&self, i: usize, content: &Content, keys: &[u32]) -> bool {
        if !self.limited(i) {
            return true;
        }
        let limit = self.insts[i].depth;
        if keys.iter().all(|k| content.contains_key(k)) {
            keys.iter().all(|&k| self.leaf_depth(content, k) <= limit)
        } else {
            self.max_depth(content) <= limit
        }
    }

    /// The root of a fresh in-memory tree holding `content`.
    pub fn canonical(&mut self, content: &Rc<Content>) -> Option<Bytes> {
        if let Some(r) = self.canon.get(content) {
            return r.clone();
        }
        let spec = Spec { backend: Backend::Hash, n: self.scn.n };
        let keys: Vec<Bytes> = content.keys().map(|&k| self.key(k).clone()).collect();
        let vals: Vec<Bytes> = content.values().map(|&v| self.val(v).clone()).collect();
        let w = self.w;
        let disk = Arc::new(Mutex::new(Disk::default()));
        let r = match call(|| w.open(spec, spec.n * 8 + 8, &disk)?.insert(None, &keys, &vals)) {
            CallRes::Ok(r) => Some(r),
            _ => None,
        };
        self.canon.insert(content.clone(), r.clone());
        r
    }

    fn fold(&mut self, x: u64) {
        self.digest = mix(self.digest, x);
    }

    // ---------------------------------------------------------------- instances

    fn open_inst(&mut self, i: usize, depth: usize) -> CallRes<()> {
        let w = self.w;
        let inst = &mut self.insts[i];
        inst.store = None;
        inst.spare = None;
        let (spec, disk) = (inst.spec, inst.disk.clone());
        match call(|| w.open(spec, depth, &disk)) {
            CallRes::Ok(s) => {
                let inst = &mut self.insts[i];
                inst.store = Some(s);
                inst.depth = depth;
                CallRes::Ok(())
            }
            CallRes::Err(e) => CallRes::Err(e),
            CallRes::Panic(e) => CallRes::Panic(e),
            CallRes::Hang => CallRes::Hang,
        }
    }

    fn with<T>(&mut self, i: usize, f: impl FnOnce(&mut dyn Store) -> Res<T>) -> CallRes<T> {
        self.stats.sim_us += 50;
        let Some(mut s) = self.insts[i].store.take() else { return CallRes::Err("closed".into()) };
        let r = call(|| f(s.as_mut()));
        self.insts[i].store = Some(s);
        r
    }

    /// A read without faults: it leaves no trace in the storage, and its storage calls are counted.
    fn reading<T>(&mut self, i: usize, f: impl FnOnce(&mut dyn Store) -> Res<T>) -> (CallRes<T>, u64, bool) {
        let (log, calls, len) = {
            let d = lock(&self.insts[i].disk);
            (d.log_len(), d.total_calls, d.map.len())
        };
        let r = self.with(i, f);
        let d = lock(&self.insts[i].disk);
        (r, d.total_calls - calls, d.log_len() == log && d.map.len() == len)
    }

    fn no_trace(&mut self, what: &str, clean: bool) -> V<()> {
        if !clean && !self.damaged {
            let v = self.viol(&["C02"], "read_wrote", format!("{what} changed the storage"));
            self.note(v)?;
        }
        Ok(())
    }

    /// The work of an operation against what it may be.
    fn work(&mut self, i: usize, what: &'static str, calls: u64, bound: u64) -> V<()> {
        if self.prop != "C21" || !self.insts[i].spec.backend.on_disk() {
            return Ok(());
        }
        let size = lock(&self.insts[i].disk).map.len();
        self.stats.add("work_checked", 1);
        if bound * 4 < size as u64 {
            self.stats.add("work_checked_with_large_store", 1);
        }
        if calls > bound {
            return Err(self.viol(&["C21"], "work", format!("{what} made {calls} storage calls (at most {bound} for its path; {size} records stored)")));
        }
        Ok(())
    }

    /// The storage as the code left it (None where it cannot be looked at).
    fn dump(&mut self, i: usize) -> V<Option<Dump>> {
        let spec = self.insts[i].spec;
        if spec.backend.on_disk() {
            let mut out = Dump::new();
            let mut bad = None;
            {
                let d = lock(&self.insts[i].disk);
                if !d.map.is_empty() && d.map.keys().all(|k| k.len() != spec.n) {
                    // a layout of its own: what it does can be judged by its answers, not by its records
                    self.stats.add("unknown_layout", 1);
                    return Ok(None);
                }
                for (k, v) in &d.map {
                    match self.w.decode(spec, v) {
                        Ok(n) if k.len() == spec.n => {
                            out.insert(k.clone(), n);
                        }
                        Ok(_) => bad = Some(format!("record {} has a key of the wrong length", short(k))),
                        Err(e) => bad = Some(format!("record {} cannot be decoded: {e}", short(k))),
                    }
                }
            }
            if let Some(b) = bad {
                if !self.damaged {
                    let v = self.viol(&["C13", "C14", "C02"], "undecodable", b);
                    self.note(v)?;
                }
            }
            return Ok(Some(out));
        }
        if self.insts[i].store.is_none() {
            return Ok(None);
        }
        let mut s = self.insts[i].store.take().expect("store");
        let d = s.dump();
        self.insts[i].store = Some(s);
        Ok(d)
    }

    fn state_digest(&mut self, i: usize) -> V<u64> {
        if self.insts[i].spec.backend.on_disk() {
            return Ok(map_digest(&lock(&self.insts[i].disk).map));
        }
        Ok(match self.dump(i)? {
            None => 0,
            Some(d) => {
                let mut h = 7;
                for (k, n) in &d {
                    h = hash_bytes(h, k);
                    h = mix(h, n.refs);
                    h = match &n.kind {
                        NodeKind::Branch { count, zero, one, split, key } => {
                            hash_bytes(hash_bytes(hash_bytes(mix(mix(h, *count), *split), zero), one), key)
                        }
                        NodeKind::Leaf { key, data } => hash_bytes(hash_bytes(h, key), data),
                        NodeKind::Data { value } => hash_bytes(h, value),
                    };
                }
                h
            }
        })
    }

    fn record_boundary(&mut self, i: usize) -> V<()> {
        if self.insts.len() != 1 || !self.insts[i].spec.backend.on_disk() {
            return Ok(());
        }
        let d = self.state_digest(i)?;
        if self.boundaries.last().map(|b| b.0) != Some(d) {
            self.boundaries.push((d, self.model.clone()));
        } else if let Some(b) = self.boundaries.last_mut() {
            b.1 = self.model.clone();
        }
        Ok(())
    }

    // ---------------------------------------------------------------- audits

    /// Compares the reads of one version with the model.
    fn check_version(&mut self, i: usize, v: &Ver, keys: &[u32], tags: &[&'static str]) -> V<()> {
        let req: Vec<Bytes> = keys.iter().map(|&k| self.key(k).clone()).collect();
        let ok_expected = self.readable(i, &v.content, keys);
        let limited = self.limited(i);
        let (r, calls, clean) = self.reading(i, |s| s.get(&v.root, &req));
        self.no_trace("get", clean)?;
        if self.prop == "C21" {
            let d = self.max_depth(&v.content) as u64;
            self.work(i, "get", calls, 5 * keys.len() as u64 * (d + 3) + 6)?;
        }
        self.stats.add("oracle_reads", keys.len() as u64);
        let mut tags = tags.to_vec();
        if limited {
            tags.push("C18");
        }
        match r {
            CallRes::Ok(m) => {
                let want: BTreeSet<&Bytes> = req.iter().collect();
                if m.len() != want.len() || !m.keys().all(|k| want.contains(k)) {
                    let mut t = tags.clone();
                    t.push("C17");
                    let x = self.viol(&t, "read_entries", format!("get returned {} entries for {} distinct keys", m.len(), want.len()));
                    self.note(x)?;
                }
                for &k in keys {
                    let got = m.get(self.key(k)).cloned().flatten();
                    let want = v.content.get(&k).map(|&x| self.val(x).clone());
                    if got != want {
                        let detail = format!(
                            "root {}: key#{k} {} reads {} instead of {}",
                            short(&v.root),
                            short(self.key(k)),
                            got.map_or("absent".into(), |g| short(&g)),
                            want.map_or("absent".into(), |g| short(&g))
                        );
                        // a single-key read that disagrees is a matter of C17 as well
                        let kb = self.key(k).clone();
                        let one = self.with(i, |s| s.get_one(&v.root, &kb));
                        let want = v.content.get(&k).map(|&x| self.val(x).clone());
                        if matches!(&one, CallRes::Ok(o) if *o == want) {
                            tags.push("C17");
                        }
                        return Err(self.viol(&tags, "read_value", detail));
                    }
                }
            }
            CallRes::Err(_) if !ok_expected => self.stats.add("depth_refusals", 1),
            r => {
                // a batch that fails where each of its keys can be read alone is a matter of C17 as well
                let alone = keys.iter().take(64).all(|&k| {
                    let kb = self.key(k).clone();
                    let want = v.content.get(&k).map(|&x| self.val(x).clone());
                    matches!(self.with(i, |s| s.get_one(&v.root, &kb)), CallRes::Ok(o) if o == want)
                });
                if alone {
                    tags.push("C17");
                }
                let oracle = if matches!(r, CallRes::Err(_)) { "read_error" } else { "read_panic" };
                return Err(self.viol(&tags, oracle, format!("root {}: get: {}", short(&v.root), r.brief())));
            }
        }
        Ok(())
    }

    fn check_one(&mut self, i: usize, v: &Ver, k: u32, tags: &[&'static str]) -> V<()> {
        let key = self.key(k).clone();
        let ok_expected = self.readable(i, &v.content, &[k]);
        let want = v.content.get(&k).map(|&x| self.val(x).clone());
        let mut tags = tags.to_vec();
        tags.push("C17");
        if self.limited(i) {
            tags.push("C18");
        }
        let (r, calls, clean) = self.reading(i, |s| s.get_one(&v.root, &key));
        self.no_trace("get_one", clean)?;
        if self.prop == "C21" {
            let d = self.max_depth(&v.content) as u64;
            self.work(i, "get_one", calls, 4 * (d + 3))?;
        }
        match r {
            CallRes::Ok(got) => {
                if got != want {
                    return Err(self.viol(
                        &tags,
                        "read_one_value",
                        format!(
                            "root {}: get_one of key#{k} {} gives {} instead of {}",
                            short(&v.root),
                            short(&key),
                            got.map_or("absent".into(), |g| short(&g)),
                            want.map_or("absent".into(), |g| short(&g))
                        ),
                    ));
                }
            }
            CallRes::Err(_) if !ok_expected => self.stats.add("depth_refusals", 1),
            r => {
                return Err(self.viol(&tags, "read_one_error", format!("root {}: get_one: {}", short(&v.root), r.brief())));
            }
        }
        Ok(())
    }

    fn check_proof(&mut self, i: usize, v: &Ver, k: u32) -> V<()> {
        let key = self.key(k).clone();
        let want = v.content.get(&k).map(|&x| self.val(x).clone());
        let ok_expected = self.readable(i, &v.content, &[k]);
        let mut tags = vec!["C09"];
        if self.limited(i) {
            tags.push("C18");
        }
        let (r, calls, clean) = self.reading(i, |s| s.prove(&v.root, &key));
        self.no_trace("generate_inclusion_proof", clean)?;
        if self.prop == "C21" {
            let d = self.max_depth(&v.content) as u64;
            self.work(i, "prove", calls, 4 * (d + 3))?;
        }
        match (r, want) {
            (CallRes::Ok(p), Some(val)) => {
                let (w, spec) = (self.w, self.insts[i].spec);
                let r = call(|| w.verify(spec, &v.root, &key, &val, &p));
                if !r.is_ok() {
                    return Err(self.viol(&tags, "proof_rejected", format!("proof of key#{k} under {} rejected: {}", short(&v.root), r.brief())));
                }
            }
            (CallRes::Ok(_), None) => {
                return Err(self.viol(&tags, "proof_of_absent", format!("a proof was generated for absent key#{k} under {}", short(&v.root))));
            }
            (CallRes::Err(_), None) => {}
            (CallRes::Err(_), Some(_)) if !ok_expected => self.stats.add("depth_refusals", 1),
            (r, _) => {
                return Err(self.viol(&tags, "proof_error", format!("proof of key#{k} under {}: {}", short(&v.root), r.brief())));
            }
        }
        Ok(())
    }

    /// Asks for a key one bit away from a stored one: it is absent, and cannot be proved.
    fn probe(&mut self, i: usize, v: &Ver, salt: u64) -> V<()> {
        if self.limited(i) || v.content.is_empty() {
            return Ok(());
        }
        let mut x = salt;
        let r = crate::splitmix(&mut x);
        let k = *v.content.keys().nth((r % v.content.len() as u64) as usize).expect("key");
        let mut near = self.key(k).clone();
        let bits = 8 * near.len() as u64;
        let b = match (r >> 20) % 4 {
            0 => bits - 1 - (r >> 24) % 8,
            1 => (r >> 24) % 8,
            _ => (r >> 24) % bits,
        } as usize;
        near[b / 8] ^= 128 >> (b % 8);
        if v.content.keys().any(|&o| *self.key(o) == near) {
            return Ok(());
        }
        self.stats.add("oracle_probes", 1);
        let kb = self.key(k).clone();
        let detail = |what: &str, got: String| format!("root {}: {what} of {}, one bit (#{b}) away from a stored key: {got}", short(&v.root), short(&near));
        let req = [kb.clone(), near.clone()];
        match self.with(i, |s| s.get(&v.root, &req)) {
            CallRes::Ok(m) => {
                if m.get(&near).cloned().flatten().is_some() || m.get(&kb).cloned().flatten().as_ref() != v.content.get(&k).map(|&x| self.val(x)) {
                    return Err(self.viol(&["C01", "C17"], "probe", detail("get", format!("{m:?}"))));
                }
            }
            r => return Err(self.viol(&["C01", "C17"], "probe", detail("get", r.brief()))),
        }
        match self.with(i, |s| s.get_one(&v.root, &near)) {
            CallRes::Ok(None) => {}
            CallRes::Ok(Some(_)) => return Err(self.viol(&["C01", "C17"], "probe", detail("get_one", "present".into()))),
            r => return Err(self.viol(&["C01", "C17"], "probe", detail("get_one", r.brief()))),
        }
        match self.with(i, |s| s.prove(&v.root, &near)) {
            CallRes::Err(_) => Ok(()),
            CallRes::Ok(_) => Err(self.viol(&["C09"], "proof_of_absent", detail("a proof was generated", String::new()))),
            r => Err(self.viol(&["C09"], "proof_error", detail("proof", r.brief()))),
        }
    }

    /// Looks at the whole storage: structure, durability of live versions, exact reclamation.
    fn check_storage(&mut self, i: usize) -> V<()> {
        let Some(dump) = self.dump(i)? else { return Ok(()) };
        self.stats.add("oracle_nodes", dump.len() as u64);
        let mut problems: Vec<String> = Vec::new();
        {
            let mut memo: HashMap<&[u8], Option<Sub>> = HashMap::new();
            for loc in dump.keys() {
                subtree(&dump, loc, &mut memo, &mut problems, 0);
            }
        }
        if let Some(p) = problems.first() {
            let v = self.viol(&["C13"], "structure", p.clone());
            self.note(v)?;
            return Ok(());
        }
        // live versions, read from the storage itself
        let mut reach: BTreeSet<&[u8]> = BTreeSet::new();
        let vers = self.model.vers.clone();
        for v in &vers {
            let mut pairs = BTreeMap::new();
            let complete = walk(&dump, &v.root, &mut reach, &mut pairs);
            let same = complete
                && pairs.len() == v.content.len()
                && v.content.iter().all(|(&k, &x)| pairs.get(self.key(k).as_slice()) == Some(&self.val(x).as_slice()));
            if !same {
                let mut tags = vec!["C02", "C04"];
                if self.insts[i].spec.backend.atomic() {
                    tags.push("C05");
                }
                let x = self.viol(
                    &tags,
                    "not_stored",
                    format!("live version {} ({} keys) is not in storage as acknowledged", short(&v.root), v.content.len()),
                );
                self.note(x)?;
                return Ok(());
            }
        }
        if !self.insts[i].leaky && reach.len() != dump.len() {
            let extra: Vec<_> = dump.keys().filter(|k| !reach.contains(k.as_slice())).take(3).map(|k| short(k)).collect();
            let detail = format!(
                "storage holds {} nodes, live versions need {}; not needed: {}",
                dump.len(),
                reach.len(),
                extra.join(" ")
            );
            let x = self.viol(&["C04"], "exactness", detail);
            self.note(x)?;
            self.insts[i].leaky = true;
        }
        Ok(())
    }

    /// Checks made after every operation.
    fn audit(&mut self, touched: Option<&Bytes>, full: bool) -> V<()> {
        if self.damaged {
            return Ok(());
        }
        for i in 0..self.insts.len() {
            if self.insts[i].store.is_none() {
                continue;
            }
            let n = self.model.vers.len();
            let mut idx: Vec<usize> = Vec::new();
            if full {
                idx.extend(0..n);
            } else if n > 0 {
                for _ in 0..2 {
                    self.audit_turn += 1;
                    idx.push(self.audit_turn % n);
                }
                idx.sort_unstable();
                idx.dedup();
            }
            for j in idx {
                let v = self.model.vers[j].clone();
                if Some(&v.root) == touched {
                    continue;
                }
                let keys = self.all_keys.clone();
                self.check_version(i, &v, &keys, &["C02"])?;
                if full && !self.all_keys.is_empty() {
                    let k = self.all_keys[(self.step + j) % self.all_keys.len()];
                    self.check_one(i, &v, k, &["C02"])?;
                }
            }
            if full || self.scn.params.get(1).copied().unwrap_or(1) == 1 {
                self.check_storage(i)?;
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- mutating operations

    fn run_mut(w: &dyn World, store: &mut dyn Store, scn: &Scenario, m: &Mut) -> CallRes<Bytes> {
        let _ = w;
        match m {
            Mut::Insert { prev, items, one, .. } => {
                let nk = scn.keys.len();
                let nv = scn.vals.len();
                if *one {
                    let (k, v) = items[0];
                    let (k, v) = (&scn.keys[k as usize % nk], &scn.vals[v as usize % nv]);
                    call(|| store.insert_one(prev.as_deref(), k, v))
                } else {
                    let keys: Vec<Bytes> = items.iter().map(|i| scn.keys[i.0 as usize % nk].clone()).collect();
                    let vals: Vec<Bytes> = items.iter().map(|i| scn.vals[i.1 as usize % nv].clone()).collect();
                    call(|| store.insert(prev.as_deref(), &keys, &vals))
                }
            }
            Mut::Remove { root } => call(|| store.remove(root).map(|()| Vec::new())),
        }
    }

    fn resolve(atomic: bool, faults: &[Fault], calls: u64, kinds: &[u64; 5], codec: &[u64; 2]) -> (Vec<Armed>, Vec<(CodecCall, u64, u64)>) {
        let mut disk = Vec::new();
        let mut cod = Vec::new();
        for f in faults {
            let mut f = *f;
            if let (FaultKind::PowerLoss(_), false) = (f.kind, atomic) {
                // storage without atomic batches promises nothing about what a power loss leaves
                f.kind = FaultKind::CrashAfter;
            }
            let f = &f;
            let place = |total: u64| total * u64::from(f.at.min(999)) / 1000;
            match f.on {
                On::Any => disk.push(Armed { on: None, nth: place(calls) as u32, span: f.span, kind: f.kind }),
                On::Call(c) => {
                    disk.push(Armed { on: Some(c), nth: place(kinds[c as usize]) as u32, span: f.span, kind: f.kind });
                }
                On::Encode => cod.push((CodecCall::Encode, place(codec[0]), u64::from(f.span))),
                On::Decode => cod.push((CodecCall::Decode, place(codec[1]), u64::from(f.span))),
            }
        }
        (disk, cod)
    }

    fn call_limit(&self, i: usize, extra: usize) -> u64 {
        let nodes = lock(&self.insts[i].disk).map.len() as u64;
        let n = self.scn.n as u64;
        (extra as u64 + 2) * (8 * n + 2) * 4 + 40 * nodes + 2000
    }

    fn take_fired(&mut self, i: usize) -> Vec<(FaultKind, Call)> {
        let fired = lock(&self.insts[i].disk).fired.clone();
        for (k, c) in &fired {
            self.stats.add(&format!("fault_{}_{}", FAULT_NAMES[k.index()], CALL_NAMES[*c as usize]), 1);
        }
        fired
    }

    /// Runs a mutating operation on one instance, with faults, and settles what became of it.
    fn exec_mut(&mut self, i: usize, m: &Mut, faults: &[Fault]) -> V<MutOut> {
        let scn = self.scn;
        let w = self.w;
        let backend = self.insts[i].spec.backend;
        let on_disk = backend.on_disk();
        let (op_tag, op_name): (&'static str, _) = match m {
            Mut::Insert { .. } => ("C01", "insert"),
            Mut::Remove { .. } => ("C04", "remove"),
        };
        let must_ok = match m {
            Mut::Insert { prev: Some(p), .. } => match self.model.vers.iter().find(|v| v.root == *p) {
                Some(v) => !self.limited(i) || self.max_depth(&v.content) <= self.insts[i].depth,
                None => true,
            },
            _ => true,
        };
        let mut armed = (Vec::new(), Vec::new());
        let mut twin: Option<(Bytes, u64)> = None;
        let before = if faults.is_empty() && self.last_failed.is_none() { 0 } else { self.state_digest(i)? };
        if !faults.is_empty() {
            // a dry run on a copy tells where faults can hit and what success looks like
            let items = match m {
                Mut::Insert { items, .. } => items.len() as u64,
                Mut::Remove { .. } => 0,
            };
            if on_disk {
                let mut d = Disk::default();
                d.map = lock(&self.insts[i].disk).map.clone();
                let d: SharedDisk = Arc::new(Mutex::new(d));
                let (spec, depth) = (self.insts[i].spec, self.insts[i].depth);
                let limit = self.call_limit(i, items as usize);
                if let CallRes::Ok(mut s) = call(|| w.open(spec, depth, &d)) {
                    lock(&d).arm(&[], limit);
                    codec::disarm();
                    let r = Self::run_mut(w, s.as_mut(), scn, m);
                    let codec_counts = codec::counts().0;
                    let dd = lock(&d);
                    if let CallRes::Ok(root) = r {
                        armed = Self::resolve(backend.atomic(), faults, dd.op_calls, &dd.op_kind_calls, &codec_counts);
                        twin = Some((root, map_digest(&dd.map)));
                    }
                }
            } else {
                armed = Self::resolve(backend.atomic(), faults, 0, &[0; 5], &[items, 0]);
                armed.0.clear();
            }
        }
        let log_before = lock(&self.insts[i].disk).log_len();
        let nodes_before = lock(&self.insts[i].disk).map.len() as u64;
        let limit = self.call_limit(i, if let Mut::Insert { items, .. } = m { items.len() } else { 0 });
        lock(&self.insts[i].disk).arm(&armed.0, limit);
        codec::arm(&armed.1);
        self.stats.sim_us += 50;
        let mut store = self.insts[i].store.take().expect("open store");
        let r = Self::run_mut(w, store.as_mut(), scn, m);
        self.insts[i].store = Some(store);
        let codec_fired = codec::counts().1;
        codec::disarm();
        let fired = self.take_fired(i);
        let calls = lock(&self.insts[i].disk).op_calls;
        self.stats.sim_us += calls * 100;
        lock(&self.insts[i].disk).disarm();
        self.stats.add("fault_encode", codec_fired[0]);
        self.stats.add("fault_decode", codec_fired[1]);
        self.drain_disk_trace(i);
        let any_fault = !fired.is_empty() || codec_fired[0] + codec_fired[1] > 0;
        self.fold(u64::from(any_fault) | calls << 1);
        self.say(|| format!("  {op_name} on {} -> {}{}", backend.name(), r.brief(), if any_fault { " (faults hit)" } else { "" }));

        match &r {
            CallRes::Panic(_) | CallRes::Hang => {
                let mut tags = vec![op_tag];
                if matches!(m, Mut::Insert { items, .. } if items.len() > 1) {
                    tags.push("C17");
                }
                if any_fault {
                    tags = vec!["C06", "C05", "C07"];
                }
                return Err(self.viol(&tags, "op_panic", format!("{op_name}: {}", r.brief())));
            }
            CallRes::Ok(root) if !any_fault => {
                if self.prop == "C21" {
                    match m {
                        Mut::Insert { content, items, prev, .. } => {
                            let k = items.len() as u64;
                            let old = prev.as_ref().and_then(|p| self.all_roots.get(p).cloned());
                            let d = self.max_depth(content).max(old.map_or(0, |c| self.max_depth(&c))) as u64;
                            self.work(i, "insert", calls, 14 * k * (d + 3) + 30)?;
                        }
                        Mut::Remove { .. } => {
                            let freed = nodes_before.saturating_sub(lock(&self.insts[i].disk).map.len() as u64);
                            self.work(i, "remove", calls, 12 * freed + 24)?;
                        }
                    }
                }
                if let (Some(lf), Mut::Insert { .. }) = (&self.last_failed, m) {
                    let _ = lf;
                }
                if let Some((troot, tdig)) = &twin {
                    // armed but not hit: same outcome as the dry run
                    let after = self.state_digest(i)?;
                    if *troot != *root || (after != *tdig && backend.atomic()) {
                        let v = self.viol(&["C07"], "not_repeatable", format!("{op_name} on equal storage gave another result or storage"));
                        self.note(v)?;
                    }
                }
                return Ok(MutOut::Acked(root.clone()));
            }
            CallRes::Err(e) if !any_fault => {
                if must_ok {
                    let mut tags = vec![op_tag];
                    if self.limited(i) {
                        tags.push("C18");
                    }
                    if matches!(m, Mut::Insert { items, .. } if items.len() > 1) {
                        tags.push("C17");
                    }
                    return Err(self.viol(&tags, "op_error", format!("{op_name} failed without any fault: {e}")));
                }
                return Ok(MutOut::Refused);
            }
            _ => {}
        }
        // a fault hit
        self.stats.nontrivial = true;
        self.stats.add("ops_hit_by_faults", 1);
        let crashed = fired.iter().any(|f| matches!(f.0, FaultKind::CrashBefore | FaultKind::CrashAfter | FaultKind::PowerLoss(_)));
        let power = fired.iter().any(|f| matches!(f.0, FaultKind::PowerLoss(_)));
        let lying = fired.iter().any(|f| matches!(f.0, FaultKind::ReadMissing | FaultKind::ReadDamaged(_)));
        let applied_err = fired.iter().any(|f| f.0 == FaultKind::ErrApplied);
        if lying {
            self.damaged = true;
            return Ok(MutOut::Partial);
        }
        if r.is_ok() && !crashed {
            let v = self.viol(&["C06"], "failure_unreported", format!("{op_name} succeeded although a storage or codec call failed: {fired:?} {codec_fired:?}"));
            return Err(v);
        }
        if crashed {
            self.seen.crashed = true;
            self.stats.add(if power { "power_losses" } else { "crashes_inside_ops" }, 1);
            if r.is_ok() {
                // the process died before the caller could be told
                self.stats.add("crash_after_success", 1);
            }
            self.insts[i].store = None;
            self.insts[i].spare = None;
            lock(&self.insts[i].disk).restart();
            self.reopen_after_crash(i)?;
            if power {
                if !backend.atomic() {
                    self.insts[i].leaky = true;
                    return Ok(MutOut::Partial);
                }
                return self.set_back(i, log_before).map(|()| MutOut::SetBack);
            }
            let after = self.state_digest(i)?;
            if after == before {
                self.stats.add("crash_not_applied", 1);
                return Ok(MutOut::Failed);
            }
            if backend.atomic() {
                let (troot, tdig) = twin.clone().unwrap_or_default();
                if after != tdig {
                    return Err(self.viol(&["C05"], "partial_effect", format!("after a crash inside {op_name} the storage is neither as before nor as after it")));
                }
                self.stats.add("crash_applied", 1);
                return Ok(MutOut::Applied(troot));
            }
            self.insts[i].leaky = true;
            return Ok(MutOut::Partial);
        }
        // reported failure
        self.seen.failed = true;
        if !backend.atomic() {
            self.insts[i].leaky = true;
            return Ok(MutOut::Partial);
        }
        let after = self.state_digest(i)?;
        let (troot, tdig) = twin.clone().unwrap_or_default();
        if after == before {
            self.last_failed = Some(LastFailed { m: m.clone(), before, after: tdig, root: troot });
            return Ok(MutOut::Failed);
        }
        if applied_err && after == tdig {
            return Ok(MutOut::Applied(troot));
        }
        let tags: &[&'static str] = if applied_err { &["C05", "C07"] } else { &["C07"] };
        Err(self.viol(tags, "failed_but_changed", format!("{op_name} returned an error ({}) but changed the storage", r.brief())))
    }

    fn reopen_after_crash(&mut self, i: usize) -> V<()> {
        let depth = self.insts[i].depth;
        match self.open_inst(i, depth) {
            CallRes::Ok(()) => Ok(()),
            r => Err(self.viol(&["C05", "C02"], "reopen", format!("reopening after a crash: {}", r.brief()))),
        }
    }

    /// After a power loss: the storage must equal some earlier operation boundary.
    fn set_back(&mut self, i: usize, log_before: usize) -> V<()> {
        let d = self.state_digest(i)?;
        let log_now = lock(&self.insts[i].disk).log_len();
        if log_now < log_before {
            self.stats.add("power_loss_lost_records", (log_before - log_now) as u64);
        }
        if let Some(p) = self.boundaries.iter().rposition(|b| b.0 == d) {
            if p + 1 < self.boundaries.len() {
                self.stats.add("power_loss_set_back", 1);
            }
            self.model = self.boundaries[p].1.clone();
            self.boundaries.truncate(p + 1);
            self.last_failed = None;
            return Ok(());
        }
        Err(self.viol(&["C05"], "power_loss_state", "after a power loss the storage equals no state between operations".into()))
    }

    fn add_hold(&mut self, root: &Bytes, content: &Rc<Content>) {
        if let Some(v) = self.model.vers.iter_mut().find(|v| v.root == *root) {
            v.holds += 1;
        } else {
            self.model.vers.push(Ver { root: root.clone(), content: content.clone(), holds: 1 });
        }
        self.all_roots.insert(root.clone(), content.clone());
    }

    fn drop_hold(&mut self, root: &Bytes) {
        if let Some(p) = self.model.vers.iter().position(|v| v.root == *root) {
            self.model.vers[p].holds -= 1;
            if self.model.vers[p].holds == 0 {
                self.model.vers.remove(p);
            }
        }
    }

    /// Checks on the root an insert returned.
    fn check_root(&mut self, root: &Bytes, content: &Rc<Content>, tags: &[&'static str]) -> V<()> {
        let mut tags = tags.to_vec();
        tags.push("C03");
        if let Some(o) = self.all_roots.get(root) {
            if o != content {
                return Err(self.viol(&tags, "root_collision", format!("root {} stands for two different maps", short(root))));
            }
        }
        if let Some(c) = self.canonical(content) {
            if c != *root {
                let v = self.viol(&tags, "root_not_canonical", format!("root {} but the same map built at once has {}", short(root), short(&c)));
                self.note(v)?;
            }
        }
        Ok(())
    }

    fn do_insert(&mut self, op: &Op) -> V<()> {
        let prev = match op.arg(0) {
            0 => None,
            p => self.pick_root(p - 1),
        };
        if self.model.vers.len() >= MAX_LIVE {
            return Ok(());
        }
        let one = op.arg(1) == 1;
        let items: Vec<(u32, u32)> = self.clean_items(&op.items, one);
        if items.is_empty() {
            return Ok(());
        }
        let (prev_root, mut content) = match prev {
            Some(p) => (Some(self.model.vers[p].root.clone()), (*self.model.vers[p].content).clone()),
            None => (None, Content::new()),
        };
        for &(k, v) in &items {
            content.insert(k, v);
        }
        let content = Rc::new(content);
        let m = Mut::Insert { prev: prev_root, content: content.clone(), items, one };
        self.apply(&m, &op.faults)
    }

    fn clean_items(&self, items: &[(u32, u32)], one: bool) -> Vec<(u32, u32)> {
        let mut seen = BTreeSet::new();
        let mut out = Vec::new();
        for &(k, v) in items {
            let (k, v) = (k % self.scn.keys.len() as u32, v % self.scn.vals.len() as u32);
            if seen.insert(k) {
                out.push((k, v));
            }
            if one && !out.is_empty() {
                break;
            }
        }
        out
    }

    fn do_remove(&mut self, op: &Op) -> V<()> {
        let Some(p) = self.pick_root(op.arg(0)) else { return Ok(()) };
        let m = Mut::Remove { root: self.model.vers[p].root.clone() };
        self.apply(&m, &op.faults)
    }

    /// Runs a mutating operation on every instance and brings the model up to date.
    fn apply(&mut self, m: &Mut, faults: &[Fault]) -> V<()> {
        let mut results = Vec::new();
        for i in 0..self.insts.len() {
            let f: &[Fault] = if self.insts.len() == 1 { faults } else { &[] };
            results.push(self.exec_mut(i, m, f)?);
        }
        self.agree(&results)?;
        let Some(r) = results.into_iter().next() else { return Ok(()) };
        self.settle(m, r)
    }

    /// All instances gave the same answer.
    fn agree(&mut self, results: &[MutOut]) -> V<()> {
        let mut first: Option<Result<Bytes, ()>> = None;
        for r in results {
            let x = match r {
                MutOut::Acked(b) => Ok(b.clone()),
                MutOut::Refused => Err(()),
                _ => break,
            };
            match &first {
                None => first = Some(x),
                Some(f) if *f != x => {
                    return Err(self.viol(&["C16", "C03"], "backends_differ", "backends gave different results for the same operation".into()));
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn settle(&mut self, m: &Mut, r: MutOut) -> V<()> {
        let mut touched = None;
        match (m, r) {
            (Mut::Insert { content, one, prev, .. }, MutOut::Acked(root)) => {
                self.fold(hash_bytes(1, &root));
                let reused = self.all_roots.contains_key(&root);
                self.stats.add("inserts", 1);
                if reused {
                    self.stats.add("inserts_of_known_version", 1);
                }
                if prev.is_some() && self.model.vers.len() > 1 {
                    self.stats.nontrivial = true;
                }
                self.check_root(&root, content, if *one { &["C17"] } else { &[] })?;
                self.add_hold(&root, content);
                let v = Ver { root: root.clone(), content: content.clone(), holds: 1 };
                let keys = self.all_keys.clone();
                for i in 0..self.insts.len() {
                    if self.insts[i].store.is_some() {
                        self.check_version(i, &v, &keys, &["C01"])?;
                    }
                }
                touched = Some(root);
            }
            (Mut::Remove { root }, MutOut::Acked(_)) => {
                self.stats.add("removes", 1);
                if self.model.vers.len() > 1 {
                    self.stats.nontrivial = true;
                }
                self.drop_hold(&root.clone());
            }
            (Mut::Insert { content, .. }, MutOut::Applied(root)) => {
                self.check_root(&root, content, &["C05"])?;
                self.add_hold(&root, content);
            }
            (Mut::Remove { root }, MutOut::Applied(_) | MutOut::Partial) => self.drop_hold(&root.clone()),
            (_, MutOut::Refused) => self.stats.add("refused_by_depth", 1),
            (_, MutOut::Failed | MutOut::SetBack | MutOut::Partial) => {}
        }
        if matches!(m, Mut::Insert { .. }) {
            // keep the last failure only while nothing happened since
        }
        self.audit(touched.as_ref(), false)?;
        if let Some(t) = touched {
            let v = self.model.vers.iter().find(|v| v.root == t).cloned();
            if let (Some(v), false) = (v, self.all_keys.is_empty()) {
                let k = self.all_keys[self.step % self.all_keys.len()];
                let salt = self.scn.hash_seed ^ ((self.step as u64) << 8) ^ self.digest;
                for i in 0..self.insts.len() {
                    self.check_one(i, &v, k, &["C01"])?;
                    self.check_proof(i, &v, k)?;
                    self.probe(i, &v, salt)?;
                }
            }
        }
        Ok(())
    }

    /// The failed operation again, now without faults.
    fn do_retry(&mut self) -> V<()> {
        let Some(lf) = self.last_failed.take() else { return Ok(()) };
        if self.insts.len() != 1 || self.model.vers.len() >= MAX_LIVE {
            return Ok(());
        }
        // the previous root must still be live
        match &lf.m {
            Mut::Insert { prev: Some(p), .. } if !self.model.vers.iter().any(|v| v.root == *p) => return Ok(()),
            Mut::Remove { root } if !self.model.vers.iter().any(|v| v.root == *root) => return Ok(()),
            _ => {}
        }
        let undisturbed = self.state_digest(0)? == lf.before;
        let r = match self.exec_mut(0, &lf.m, &[]) {
            Ok(r) => r,
            Err(mut v) => {
                v.tags.push("C07");
                return Err(v);
            }
        };
        self.stats.add("retries", 1);
        match &r {
            MutOut::Acked(root) => {
                if matches!(lf.m, Mut::Insert { .. }) && *root != lf.root {
                    return Err(self.viol(&["C07"], "retry_root", "repeating a failed insert gave another root".into()));
                }
                if undisturbed && self.state_digest(0)? != lf.after {
                    let v = self.viol(&["C07"], "retry_state", "repeating a failed operation left another storage than doing it at once".into());
                    self.note(v)?;
                }
            }
            _ => return Err(self.viol(&["C07"], "retry_refused", "repeating a failed operation was refused".into())),
        }
        self.settle(&lf.m, r)
    }

    /// Inserts the same pairs at once and one by one.
    fn do_split(&mut self, op: &Op) -> V<()> {
        let prev = match op.arg(0) {
            0 => None,
            p => self.pick_root(p - 1),
        };
        let items = self.clean_items(&op.items, false);
        if items.is_empty() || self.model.vers.len() + items.len() + 2 > MAX_LIVE + 8 {
            return Ok(());
        }
        let (mut cur, mut content) = match prev {
            Some(p) => (Some(self.model.vers[p].root.clone()), (*self.model.vers[p].content).clone()),
            None => (None, Content::new()),
        };
        let mut order = items.clone();
        Rng::new(op.arg(1)).shuffle(&mut order);
        let mut made = Vec::new();
        let mut full = content.clone();
        for &(k, v) in &items {
            full.insert(k, v);
        }
        for j in 0..=items.len() {
            let m = if j == items.len() {
                let p = prev.map(|p| self.model.vers[p].root.clone());
                Mut::Insert { prev: p, content: Rc::new(full.clone()), items: items.clone(), one: false }
            } else {
                content.insert(order[j].0, order[j].1);
                Mut::Insert { prev: cur.clone(), content: Rc::new(content.clone()), items: vec![order[j]], one: true }
            };
            let mut results = Vec::new();
            for i in 0..self.insts.len() {
                results.push(self.exec_mut(i, &m, &[])?);
            }
            self.agree(&results)?;
            let MutOut::Acked(root) = results.swap_remove(0) else {
                return self.audit(None, false);
            };
            let Mut::Insert { content: c, .. } = &m else { unreachable!() };
            self.check_root(&root, c, &["C17"])?;
            self.add_hold(&root, c);
            self.record_boundary(0)?;
            made.push(root.clone());
            cur = Some(root);
        }
        let n = made.len();
        self.stats.add("split_inserts", 1);
        self.stats.nontrivial = true;
        if made[n - 1] != made[n - 2] {
            let v = self.viol(&["C17", "C03"], "split_root", "inserting a batch and its pairs one by one gave different roots".into());
            self.note(v)?;
        }
        // release all but the last
        for r in made.into_iter().take(n - 1) {
            let m = Mut::Remove { root: r.clone() };
            for i in 0..self.insts.len() {
                self.exec_mut(i, &m, &[])?;
            }
            self.drop_hold(&r);
            self.record_boundary(0)?;
        }
        self.audit(None, false)
    }

    /// Many acknowledgements of one version, or many versions that share nearly everything, and many removals.
    /// args: version, count, kind, removals, order
    fn do_storm(&mut self, op: &Op) -> V<()> {
        if self.model.vers.is_empty() || self.insts.len() != 1 || self.insts[0].store.is_none() || self.limited(0) {
            return Ok(());
        }
        let p = self.pick_root(op.arg(0)).expect("version");
        let base = self.model.vers[p].clone();
        let mut rng = Rng::new(op.arg(4));
        let ks: Vec<u32> = base.content.keys().copied().collect();
        let k = *rng.pick(&ks);
        let count = op.arg(1).min(70_000);
        let share = op.arg(2) % 2 == 1;
        let mut made: Vec<Bytes> = Vec::new();
        for j in 0..count {
            let v = if share { (j % self.scn.vals.len() as u64) as u32 } else { base.content[&k] };
            let mut content = base.content.clone();
            if base.content[&k] != v {
                let mut c = (*content).clone();
                c.insert(k, v);
                content = Rc::new(c);
            }
            let m = Mut::Insert { prev: Some(base.root.clone()), content: content.clone(), items: vec![(k, v)], one: j % 3 == 0 };
            let MutOut::Acked(root) = self.exec_mut(0, &m, &[])? else { return self.audit(None, false) };
            if !share && root != base.root {
                return Err(self.viol(&["C03", "C17"], "root_not_canonical", "inserting a pair that is there already gave another root".into()));
            }
            if share && j < 600 {
                self.check_root(&root, &content, &[])?;
            }
            self.add_hold(&root, &content);
            self.record_boundary(0)?;
            made.push(root);
        }
        self.stats.add("storms", 1);
        self.stats.add("storm_inserts", count);
        self.stats.nontrivial = true;
        self.audit(None, false)?;
        if op.arg(3) > 0 {
            rng.shuffle(&mut made);
        }
        for r in made.into_iter().take(op.arg(3) as usize) {
            let m = Mut::Remove { root: r.clone() };
            self.exec_mut(0, &m, &[])?;
            self.drop_hold(&r);
            self.record_boundary(0)?;
        }
        self.check_storage(0)?;
        self.audit(None, false)
    }

    /// Roots of maps that differ a little from live ones.
    fn do_mutants(&mut self, op: &Op) -> V<()> {
        let Some(p) = self.pick_root(op.arg(0)) else { return Ok(()) };
        let v = self.model.vers[p].clone();
        let mut rng = Rng::new(op.arg(1));
        for _ in 0..6 {
            let mut c = (*v.content).clone();
            let ks: Vec<u32> = c.keys().copied().collect();
            let k = *rng.pick(&ks);
            match rng.below(5) {
                0 => {
                    c.insert(k, rng.below(self.scn.vals.len() as u64) as u32);
                }
                1 => {
                    c.remove(&k);
                }
                2 => {
                    let x = c.remove(&k).expect("present");
                    c.insert(rng.below(self.scn.keys.len() as u64) as u32, x);
                }
                3 => {
                    let o = *rng.pick(&ks);
                    let (a, b) = (c[&k], c[&o]);
                    c.insert(k, b);
                    c.insert(o, a);
                }
                _ => {
                    c.insert(rng.below(self.scn.keys.len() as u64) as u32, rng.below(self.scn.vals.len() as u64) as u32);
                }
            }
            if c.is_empty() {
                continue;
            }
            let c = Rc::new(c);
            if let Some(r) = self.canonical(&c) {
                self.stats.add("mutant_roots", 1);
                if let Some(o) = self.all_roots.get(&r) {
                    if *o != c {
                        return Err(self.viol(&["C03"], "root_collision", format!("root {} stands for two different maps", short(&r))));
                    }
                }
                self.all_roots.insert(r, c);
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- reads with faults

    fn do_read(&mut self, op: &Op) -> V<()> {
        let Some(p) = self.pick_root(op.arg(0)) else { return Ok(()) };
        if op.items.is_empty() {
            return Ok(());
        }
        let v = self.model.vers[p].clone();
        let keys: Vec<u32> = op.items.iter().map(|x| x.0 % self.scn.keys.len() as u32).collect();
        for i in 0..self.insts.len() {
            if self.insts[i].store.is_none() {
                continue;
            }
            lock(&self.insts[i].disk).arm(&[], u64::MAX);
            codec::arm(&[]);
            match op.name.as_str() {
                "get" => {
                    self.check_version(i, &v, &keys, &["C02"])?;
                    if op.faults.is_empty() {
                        for &k in keys.iter().take(6) {
                            self.check_one(i, &v, k, &["C02"])?;
                        }
                    }
                }
                "get_one" => self.check_one(i, &v, keys[0], &["C02"])?,
                _ => self.check_proof(i, &v, keys[0])?,
            }
            self.stats.add("reads", 1);
        }
        if op.faults.is_empty() || self.insts.len() != 1 {
            return Ok(());
        }
        // once more, with faults: only the calls of the operation itself are counted
        let req: Vec<Bytes> = keys.iter().map(|&k| self.key(k).clone()).collect();
        let name = op.name.clone();
        let run = |s: &mut dyn Store| -> Res<BTreeMap<Bytes, Option<Bytes>>> {
            match name.as_str() {
                "get" => s.get(&v.root, &req),
                "get_one" => s.get_one(&v.root, &req[0]).map(|x| BTreeMap::from([(req[0].clone(), x)])),
                _ => s.prove(&v.root, &req[0]).map(|_| BTreeMap::new()),
            }
        };
        lock(&self.insts[0].disk).arm(&[], u64::MAX);
        codec::arm(&[]);
        let dry = self.with(0, run);
        let cc = codec::counts().0;
        let (calls, kinds) = {
            let d = lock(&self.insts[0].disk);
            (d.op_calls, d.op_kind_calls)
        };
        let (a, c) = Self::resolve(self.insts[0].spec.backend.atomic(), &op.faults, calls, &kinds, &cc);
        let limit = self.call_limit(0, keys.len());
        lock(&self.insts[0].disk).arm(&a, limit);
        codec::arm(&c);
        let r = self.with(0, run);
        let cf = codec::counts().1;
        codec::disarm();
        let fired = self.take_fired(0);
        lock(&self.insts[0].disk).disarm();
        self.stats.add("fault_decode", cf[1]);
        self.drain_disk_trace(0);
        self.say(|| format!("  {} with faults {fired:?} -> {}", op.name, r.brief()));
        if fired.is_empty() && cf[0] + cf[1] == 0 {
            return Ok(());
        }
        self.stats.nontrivial = true;
        self.stats.add("reads_hit_by_faults", 1);
        match &r {
            CallRes::Panic(_) | CallRes::Hang => {
                return Err(self.viol(&["C06", "C12"], "read_panic", format!("{}: {}", op.name, r.brief())));
            }
            CallRes::Ok(_) if fired.iter().any(|f| matches!(f.0, FaultKind::ReadMissing | FaultKind::ReadDamaged(_))) => {}
            CallRes::Ok(_) if dry.is_ok() => {
                return Err(self.viol(&["C06"], "failure_unreported", format!("{} succeeded although a storage or codec call failed", op.name)));
            }
            _ => {}
        }
        if lock(&self.insts[0].disk).dead {
            self.crash(0, None)?;
        }
        Ok(())
    }

    /// Reads of nothing, and reads at a root that is not in storage.
    fn do_read_odd(&mut self, op: &Op) -> V<()> {
        let mut rng = Rng::new(op.arg(1));
        for i in 0..self.insts.len() {
            if self.insts[i].store.is_none() {
                continue;
            }
            lock(&self.insts[i].disk).arm(&[], u64::MAX);
            codec::arm(&[]);
            self.stats.add("odd_reads", 1);
            if op.items.is_empty() {
                let root = match self.pick_root(op.arg(0)) {
                    Some(p) => self.model.vers[p].root.clone(),
                    None => vec![7; self.scn.n],
                };
                match self.with(i, |s| s.get(&root, &[])) {
                    CallRes::Ok(m) if m.is_empty() => {}
                    r => return Err(self.viol(&["C17"], "read_entries", format!("get of no keys: {}", r.brief()))),
                }
                continue;
            }
            let mut root: Bytes = (0..self.scn.n).map(|_| rng.u64() as u8).collect();
            if rng.chance(1, 2) {
                let mut gone: Vec<&Bytes> = self.all_roots.keys().filter(|r| !self.model.vers.iter().any(|v| v.root == **r)).collect();
                gone.sort_unstable();
                if !gone.is_empty() {
                    root = gone[rng.idx(gone.len())].clone();
                }
            }
            // a removed version may still be there as a part of another
            match self.dump(i)? {
                Some(d) if !d.contains_key(&root) => {}
                _ => continue,
            }
            let keys: Vec<Bytes> = op.items.iter().map(|x| self.key(x.0).clone()).collect();
            let want: BTreeSet<&Bytes> = keys.iter().collect();
            let all = self.with(i, |s| s.get(&root, &keys));
            match &all {
                CallRes::Ok(m) => {
                    if m.len() != want.len() || m.values().any(Option::is_some) {
                        return Err(self.viol(&["C17", "C02"], "read_entries", "get at a root that is not there gives values or misses entries".into()));
                    }
                }
                CallRes::Err(_) => {}
                r => return Err(self.viol(&["C17", "C12"], "read_panic", format!("get at a root that is not there: {}", r.brief()))),
            }
            match self.with(i, |s| s.get_one(&root, &keys[0])) {
                CallRes::Ok(None) | CallRes::Err(_) => {}
                r => return Err(self.viol(&["C17", "C12"], "read_panic", format!("get_one at a root that is not there: {}", r.brief()))),
            }
            match self.with(i, |s| s.prove(&root, &keys[0])) {
                CallRes::Err(_) => {}
                r => return Err(self.viol(&["C09"], "proof_of_absent", format!("proof at a root that is not there: {}", r.brief()))),
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- rejected calls

    fn do_bad(&mut self, op: &Op) -> V<()> {
        let prev = match op.arg(0) {
            0 => None,
            p => self.pick_root(p - 1),
        };
        let prev = prev.map(|p| self.model.vers[p].root.clone());
        let mut items = self.clean_items(&op.items, false);
        if items.is_empty() {
            return Ok(());
        }
        let mut rng = Rng::new(op.arg(1));
        let mut prev_use = prev;
        let mut nk = items.len();
        let mut nv = items.len();
        let mut one = false;
        match op.name.as_str() {
            "bad_len" => {
                if rng.chance(1, 2) {
                    nk -= 1;
                } else {
                    nv -= 1;
                }
            }
            "bad_empty" => {
                nk = 0;
                nv = 0;
            }
            "bad_dup" => {
                let d = items[rng.idx(items.len())];
                let at = rng.idx(items.len() + 1);
                let v = if rng.chance(1, 2) { d.1 } else { rng.below(self.scn.vals.len() as u64) as u32 };
                items.insert(at, (d.0, v));
                nk = items.len();
                nv = items.len();
            }
            _ => {
                // a root that is not in storage
                let mut r: Bytes = (0..self.scn.n).map(|_| rng.u64() as u8).collect();
                match rng.below(4) {
                    0 => r = self.key(items[0].0).clone(),
                    1 => {
                        let mut gone: Vec<&Bytes> =
                            self.all_roots.keys().filter(|r| !self.model.vers.iter().any(|v| v.root == **r)).collect();
                        gone.sort_unstable();
                        if !gone.is_empty() {
                            r = gone[rng.idx(gone.len())].clone();
                        }
                    }
                    2 => {
                        if let Some(v) = self.model.vers.last() {
                            r = v.root.clone();
                            let b = rng.idx(r.len().min(8));
                            r[b] ^= 1 << rng.below(8);
                        }
                    }
                    _ => {}
                }
                prev_use = Some(r);
                one = rng.chance(1, 3);
            }
        }
        let keys: Vec<Bytes> = items.iter().take(nk).map(|x| self.key(x.0).clone()).collect();
        let vals: Vec<Bytes> = items.iter().take(nv).map(|x| self.val(x.1).clone()).collect();
        for i in 0..self.insts.len() {
            if self.insts[i].store.is_none() {
                continue;
            }
            if op.name == "bad_root" {
                // a removed version may still be there as a part of another
                let p = prev_use.clone().expect("root");
                let there = match self.dump(i)? {
                    Some(d) => d.contains_key(&p),
                    None => self.all_roots.contains_key(&p),
                };
                if there || self.insts[i].spec.backend == Backend::HashWrap && self.all_roots.contains_key(&p) {
                    return Ok(());
                }
            }
            let before = self.state_digest(i)?;
            let p = prev_use.clone();
            let limit = self.call_limit(i, keys.len());
            lock(&self.insts[i].disk).arm(&[], limit);
            let r = if one {
                self.with(i, |s| s.insert_one(p.as_deref(), &keys[0], &vals[0]))
            } else {
                self.with(i, |s| s.insert(p.as_deref(), &keys, &vals))
            };
            lock(&self.insts[i].disk).disarm();
            self.drain_disk_trace(i);
            self.say(|| format!("  {} -> {}", op.name, r.brief()));
            self.stats.add(&format!("rejected_{}", op.name), 1);
            self.stats.nontrivial = true;
            match &r {
                CallRes::Err(_) => {}
                CallRes::Ok(_) => return Err(self.viol(&["C08"], "bad_call_accepted", format!("{} was accepted", op.name))),
                _ => return Err(self.viol(&["C08"], "bad_call_panic", format!("{}: {}", op.name, r.brief()))),
            }
            if self.state_digest(i)? != before {
                let v = self.viol(&["C08"], "bad_call_changed", format!("{} was refused but changed the storage", op.name));
                self.note(v)?;
                self.insts[i].leaky = true;
            }
        }
        self.seen.rejected = true;
        self.audit(None, false)
    }

    fn do_rm_unknown(&mut self, op: &Op) -> V<()> {
        let mut rng = Rng::new(op.arg(0));
        let r: Bytes = (0..self.scn.n).map(|_| rng.u64() as u8).collect();
        for i in 0..self.insts.len() {
            let before = self.state_digest(i)?;
            let res = self.with(i, |s| s.remove(&r));
            if matches!(res, CallRes::Panic(_) | CallRes::Hang) {
                return Err(self.viol(&["C08"], "bad_call_panic", format!("remove of an unknown root: {}", res.brief())));
            }
            if self.state_digest(i)? != before {
                let v = self.viol(&["C08"], "bad_call_changed", "removing an unknown root changed the storage".into());
                self.note(v)?;
            }
        }
        self.seen.rejected = true;
        self.audit(None, false)
    }

    // ---------------------------------------------------------------- restarts

    fn depth_arg(&self, code: u64) -> usize {
        if code == 0 {
            self.scn.depth as usize
        } else {
            (code - 1) as usize
        }
    }

    fn do_reopen(&mut self, op: &Op) -> V<()> {
        let mut depth = self.depth_arg(op.arg(0));
        if self.insts.iter().any(|x| x.spec.backend == Backend::HashWrap) {
            // this one keeps its limit, and all are to have the same
            depth = self.scn.depth as usize;
        }
        for i in 0..self.insts.len() {
            if !self.insts[i].spec.backend.on_disk() || op.name == "handover" {
                let before = self.state_digest(i)?;
                let wrap = self.insts[i].spec.backend == Backend::HashWrap;
                match self.with(i, |s| s.handover(depth)) {
                    CallRes::Ok(was) if was == self.insts[i].depth => {}
                    CallRes::Ok(was) => {
                        let d = self.insts[i].depth;
                        let v = self.viol(&["C16", "C18"], "handover_depth", format!("decompose gives the depth limit {was}, the tree was opened with {d}"));
                        self.note(v)?;
                    }
                    r => return Err(self.viol(&["C16", "C02"], "handover", format!("decompose/from_db: {}", r.brief()))),
                }
                self.insts[i].spare = None;
                if !wrap {
                    self.insts[i].depth = depth;
                }
                if !wrap && self.state_digest(i)? != before {
                    return Err(self.viol(&["C16", "C02"], "handover", "handing over the storage changed it".into()));
                }
                self.stats.add("handovers", 1);
                continue;
            }
            self.insts[i].store = None;
            self.insts[i].spare = None;
            if self.insts.len() == 1 && !op.faults.is_empty() {
                let (a, _) = Self::resolve(self.insts[i].spec.backend.atomic(), &op.faults, 1, &[1, 0, 0, 0, 0], &[0; 2]);
                lock(&self.insts[i].disk).arm(&a, 1000);
                let r = self.open_inst(i, depth);
                let fired = self.take_fired(i);
                lock(&self.insts[i].disk).disarm();
                if !fired.is_empty() {
                    self.stats.nontrivial = true;
                    match r {
                        CallRes::Err(_) => {}
                        CallRes::Ok(()) => return Err(self.viol(&["C06"], "failure_unreported", "opening succeeded although the storage failed to open".into())),
                        r => return Err(self.viol(&["C06"], "open_panic", format!("open: {}", r.brief()))),
                    }
                }
                self.insts[i].store = None;
                if lock(&self.insts[i].disk).dead {
                    lock(&self.insts[i].disk).restart();
                    if fired.iter().any(|f| matches!(f.0, FaultKind::PowerLoss(_))) {
                        self.insts[i].depth = depth;
                        self.reopen_after_crash(i)?;
                        self.set_back(i, 0)?;
                        continue;
                    }
                }
            }
            match self.open_inst(i, depth) {
                CallRes::Ok(()) => self.stats.add("reopens", 1),
                r => return Err(self.viol(&["C02", "C14", "C16"], "reopen", format!("reopening: {}", r.brief()))),
            }
        }
        self.audit(None, true)
    }

    fn crash(&mut self, i: usize, power: Option<u32>) -> V<()> {
        if !self.insts[i].spec.backend.on_disk() {
            return Ok(());
        }
        let log = lock(&self.insts[i].disk).log_len();
        {
            let mut d = lock(&self.insts[i].disk);
            d.dead = true;
            if let Some(n) = power {
                d.power_cut(n);
            }
        }
        self.insts[i].store = None;
        self.insts[i].spare = None;
        let power = {
            let mut d = lock(&self.insts[i].disk);
            let p = d.powered_off;
            d.restart();
            p
        };
        self.seen.crashed = true;
        self.stats.add(if power { "power_losses" } else { "crashes_between_ops" }, 1);
        self.reopen_after_crash(i)?;
        if power {
            if self.insts[i].spec.backend.atomic() && !self.insts[i].leaky {
                self.set_back(i, log)?;
            } else {
                // storage without atomic batches promises nothing here
                self.model.vers.clear();
                self.insts[i].leaky = true;
            }
        }
        self.audit(None, true)
    }

    // ---------------------------------------------------------------- damage

    fn do_damage(&mut self, op: &Op) -> V<()> {
        let spec = self.insts[0].spec;
        if !spec.backend.on_disk() {
            return Ok(());
        }
        let keys: Vec<Bytes> = lock(&self.insts[0].disk).map.keys().cloned().collect();
        if keys.is_empty() {
            return Ok(());
        }
        let loc = keys[(op.arg(0) % keys.len() as u64) as usize].clone();
        let mut rng = Rng::new(op.arg(2));
        let other = keys[rng.idx(keys.len())].clone();
        let rec = lock(&self.insts[0].disk).map.get(&loc).cloned().expect("record");
        let orec = lock(&self.insts[0].disk).map.get(&other).cloned().expect("record");
        let mut info = self.w.decode(spec, &rec).unwrap_or(NodeInfo { refs: 1, kind: NodeKind::Data { value: vec![1] } });
        let n = spec.n;
        let mut put: Option<Bytes> = None;
        let mut set_info = true;
        match op.arg(1) % 15 {
            0 => {
                lock(&self.insts[0].disk).map.remove(&loc);
                set_info = false;
            }
            1 => {
                let mut d = lock(&self.insts[0].disk);
                d.map.insert(loc.clone(), orec);
                d.map.insert(other, rec);
                set_info = false;
            }
            2 => put = Some(orec),
            3 => {
                if let NodeKind::Branch { zero, one, .. } = &mut info.kind {
                    match rng.below(3) {
                        0 => *zero = loc.clone(),
                        1 => *one = loc.clone(),
                        _ => {
                            *zero = loc.clone();
                            *one = loc.clone();
                        }
                    }
                } else if let NodeKind::Leaf { data, .. } = &mut info.kind {
                    *data = loc.clone();
                }
            }
            4 => {
                if let NodeKind::Branch { zero, one, .. } = &mut info.kind {
                    if rng.chance(1, 2) {
                        *zero = other;
                    } else {
                        *one = other;
                    }
                } else if let NodeKind::Leaf { data, .. } = &mut info.kind {
                    *data = other;
                }
            }
            5 => {
                if let NodeKind::Branch { split, .. } = &mut info.kind {
                    let b = 8 * n as u64;
                    *split = *rng.pick(&[b, b + 1, b - 1, b + 7, b + 8, 0, u64::MAX, u64::MAX - 7, 1 << 40, usize::MAX as u64 / 2]);
                    if rng.chance(1, 4) {
                        *split = rng.below(b);
                    }
                }
            }
            6 => put = Some(damage_bytes(&rec, rng.u64() as u32 | 1)),
            7 => put = Some(rec[..rng.idx(rec.len().max(1))].to_vec()),
            8 => {
                let len = rng.idx(120);
                put = Some((0..len).map(|_| rng.u64() as u8).collect());
            }
            9 => {
                let any = |rng: &mut Rng| keys[rng.idx(keys.len())].clone();
                info.kind = match rng.below(3) {
                    0 => NodeKind::Data { value: vec![7; rng.idx(9)] },
                    1 => NodeKind::Leaf { key: self.key(rng.below(64) as u32).clone(), data: any(&mut rng) },
                    _ => NodeKind::Branch {
                        count: rng.below(5),
                        zero: any(&mut rng),
                        one: any(&mut rng),
                        split: rng.below(8 * n as u64),
                        key: self.key(rng.below(64) as u32).clone(),
                    },
                };
            }
            10 => info.refs = *rng.pick(&[0, 2, u64::MAX, u64::MAX - 1]),
            11 => {
                if let NodeKind::Branch { count, .. } = &mut info.kind {
                    *count = *rng.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 63]);
                }
            }
            12 => {
                let k = self.key(rng.below(64) as u32).clone();
                match &mut info.kind {
                    NodeKind::Branch { key, .. } | NodeKind::Leaf { key, .. } => *key = k,
                    NodeKind::Data { value } => *value = k,
                }
            }
            13 => {
                if let NodeKind::Branch { zero, one, .. } = &mut info.kind {
                    std::mem::swap(zero, one);
                }
            }
            _ => put = Some(Vec::new()),
        }
        if set_info {
            // record keys need not be locations
            let fit = |l: &mut Bytes| {
                if l.len() != n {
                    l.drain(..l.len().saturating_sub(n));
                    l.resize(n, 0);
                }
            };
            match &mut info.kind {
                NodeKind::Branch { zero, one, .. } => {
                    fit(zero);
                    fit(one);
                }
                NodeKind::Leaf { data, .. } => fit(data),
                NodeKind::Data { .. } => {}
            }
            let rec = put.unwrap_or_else(|| self.w.encode(spec, &info));
            lock(&self.insts[0].disk).map.insert(loc.clone(), rec);
        }
        self.damaged = true;
        self.stats.nontrivial = true;
        self.stats.add(&format!("damage_{}", op.arg(1) % 15), 1);
        self.say(|| format!("  damaged {} ({info:?})", short(&loc)));
        Ok(())
    }

    /// Any operation on damaged storage: it must end, without a panic.
    fn do_damaged(&mut self, op: &Op) -> V<()> {
        if self.insts[0].store.is_none() {
            return Ok(());
        }
        let items = self.clean_items(&op.items, false);
        let root = match self.pick_root(op.arg(0)) {
            Some(p) => self.model.vers[p].clone(),
            None => return Ok(()),
        };
        let limit = self.call_limit(0, items.len());
        let total: u64 = 1000;
        let (mut a, c) = Self::resolve(false, &op.faults, total, &[1, 12, 6, 6, 1], &[items.len() as u64, items.len() as u64]);
        for f in &mut a {
            if f.on.is_none() {
                f.nth %= 24;
            }
        }
        lock(&self.insts[0].disk).arm(&a, limit);
        codec::arm(&c);
        let keys: Vec<Bytes> = items.iter().map(|x| self.key(x.0).clone()).collect();
        let vals: Vec<Bytes> = items.iter().map(|x| self.val(x.1).clone()).collect();
        let mut claims: Vec<(Bytes, Bytes, Proof)> = Vec::new();
        let r: CallRes<()> = match op.name.as_str() {
            "insert" if !items.is_empty() => {
                let prev = (op.arg(0) != 0).then(|| root.root.clone());
                if op.arg(1) == 1 {
                    self.with(0, |s| s.insert_one(prev.as_deref(), &keys[0], &vals[0]).map(|_| ()))
                } else {
                    self.with(0, |s| s.insert(prev.as_deref(), &keys, &vals).map(|_| ()))
                }
            }
            "remove" => self.with(0, |s| s.remove(&root.root)),
            "get" if !items.is_empty() => self.with(0, |s| s.get(&root.root, &keys).map(|_| ())),
            "get_one" if !items.is_empty() => self.with(0, |s| s.get_one(&root.root, &keys[0]).map(|_| ())),
            "prove" if !items.is_empty() => {
                let c = &mut claims;
                self.with(0, |s| {
                    let p = s.prove(&root.root, &keys[0]);
                    let v = s.get_one(&root.root, &keys[0]);
                    if let (Ok(p), Ok(Some(v))) = (&p, v) {
                        c.push((keys[0].clone(), v, p.clone()));
                    }
                    p.map(|_| ())
                })
            }
            "reopen" => {
                let depth = self.depth_arg(op.arg(0));
                self.insts[0].store = None;
                lock(&self.insts[0].disk).disarm();
                lock(&self.insts[0].disk).restart();
                self.open_inst(0, depth)
            }
            _ => CallRes::Ok(()),
        };
        codec::disarm();
        self.take_fired(0);
        lock(&self.insts[0].disk).disarm();
        self.drain_disk_trace(0);
        let (name, b) = (op.name.clone(), r.brief());
        self.say(|| format!("  {name} on damaged storage -> {b}"));
        self.fold(hash_bytes(3, b.as_bytes()));
        self.stats.add(&format!("damaged_{}_{}", op.name, if r.is_ok() { "ok" } else { "error" }), 1);
        if matches!(r, CallRes::Panic(_) | CallRes::Hang) {
            return Err(self.viol(&["C12"], "damaged_panic", format!("{} on damaged storage: {b}", op.name)));
        }
        if lock(&self.insts[0].disk).dead {
            lock(&self.insts[0].disk).restart();
            let depth = self.insts[0].depth;
            let r = self.open_inst(0, depth);
            if matches!(r, CallRes::Panic(_) | CallRes::Hang) {
                return Err(self.viol(&["C12"], "damaged_panic", format!("reopening damaged storage: {}", r.brief())));
            }
        }
        for (k, v, p) in claims {
            let (w, spec) = (self.w, self.insts[0].spec);
            let truth = root.content.iter().find(|(&kk, _)| *self.key(kk) == k).map(|(_, &x)| self.val(x).clone());
            let r = call(|| w.verify(spec, &root.root, &k, &v, &p));
            match r {
                CallRes::Ok(()) if truth.as_ref() != Some(&v) => {
                    return Err(self.viol(&["C12", "C10"], "damaged_proof", "a proof from damaged storage convinced the verifier of a wrong value".into()));
                }
                CallRes::Panic(_) | CallRes::Hang => {
                    return Err(self.viol(&["C12", "C10"], "verify_panic", format!("verifying a proof from damaged storage: {}", r.brief())));
                }
                _ => self.stats.add("damaged_proofs_checked", 1),
            }
        }
        Ok(())
    }

    /// Puts a node of the wrong kind on the path to a present key: reads and proofs of it must fail.
    fn do_wrong_kind(&mut self, op: &Op) -> V<()> {
        let spec = self.insts[0].spec;
        if !spec.backend.on_disk() || self.damaged {
            return Ok(());
        }
        let Some(p) = self.pick_root(op.arg(0)) else { return Ok(()) };
        let v = self.model.vers[p].clone();
        if v.content.is_empty() || self.limited(0) {
            return Ok(());
        }
        let k = *v.content.keys().nth((op.arg(1) % v.content.len() as u64) as usize).expect("key");
        let key = self.key(k).clone();
        let Some(dump) = self.dump(0)? else { return Ok(()) };
        let mut path = Vec::new();
        let mut loc = v.root.clone();
        loop {
            let Some(n) = dump.get(&loc) else { return Ok(()) };
            path.push(loc.clone());
            loc = match &n.kind {
                NodeKind::Branch { zero, one, split, .. } => if bit(&key, *split as usize) { one.clone() } else { zero.clone() },
                NodeKind::Leaf { data, .. } => data.clone(),
                NodeKind::Data { .. } => break,
            };
            if path.len() > 8 * spec.n + 2 {
                return Ok(());
            }
        }
        let at = (op.arg(2) % path.len() as u64) as usize;
        let target = path[at].clone();
        let is_data = at + 1 == path.len();
        let mut rng = Rng::new(op.arg(3));
        let kind = if is_data {
            if rng.chance(1, 2) {
                NodeKind::Leaf { key: key.clone(), data: path[rng.idx(path.len())].clone() }
            } else {
                let other = path[rng.idx(path.len())].clone();
                NodeKind::Branch { count: 2, zero: other.clone(), one: other, split: rng.below(8 * spec.n as u64), key: key.clone() }
            }
        } else {
            NodeKind::Data { value: self.val(rng.below(64) as u32).clone() }
        };
        let rec = self.w.encode(spec, &NodeInfo { refs: 1, kind });
        let saved = lock(&self.insts[0].disk).map.insert(target.clone(), rec).expect("record");
        let keyv = vec![key.clone()];
        let limit = self.call_limit(0, 1);
        self.stats.add("wrong_kind_nodes", 1);
        self.stats.nontrivial = true;
        let val = self.val(op.arg(3) as u32).clone();
        for what in 0..3 {
            lock(&self.insts[0].disk).arm(&[], limit);
            let r: CallRes<()> = match what {
                0 => self.with(0, |s| s.get(&v.root, &keyv).map(|_| ())),
                1 => self.with(0, |s| s.get_one(&v.root, &key).map(|_| ())),
                _ => self.with(0, |s| s.prove(&v.root, &key).map(|_| ())),
            };
            let b = r.brief();
            if !matches!(r, CallRes::Err(_)) {
                let what = ["get", "get_one", "generate_inclusion_proof"][what];
                let mut x = self.viol(&["C12"], "wrong_kind", format!("{what} across a node of the wrong kind (position {at} of {}): {b}", path.len()));
                x.cond.clear();
                return Err(x);
            }
        }
        if !is_data {
            // an insert that has to cross it must fail as well, and leave nothing
            lock(&self.insts[0].disk).arm(&[], limit);
            let r = self.with(0, |s| s.insert(Some(&v.root), &keyv, &[val]));
            if !matches!(r, CallRes::Err(_)) {
                let b = r.brief();
                return Err(self.viol(&["C12"], "wrong_kind", format!("insert across a node of the wrong kind (position {at} of {}): {b}", path.len())));
            }
        }
        lock(&self.insts[0].disk).disarm();
        lock(&self.insts[0].disk).map.insert(target, saved);
        let depth = self.insts[0].depth;
        let _ = self.open_inst(0, depth);
        if !is_data && !spec.backend.atomic() {
            self.insts[0].leaky = true;
        }
        Ok(())
    }

    // ---------------------------------------------------------------- run

    /// Goes on with the other handle of a storage.
    fn alternate(&mut self) -> V<()> {
        for i in 0..self.insts.len() {
            let inst = &self.insts[i];
            if !matches!(inst.spec.backend, Backend::Sim(_)) || inst.store.is_none() || mix(self.scn.hash_seed, self.step as u64) % 3 == 0 {
                continue;
            }
            if self.insts[i].spare.is_none() {
                let (spec, disk, depth, w) = (inst.spec, inst.disk.clone(), inst.depth, self.w);
                match call(|| w.open(spec, depth, &disk)) {
                    CallRes::Ok(s) => self.insts[i].spare = Some(s),
                    r => {
                        let b = r.brief();
                        return Err(self.viol(&["C16"], "open", format!("opening a second handle: {b}")));
                    }
                }
            }
            let inst = &mut self.insts[i];
            std::mem::swap(&mut inst.store, &mut inst.spare);
            self.stats.add("handle_switches", 1);
        }
        Ok(())
    }

    fn do_op(&mut self, op: &Op) -> V<()> {
        if self.scn.params.get(3) == Some(&1) {
            self.alternate()?;
        }
        if self.damaged && op.name != "damage" {
            return self.do_damaged(op);
        }
        match op.name.as_str() {
            "insert" => self.do_insert(op),
            "remove" => self.do_remove(op),
            "retry" => self.do_retry(),
            "split" => self.do_split(op),
            "storm" => self.do_storm(op),
            "mutants" => self.do_mutants(op),
            "get" | "get_one" | "prove" => self.do_read(op),
            "get_odd" => self.do_read_odd(op),
            "bad_len" | "bad_empty" | "bad_dup" | "bad_root" => self.do_bad(op),
            "rm_unknown" => self.do_rm_unknown(op),
            "reopen" | "handover" => self.do_reopen(op),
            "crash" => {
                if self.insts.len() == 1 {
                    let p = op.arg(0);
                    self.crash(0, (p > 0).then(|| (p - 1) as u32))
                } else {
                    Ok(())
                }
            }
            "damage" => self.do_damage(op),
            "wrong_kind" => self.do_wrong_kind(op),
            _ => Ok(()),
        }
    }

    fn drain(&mut self) -> V<()> {
        // deep limits first, so that nothing is refused
        let mut rng = Rng::new(self.scn.params.get(2).copied().unwrap_or(0));
        let ops: Vec<(Bytes, u32)> = self.model.vers.iter().map(|v| (v.root.clone(), v.holds)).collect();
        let mut list: Vec<Bytes> = Vec::new();
        for (r, h) in ops {
            for _ in 0..h {
                list.push(r.clone());
            }
        }
        rng.shuffle(&mut list);
        if list.len() > 100 && self.insts.len() == 1 && self.insts[0].store.is_some() {
            // nearly all at once, the last ones with all checks
            let rest = list.split_off(list.len() - 8);
            for r in list {
                let m = Mut::Remove { root: r.clone() };
                self.exec_mut(0, &m, &[])?;
                self.drop_hold(&r);
            }
            self.check_storage(0)?;
            self.audit(None, false)?;
            list = rest;
        }
        for r in list {
            self.step += 1;
            self.say(|| format!("drain: remove {}", short(&r)));
            self.apply(&Mut::Remove { root: r }, &[])?;
        }
        self.stats.add("drains", 1);
        for i in 0..self.insts.len() {
            if self.insts[i].leaky {
                continue;
            }
            if let Some(d) = self.dump(i)? {
                if !d.is_empty() {
                    let v = self.viol(&["C04"], "not_empty", format!("{} nodes are left after the last version was removed", d.len()));
                    self.note(v)?;
                }
            }
        }
        Ok(())
    }

    fn run_ops(&mut self) -> V<()> {
        for &b in &self.scn.backends {
            let disk = self.new_disk();
            self.insts.push(Inst { spec: Spec { backend: b, n: self.scn.n }, disk, store: None, spare: None, depth: self.scn.depth as usize, leaky: false });
        }
        let image = self.scn.image.and_then(|i| crate::golden::all(self.w).get(i));
        if let Some(g) = image {
            lock(&self.insts[0].disk).preload(&g.recs);
        }
        for i in 0..self.insts.len() {
            let depth = self.insts[i].depth;
            match self.open_inst(i, depth) {
                CallRes::Ok(()) => {}
                r => return Err(self.viol(&["C01", "C02", "C16"], "open", format!("opening a new store: {}", r.brief()))),
            }
        }
        if let Some(g) = image {
            self.inherit(g)?;
        }
        self.record_boundary(0)?;
        for j in 0..self.scn.ops.len() {
            let scn = self.scn;
            let op = &scn.ops[j];
            self.step = j;
            self.say(|| format!("step {j}: {}", op_text(op)));
            self.stats.add("ops", 1);
            self.do_op(op)?;
            self.record_boundary(0)?;
            for i in 0..self.insts.len() {
                let d = if self.insts[i].spec.backend.on_disk() {
                    let d = lock(&self.insts[i].disk);
                    mix(d.digest, d.total_calls)
                } else {
                    0
                };
                self.fold(d);
            }
            if let Some(b) = self.boundaries.last() {
                self.stats.states.push(b.0);
            }
        }
        if self.damaged {
            return Ok(());
        }
        self.step = self.scn.ops.len();
        self.audit(None, true)?;
        self.compare_storages()?;
        if self.scn.params.first().copied().unwrap_or(0) == 1 {
            self.drain()?;
        }
        Ok(())
    }

    /// Takes over a store that the released version wrote.
    fn inherit(&mut self, g: &Golden) -> V<()> {
        for (root, holds, content) in &g.vers {
            let content = Rc::new(content.clone());
            self.stats.add("inherited_versions", 1);
            if let Some(c) = self.canonical(&content) {
                if c != *root {
                    let d = format!("the map that had root {} in the released version has {} now", short(root), short(&c));
                    return Err(self.viol(&["C22"], "root_changed", d));
                }
            }
            self.model.vers.push(Ver { root: root.clone(), content: content.clone(), holds: *holds });
            self.all_roots.insert(root.clone(), content);
        }
        for (v, k, p) in &g.proofs {
            let (root, _, content) = &g.vers[*v];
            let (w, spec, key, val) = (self.w, self.insts[0].spec, self.key(*k), self.val(content[k]));
            self.stats.add("inherited_proofs", 1);
            match call(|| w.verify(spec, root, key, val, p)) {
                CallRes::Ok(()) => {}
                r => {
                    let d = format!("a proof of the released version for {} under {}: {}", short(key), short(root), r.brief());
                    return Err(self.viol(&["C22"], "proof_refused", d));
                }
            }
        }
        if (self.scn.seed >> 8) % 3 > 0 {
            self.audit(None, true)?;
        }
        Ok(())
    }

    /// Runs the history and gives what it left.
    pub fn record(mut self) -> Result<Golden, String> {
        self.run_ops().map_err(|v| format!("{v:?}"))?;
        if let Some(v) = &self.other {
            return Err(format!("{v:?}"));
        }
        let recs = lock(&self.insts[0].disk).map.clone().into_iter().collect();
        let mut g = Golden { scn: self.scn.clone(), recs, vers: Vec::new(), proofs: Vec::new() };
        for (j, v) in self.model.vers.clone().iter().enumerate() {
            g.vers.push((v.root.clone(), v.holds, (*v.content).clone()));
            for &k in v.content.keys().step_by(1 + v.content.len() / 3) {
                let key = self.key(k).clone();
                match self.with(0, |s| s.prove(&v.root, &key)) {
                    CallRes::Ok(p) => g.proofs.push((j, k, p)),
                    r => return Err(r.brief()),
                }
            }
        }
        self.insts.clear();
        Ok(g)
    }

    fn compare_storages(&mut self) -> V<()> {
        if self.insts.len() < 2 {
            return Ok(());
        }
        let mut first: Option<(usize, Vec<Bytes>)> = None;
        for i in 0..self.insts.len() {
            if let Some(d) = self.dump(i)? {
                let keys: Vec<Bytes> = d.into_keys().collect();
                match &first {
                    None => first = Some((i, keys)),
                    Some((_, f)) if *f != keys => {
                        let v = self.viol(&["C16"], "backends_differ", "backends hold different nodes after the same history".into());
                        self.note(v)?;
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    pub fn run(mut self) -> RunResult {
        let r = self.run_ops();
        let mut violation = None;
        if let Err(v) = r {
            if self.relevant(&v) {
                violation = Some(v);
            } else if self.other.is_none() {
                self.other = Some(v);
            }
        }
        for i in 0..self.insts.len() {
            self.drain_disk_trace(i);
        }
        self.insts.clear();
        RunResult { violation, other: self.other, digest: self.digest, stats: self.stats, trace: self.trace }
    }
}

struct Sub {
    min: Bytes,
    max: Bytes,
    count: u64,
}
impl Clone for Sub {
    fn clone(&self) -> Self {
        Sub { min: self.min.clone(), max: self.max.clone(), count: self.count }
    }
}

fn subtree<'d>(dump: &'d Dump, loc: &'d [u8], memo: &mut HashMap<&'d [u8], Option<Sub>>, out: &mut Vec<String>, depth: usize) -> Option<Sub> {
    if let Some(s) = memo.get(loc) {
        return s.clone();
    }
    memo.insert(loc, None);
    if depth > 1000 {
        out.push("links form a cycle or too deep a tree".into());
        return None;
    }
    let node = dump.get(loc)?;
    let r = match &node.kind {
        NodeKind::Data { .. } => None,
        NodeKind::Leaf { key, data } => {
            match dump.get(data).map(|n| &n.kind) {
                Some(NodeKind::Data { .. }) => {}
                Some(_) => out.push(format!("leaf {}: its data location holds another kind of node", short(loc))),
                None => out.push(format!("leaf {}: its data node is not in storage", short(loc))),
            }
            Some(Sub { min: key.clone(), max: key.clone(), count: 1 })
        }
        NodeKind::Branch { count, zero, one, split, key } => {
            let mut sides = Vec::new();
            for (name, child) in [("zero", zero), ("one", one)] {
                match dump.get(child) {
                    None => out.push(format!("branch {}: its {name} child is not in storage", short(loc))),
                    Some(n) if matches!(n.kind, NodeKind::Data { .. }) => {
                        out.push(format!("branch {}: its {name} child is a data node", short(loc)));
                    }
                    Some(_) => {
                        let (k, _) = dump.get_key_value(child).expect("present");
                        sides.push(subtree(dump, k, memo, out, depth + 1));
                    }
                }
            }
            if let [Some(z), Some(o)] = &sides[..] {
                let split = *split as usize;
                if lcp(&z.min, &o.max) != split || bit(&z.min, split) || !bit(&o.max, split) {
                    out.push(format!("branch {}: split position {split} is not the first at which the keys below differ ({})", short(loc), lcp(&z.min, &o.max)));
                } else if lcp(&z.min, &z.max) <= split && z.count > 1 || lcp(&o.min, &o.max) <= split && o.count > 1 {
                    out.push(format!("branch {}: a key is on the wrong side", short(loc)));
                } else if lcp(key, &z.min) < split {
                    out.push(format!("branch {}: its key does not share the prefix of the keys below", short(loc)));
                } else if *count != z.count + o.count {
                    out.push(format!("branch {}: count {count} but {} leaves below", short(loc), z.count + o.count));
                }
                Some(Sub { min: z.min.clone(), max: o.max.clone(), count: z.count + o.count })
            } else {
                None
            }
        }
    };
    memo.insert(loc, r.clone());
    r
}

/// Collects the nodes and pairs under a root; false if something is missing.
fn walk<'d>(dump: &'d Dump, root: &[u8], reach: &mut BTreeSet<&'d [u8]>, pairs: &mut BTreeMap<&'d [u8], &'d [u8]>) -> bool {
    let mut stack: Vec<Bytes> = vec![root.to_vec()];
    let mut steps = 0;
    while let Some(l) = stack.pop() {
        steps += 1;
        if steps > 4 * dump.len() + 4 {
            return false;
        }
        let Some((k, n)) = dump.get_key_value(&l) else { return false };
        reach.insert(k);
        match &n.kind {
            NodeKind::Branch { zero, one, .. } => {
                stack.push(zero.clone());
                stack.push(one.clone());
            }
            NodeKind::Leaf { key, data } => {
                let Some((dk, dn)) = dump.get_key_value(data) else { return false };
                reach.insert(dk);
                let NodeKind::Data { value } = &dn.kind else { return false };
                pairs.insert(key, value);
            }
            NodeKind::Data { .. } => return false,
        }
    }
    true
}

/// A damaged copy of a record.
pub fn damage_bytes(b: &[u8], salt: u32) -> Bytes {
    let mut rng = Rng::new(u64::from(salt));
    let mut v = b.to_vec();
    if v.is_empty() {
        return v;
    }
    match rng.below(4) {
        0 | 1 => {
            for _ in 0..rng.range(1, 3) {
                let i = rng.idx(v.len());
                v[i] ^= 1 << rng.below(8);
            }
        }
        2 => v.truncate(rng.idx(v.len())),
        _ => {
            let i = rng.idx(v.len());
            let n = rng.range(1, 8).min(v.len() - i);
            for x in &mut v[i..i + n] {
                *x = rng.u64() as u8;
            }
        }
    }
    v
}

pub fn unused(_: Outcome) {}
