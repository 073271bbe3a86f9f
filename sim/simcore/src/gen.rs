//! Seeded scenario generation: one profile per property.
use crate::scenario::{Fault, On, Op, Scenario};
use crate::store::{Backend, Bytes, World};
use crate::{Call, FaultKind, Rng};
use std::collections::BTreeSet;

pub const BIG: u64 = 5000;

pub fn gen_keys(rng: &mut Rng, n: usize, count: usize) -> Vec<Bytes> {
    let mut out: Vec<Bytes> = Vec::new();
    let mut seen = BTreeSet::new();
    let mut style = rng.weighted(&[20, 35, 12, 12, 8, 13]);
    let mixed = style == 5;
    let base: Bytes = match rng.below(4) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        _ => (0..n).map(|_| rng.u64() as u8).collect(),
    };
    let bits = 8 * n;
    let special = |rng: &mut Rng| -> usize {
        match rng.below(7) {
            0 => rng.idx(9.min(bits)),
            1 => bits - 1 - rng.idx(9.min(bits)),
            2 => (8 * rng.idx(n)).min(bits - 1),
            3 => (8 * rng.idx(n) + 7).min(bits - 1),
            4 => (8 * rng.idx(n) + rng.idx(3)).min(bits - 1),
            _ => rng.idx(bits),
        }
    };
    // a few active bits, so that prefixes are shared in all ways
    let mut nb = 2;
    while (1_usize << nb) < 2 * count && nb < 10 {
        nb += 1;
    }
    nb = nb.min(bits).max(2);
    let mut active: Vec<usize> = Vec::new();
    if rng.chance(1, 3) {
        let start = special(rng).min(bits - nb);
        active.extend(start..start + nb);
    } else {
        let stride = *rng.pick(&[0, 1, 4, 7, 8, 9, 16]);
        let start = special(rng);
        for i in 0..nb {
            active.push(if stride == 0 { special(rng) } else { (start + i * stride) % bits });
        }
    }
    let chain_start = rng.idx(bits);
    let chain_step = *rng.pick(&[1, 1, 2, 3, 7, 8, 9]);
    let seq_at = rng.idx(n.max(2) - 1);
    let mut tries = 0;
    while out.len() < count && tries < count * 20 + 50 {
        tries += 1;
        if mixed || tries > count * 10 {
            style = rng.idx(5);
        }
        let mut k = base.clone();
        match style {
            1 => {
                for &b in &active {
                    if rng.chance(1, 2) {
                        k[b / 8] ^= 128 >> (b % 8);
                    }
                }
            }
            2 => {
                let b = (chain_start + out.len() * chain_step) % bits;
                k[b / 8] ^= 128 >> (b % 8);
            }
            3 => {
                let c = (out.len() + tries / 3) as u16;
                let [h, l] = c.to_be_bytes();
                k[seq_at] ^= h;
                k[(seq_at + 1).min(n - 1)] ^= l;
            }
            4 => {
                let fill = *rng.pick(&[0x00, 0xFF, 0x7F, 0x80, 0x01, 0xFE]);
                k = vec![fill; n];
                if rng.chance(2, 3) {
                    let i = *rng.pick(&[0, n - 1, n / 2]);
                    k[i] = *rng.pick(&[0x00, 0xFF, 0x7F, 0x80, 0x01, 0xFE]);
                }
            }
            _ => k = (0..n).map(|_| rng.u64() as u8).collect(),
        }
        if seen.insert(k.clone()) {
            out.push(k);
        }
    }
    if out.is_empty() {
        out.push(base);
    }
    out
}

pub fn gen_vals(rng: &mut Rng, keys: &[Bytes]) -> Vec<Bytes> {
    let count = *rng.pick(&[2, 4, 8, 24]);
    let mut out: Vec<Bytes> = Vec::new();
    let mut seen = BTreeSet::new();
    for i in 0..count {
        let v = match rng.below(14) {
            0 => Vec::new(),
            12 | 13 if !out.is_empty() => twin(rng, &out),
            1 => keys[rng.idx(keys.len())].clone(),
            2 => vec![0; rng.range(1, 9)],
            3 => {
                let big = if rng.chance(1, 150) { *rng.pick(&[131_073, 262_145, 1_048_577]) } else if rng.chance(1, 12) { *rng.pick(&[32_767, 65_535, 65_536, 70_000]) } else { *rng.pick(&[127, 128, 255, 256, 1000, 1025, 4096, 5000]) };
                vec![rng.u64() as u8; big]
            }
            4 => {
                let mut v = out.last().cloned().unwrap_or_default();
                v.push(rng.u64() as u8);
                v
            }
            5 => (0..rng.range(1, 40)).map(|_| rng.u64() as u8).collect(),
            _ => format!("v{i}").into_bytes(),
        };
        if seen.insert(v.clone()) {
            out.push(v);
        }
    }
    out
}

/// A value that differs as little as possible from one (preferably long) there is already.
fn twin(rng: &mut Rng, out: &[Bytes]) -> Bytes {
    let mut v = if rng.chance(1, 2) { out.iter().max_by_key(|v| v.len()).unwrap().clone() } else { out[rng.idx(out.len())].clone() };
    if v.is_empty() {
        return vec![0];
    }
    let last = v.len() - 1;
    match rng.below(5) {
        0 => v[last] ^= 1 << rng.below(8),
        1 => v[0] ^= 1 << rng.below(8),
        2 => {
            let i = rng.idx(v.len());
            v[i] ^= 1 << rng.below(8);
        }
        3 => v.push(0),
        _ => {
            v.pop();
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum FaultMode {
    None,
    Errors,
    Crashes,
    Mixed,
    Lying,
}

struct Profile {
    /// insert remove get get_one prove retry split mutants bad rm_unknown reopen handover crash damage wrong_kind
    w: [u32; 15],
    faults: FaultMode,
    /// chance of a fault per operation, per cent
    rate: u64,
    depth_play: bool,
    drain: u64,
    scale: u64,
}

fn fault_kind(rng: &mut Rng, mode: FaultMode, write: bool) -> FaultKind {
    let crash = |rng: &mut Rng| match rng.below(8) {
        0..=2 => FaultKind::CrashBefore,
        3..=5 => FaultKind::CrashAfter,
        _ => FaultKind::PowerLoss(*rng.pick(&[0, 1, 1, 2, 3, 6, 20])),
    };
    let err = |rng: &mut Rng| if write && rng.chance(1, 6) { FaultKind::ErrApplied } else { FaultKind::Err };
    match mode {
        FaultMode::Crashes => crash(rng),
        FaultMode::Mixed => {
            if rng.chance(1, 2) {
                crash(rng)
            } else {
                err(rng)
            }
        }
        FaultMode::Lying => match rng.below(4) {
            0 => FaultKind::Err,
            1 => FaultKind::ReadMissing,
            _ => FaultKind::ReadDamaged(rng.u64() as u32),
        },
        _ => err(rng),
    }
}

fn gen_faults(rng: &mut Rng, mode: FaultMode, backend: Backend, write: bool) -> Vec<Fault> {
    let mut v = Vec::new();
    let n = if rng.chance(1, 6) { 2 } else { 1 };
    for _ in 0..n {
        let codec = !backend.on_disk() || (mode != FaultMode::Crashes && rng.chance(1, 8));
        if codec {
            v.push(Fault {
                on: if write { On::Encode } else { On::Decode },
                at: rng.below(1000) as u32,
                span: *rng.pick(&[1, 1, 1, 3, 1_000_000]),
                kind: FaultKind::Err,
            });
            continue;
        }
        let on = if mode == FaultMode::Lying {
            *rng.pick(&[On::Any, On::Call(Call::Read)])
        } else if write {
            *rng.pick(&[On::Any, On::Any, On::Call(Call::Read), On::Call(Call::Commit), On::Call(Call::Commit), On::Call(Call::Put), On::Call(Call::Delete)])
        } else {
            *rng.pick(&[On::Any, On::Call(Call::Read)])
        };
        let kind = fault_kind(rng, mode, write);
        let span = if matches!(kind, FaultKind::Err) { *rng.pick(&[1, 1, 1, 2, 1_000_000]) } else { 1 };
        v.push(Fault { on, at: rng.below(1000) as u32, span, kind });
    }
    v
}

const NAMES: [&str; 15] = [
    "insert", "remove", "get", "get_one", "prove", "retry", "split", "mutants", "bad", "rm_unknown", "reopen", "handover",
    "crash", "damage", "wrong_kind",
];

fn profile(prop: &str, rng: &mut Rng) -> Profile {
    // insert remove get get_one prove retry split mutants bad rm_unknown reopen handover crash damage wrong_kind
    let mut p = Profile { w: [50, 18, 6, 4, 4, 0, 2, 0, 2, 1, 2, 1, 0, 0, 0], faults: FaultMode::None, rate: 0, depth_play: false, drain: 50, scale: 3 };
    match prop {
        "C01" => {
            if rng.chance(1, 3) {
                p.faults = FaultMode::Mixed;
                p.rate = 12;
                p.w[12] = 3;
                p.w[5] = 4;
            }
            p.drain = 10;
        }
        "C02" => {
            p.w = [45, 25, 6, 4, 3, 3, 1, 0, 3, 1, 3, 1, 3, 0, 0];
            if rng.chance(1, 2) {
                p.faults = FaultMode::Mixed;
                p.rate = 20;
            }
            p.drain = 30;
        }
        "C03" => {
            p.w = [55, 15, 0, 0, 0, 2, 8, 8, 1, 0, 2, 1, 1, 0, 0];
            if rng.chance(1, 4) {
                p.faults = FaultMode::Mixed;
                p.rate = 12;
            }
            p.drain = 10;
        }
        "C04" => {
            p.w = [50, 32, 1, 0, 0, 2, 5, 0, 3, 1, 2, 1, 0, 0, 0];
            if rng.chance(1, 4) {
                p.faults = FaultMode::Errors;
                p.rate = 12;
            }
            p.drain = 85;
        }
        "C05" => {
            p.w = [48, 26, 1, 1, 1, 2, 1, 0, 1, 0, 3, 1, 8, 0, 0];
            p.faults = if rng.chance(3, 4) { FaultMode::Crashes } else { FaultMode::Mixed };
            p.rate = *rng.pick(&[15, 30, 50]);
            p.drain = 50;
            p.scale = 2;
        }
        "C06" => {
            p.w = [36, 18, 14, 10, 10, 4, 0, 0, 1, 0, 5, 1, 1, 0, 0];
            p.faults = FaultMode::Errors;
            p.rate = *rng.pick(&[25, 50, 70]);
            p.drain = 10;
            p.scale = 2;
        }
        "C07" => {
            p.w = [46, 24, 2, 1, 1, 22, 1, 0, 2, 0, 2, 1, 1, 0, 0];
            p.faults = FaultMode::Errors;
            p.rate = *rng.pick(&[25, 45]);
            p.drain = 70;
            p.scale = 2;
        }
        "C08" => {
            p.w = [36, 16, 2, 1, 1, 0, 1, 0, 34, 6, 3, 2, 0, 0, 0];
            p.depth_play = rng.chance(1, 3);
            p.drain = 60;
        }
        "C09" => {
            p.w = [45, 22, 1, 0, 22, 2, 1, 0, 1, 0, 5, 2, 3, 0, 0];
            if rng.chance(1, 2) {
                p.faults = FaultMode::Mixed;
                p.rate = 20;
            }
            p.drain = 10;
        }
        "C12" => {
            p.w = [40, 10, 2, 2, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 14];
            p.faults = FaultMode::None;
            p.drain = 0;
            p.scale = 1;
        }
        "C13" => {
            p.w = [55, 22, 1, 0, 0, 3, 3, 0, 3, 0, 2, 1, 4, 0, 0];
            if rng.chance(1, 2) {
                p.faults = FaultMode::Mixed;
                p.rate = 20;
            }
            p.drain = 30;
        }
        "C14" => {
            p.w = [46, 18, 6, 4, 6, 2, 1, 0, 1, 0, 14, 2, 6, 0, 0];
            if rng.chance(1, 2) {
                p.faults = FaultMode::Mixed;
                p.rate = 12;
            }
            p.drain = 50;
            p.scale = 2;
        }
        "C15" => {
            p.w = [48, 20, 5, 4, 6, 1, 4, 4, 2, 0, 4, 1, 2, 0, 0];
            if rng.chance(1, 3) {
                p.faults = FaultMode::Mixed;
                p.rate = 12;
            }
            p.drain = 60;
        }
        "C16" => {
            p.w = [48, 22, 6, 4, 5, 0, 3, 0, 6, 2, 8, 6, 0, 0, 0];
            p.depth_play = rng.chance(1, 5);
            p.drain = 60;
        }
        "C17" => {
            p.w = [40, 12, 30, 6, 1, 0, 16, 0, 1, 0, 2, 1, 0, 0, 0];
            p.drain = 10;
        }
        "C18" => {
            p.w = [34, 8, 16, 10, 14, 0, 1, 0, 1, 0, 14, 6, 0, 0, 0];
            p.depth_play = true;
            p.drain = 10;
            p.scale = 2;
        }
        "C22" => {
            p.w = [40, 22, 8, 6, 8, 3, 1, 2, 2, 1, 6, 3, 4, 0, 0];
            if rng.chance(1, 3) {
                p.faults = FaultMode::Mixed;
                p.rate = 12;
            }
            p.drain = 60;
            p.scale = 0;
        }
        "C21" => {
            p.w = [52, 18, 8, 12, 12, 0, 1, 0, 0, 0, 2, 0, 0, 0, 0];
            p.drain = 40;
            p.scale = 30;
        }
        _ => {}
    }
    p
}

pub fn pick_n(rng: &mut Rng) -> usize {
    *rng.pick(&[7, 7, 8, 8, 20, 20, 32, 32, 32, 32, 32, 32, 40, 72])
}

fn pick_backends(prop: &str, rng: &mut Rng, avail: &[Backend]) -> Vec<Backend> {
    let sims: Vec<Backend> = avail.iter().copied().filter(|b| matches!(b, Backend::Sim(_))).collect();
    let atomic: Vec<Backend> = avail.iter().copied().filter(|b| b.atomic()).collect();
    let rocks = avail.contains(&Backend::Rocks);
    match prop {
        "C05" | "C07" => {
            if rocks && rng.chance(3, 5) {
                vec![Backend::Rocks]
            } else {
                vec![*rng.pick(&atomic)]
            }
        }
        "C06" | "C12" => {
            if rocks && rng.chance(1, 2) {
                vec![Backend::Rocks]
            } else if prop == "C06" && rng.chance(1, 8) {
                vec![Backend::Hash]
            } else {
                vec![*rng.pick(&sims)]
            }
        }
        "C21" => vec![if rocks && rng.chance(1, 3) { Backend::Rocks } else { *rng.pick(&sims) }],
        "C14" => vec![if rocks { Backend::Rocks } else { *rng.pick(&sims) }],
        "C16" => {
            let mut v = vec![Backend::Hash];
            if rocks {
                v.push(Backend::Rocks);
            }
            v.push(*rng.pick(&sims));
            v.push(*rng.pick(&sims));
            if rng.chance(1, 3) {
                v.push(Backend::HashWrap);
            }
            v
        }
        _ => match rng.below(10) {
            0..=2 => vec![Backend::Hash],
            3 => vec![Backend::HashWrap],
            4..=6 if rocks => vec![Backend::Rocks],
            _ => vec![*rng.pick(&sims)],
        },
    }
}

fn insert_op(rng: &mut Rng, nkeys: usize, nvals: usize) -> Op {
    let prev = if rng.chance(1, 7) { 0 } else { 1 + if rng.chance(2, 3) { 0 } else { rng.below(8) } };
    let one = rng.chance(1, 4);
    let size = if one {
        1
    } else {
        match rng.below(10) {
            0..=3 => 1 + rng.idx(3),
            4..=7 => 1 + rng.idx(nkeys.min(10)),
            _ => 1 + rng.idx(nkeys),
        }
    };
    let items = pick_items(rng, nkeys, nvals, size);
    Op::new("insert", &[prev, u64::from(one)], items)
}

pub fn pick_items(rng: &mut Rng, nkeys: usize, nvals: usize, size: usize) -> Vec<(u32, u32)> {
    let mut ks: Vec<u32> = (0..nkeys as u32).collect();
    rng.shuffle(&mut ks);
    ks.truncate(size.clamp(1, nkeys));
    ks.into_iter().map(|k| (k, rng.below(nvals as u64) as u32)).collect()
}

fn pools(w: &dyn World, rng: &mut Rng, n: usize, nkeys: usize) -> (Vec<Bytes>, Vec<Bytes>) {
    if w.weak_hash() {
        // nothing structured, which such a hash need not keep apart, but for neighbours that differ in
        // a single byte: those it does (each word goes through a bijection), unless it is cut short
        let twins = n >= 8 && rng.chance(1, 2);
        let mut random = |count: usize, most: usize, fixed: bool| -> Vec<Bytes> {
            let mut out: Vec<Bytes> = Vec::new();
            for _ in 0..count {
                let new = if twins && !out.is_empty() && rng.chance(1, 2) {
                    let mut v = out[rng.idx(out.len())].clone();
                    let i = rng.idx(v.len());
                    v[i] ^= rng.range(1, 255) as u8;
                    v
                } else {
                    let len = if fixed { most } else { rng.range(12, most) };
                    (0..len).map(|_| rng.u64() as u8).collect()
                };
                if !out.contains(&new) {
                    out.push(new);
                }
            }
            out
        };
        (random(nkeys, n, true), random(nkeys.min(12), 40, false))
    } else {
        let keys = gen_keys(rng, n, nkeys);
        let mut vals = gen_vals(rng, &keys);
        vals.retain(|v| v.len() * keys.len() <= 16 << 20);
        if vals.is_empty() {
            vals.push(vec![1]);
        }
        (keys, vals)
    }
}

fn any_depth(rng: &mut Rng, n: usize) -> u64 {
    *rng.pick(&[BIG, BIG, u64::MAX / 2, 8 * n as u64])
}

fn scenario(w: &dyn World, prop: &str, engine: &str, seed: u64, rng: &mut Rng, n: usize, keys: Vec<Bytes>, vals: Vec<Bytes>) -> Scenario {
    Scenario {
        prop: prop.into(),
        variant: w.variant().into(),
        engine: engine.into(),
        seed,
        hash_seed: rng.u64(),
        n,
        depth: any_depth(rng, n),
        backends: Vec::new(),
        params: Vec::new(),
        keys,
        vals,
        ops: Vec::new(),
        image: None,
    }
}

/// The longest paths there can be: keys that leave a base key at every bit, or at nearly every.
fn deep_keys(rng: &mut Rng, n: usize) -> Vec<Bytes> {
    let base: Bytes = match rng.below(3) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        _ => (0..n).map(|_| rng.u64() as u8).collect(),
    };
    let gaps = if rng.chance(1, 2) { 0 } else { rng.range(1, 40) };
    let mut keys = vec![base.clone()];
    for b in 0..8 * n {
        if rng.below(100) >= gaps as u64 {
            let mut k = base.clone();
            k[b / 8] ^= 128 >> (b % 8);
            keys.push(k);
        }
    }
    keys
}

/// Provers, verifiers and a liar on a network.
fn gen_proofs(w: &dyn World, prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed ^ 0x9F00_F5);
    let n = pick_n(&mut rng);
    let nkeys = if rng.chance(1, 100) { rng.range(100, 600) } else { *rng.pick(&[1, 2, 3, 4, 6, 8, 12, 16, 24, 40]) };
    let (mut keys, mut vals) = pools(w, &mut rng, n, nkeys);
    if nkeys < 100 && rng.chance(1, 60) && !w.weak_hash() {
        keys = deep_keys(&mut rng, n);
    }
    let long = keys.len() > 60;
    let mut planted = 0;
    if prop == "C10" && rng.chance(1, 2) {
        // keys and values that equal hashes of the liar's trees
        planted = 1 + rng.below(2);
        for i in 0..planted {
            let (k, v) = crate::proofs::ghost_pair(n, seed, i);
            let spec = crate::store::Spec { backend: Backend::Hash, n };
            let disk = crate::SharedDisk::default();
            let r = crate::run::call(|| {
                let mut s = w.open(spec, 8 * n + 8, &disk)?;
                let root = s.insert(None, &[k.clone()], &[v.clone()])?;
                let p = s.prove(&root, &k)?;
                Ok((root, p))
            });
            let crate::run::CallRes::Ok((root, p)) = r else { continue };
            let h = if rng.chance(3, 4) || p.is_empty() { root.clone() } else { p[0].0.clone() };
            if !keys.contains(&h) {
                keys.push(h.clone());
            }
            if !vals.contains(&h) && rng.chance(1, 2) {
                vals.push(h);
            }
        }
    }
    let (nk, nv) = (keys.len(), vals.len());
    let mut s = scenario(w, prop, "proofs", seed, &mut rng, n, keys, vals);
    let provers = rng.range(1, 3);
    let avail = w.backends();
    for _ in 0..rng.range(provers, 5) {
        let b = match rng.below(6) {
            0 => Backend::Hash,
            1 => Backend::HashWrap,
            2 if avail.contains(&Backend::Rocks) => Backend::Rocks,
            _ => *rng.pick(&avail),
        };
        s.backends.push(b);
    }
    let provers = provers as u64;
    s.params = vec![provers, 0, planted];
    let nops = *rng.pick(&[4, 8, 14, 24, 40]);
    let lossy = u64::from(rng.chance(2, 3));
    // insert remove ask crash attack
    let wts: [u32; 5] = if prop == "C10" { [24, 6, 24, 2, 44] } else { [34, 14, 40, 6, if prop == "C15" { 8 } else { 0 }] };
    for _ in 0..nops {
        let p = rng.below(provers);
        match rng.weighted(&wts) {
            0 => {
                let mut op = insert_op(&mut rng, nk, nv);
                op.a.insert(0, p);
                s.ops.push(op);
            }
            1 => s.ops.push(Op::new("remove", &[p, rng.below(6)], vec![])),
            2 => {
                let items = pick_items(&mut rng, nk, 1, 1 + (seed % 5) as usize);
                let net = if rng.chance(1, 6) { 0 } else { rng.u64() >> 1 };
                s.ops.push(Op::new("ask", &[p, rng.below(6), rng.below(5), net, lossy], items));
            }
            3 => s.ops.push(Op::new("crash", &[p], vec![])),
            _ => {
                for _ in 0..rng.range(1, 6) {
                    let kind = if planted > 0 && rng.chance(1, 4) { 28 } else { rng.below(30) };
                    s.ops.push(Op::new("attack", &[kind, rng.u64() >> 1, rng.below(5)], vec![]));
                }
            }
        }
    }
    for p in (0..provers).rev() {
        let mut op = insert_op(&mut rng, nk, nv);
        if long && rng.chance(2, 3) {
            op.items = pick_items(&mut rng, nk, nv, nk);
            op.a[1] = 0;
        }
        op.a.insert(0, p);
        s.ops.insert(0, op);
    }
    if prop == "C10" {
        let items = pick_items(&mut rng, nk, 1, nk.min(12));
        s.ops.push(Op::new("ask", &[0, 0, 0, 0, 0], items));
        s.ops.push(Op::new("wait", &[], vec![]));
        s.ops.push(Op::new("wait", &[], vec![]));
        for _ in 0..rng.range(4, 24) {
            let kind = if planted > 0 && rng.chance(1, 4) { 28 } else { rng.below(30) };
            s.ops.push(Op::new("attack", &[kind, rng.u64() >> 1, rng.below(5)], vec![]));
        }
    }
    s
}

/// Replicas fed by a lossy network.
fn gen_replicas(w: &dyn World, prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed ^ 0x4E_9717);
    let n = pick_n(&mut rng);
    let nkeys = if rng.chance(1, 100) { rng.range(100, 400) } else { *rng.pick(&[1, 2, 3, 4, 6, 8, 12, 16, 24, 40]) };
    let (keys, vals) = pools(w, &mut rng, n, nkeys);
    let (nk, nv) = (keys.len(), vals.len());
    let mut s = scenario(w, prop, "replicas", seed, &mut rng, n, keys, vals);
    let avail = w.backends();
    let reps = rng.range(2, 4) as u64;
    for _ in 0..reps {
        let b = match rng.below(6) {
            0 => Backend::Hash,
            1 => Backend::HashWrap,
            2 if avail.contains(&Backend::Rocks) => Backend::Rocks,
            _ => *rng.pick(&avail),
        };
        s.backends.push(b);
    }
    s.params = vec![0, rng.u64() >> 1, *rng.pick(&[0, 5, 20, 40]), *rng.pick(&[0, 3, 10, 30])];
    let faulty = rng.chance(1, 2);
    for _ in 0..*rng.pick(&[6, 12, 20, 36]) {
        let r = rng.below(reps);
        match rng.weighted(&[40, 40, 8, if faulty { 6 } else { 0 }, 5]) {
            0 => {
                let c = if rng.chance(1, 20) { nk } else { rng.range(1, nk.min(6)) };
                let items = (0..c).map(|_| (rng.below(nk as u64) as u32, rng.below(nv as u64) as u32)).collect();
                s.ops.push(Op::new("update", &[r], items));
            }
            1 => {
                let mut op = Op::new("apply", &[r, rng.below(32)], vec![]);
                let b = s.backends[r as usize];
                if faulty && b.on_disk() && rng.chance(1, 3) {
                    let on = *rng.pick(&[On::Any, On::Any, On::Call(Call::Read), On::Call(Call::Put), On::Call(Call::Commit)]);
                    let kind = *rng.pick(&[FaultKind::Err, FaultKind::Err, FaultKind::CrashBefore, FaultKind::CrashAfter]);
                    let far = *rng.pick(&[4, 24]);
                    op.faults.push(Fault { on, at: rng.below(far) as u32, span: 1, kind });
                }
                s.ops.push(op);
            }
            2 => s.ops.push(Op::new("gc", &[r, rng.below(8)], vec![])),
            3 => s.ops.push(Op::new("crash", &[r], vec![])),
            _ => s.ops.push(Op::new("cut", &[rng.below(1 << reps), rng.below(30)], vec![])),
        }
    }
    s
}

/// Readers beside one writer.
fn gen_readers(w: &dyn World, prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed ^ 0x4EAD_E45);
    let n = pick_n(&mut rng);
    let nkeys = if rng.chance(1, 60) { rng.range(60, 400) } else { *rng.pick(&[2, 3, 4, 6, 8, 12, 16, 24]) };
    let (keys, vals) = pools(w, &mut rng, n, nkeys);
    let (nk, nv) = (keys.len(), vals.len());
    let mut s = scenario(w, prop, "readers", seed, &mut rng, n, keys, vals);
    let sims: Vec<Backend> = w.backends().into_iter().filter(|b| matches!(b, Backend::Sim(_))).collect();
    s.backends = vec![*rng.pick(&sims)];
    let readers = *rng.pick(&[1, 1, 2, 3]);
    s.params = vec![readers];
    for _ in 0..rng.range(1, 5) {
        let op = insert_op(&mut rng, nk, nv);
        s.ops.push(op);
        if rng.chance(1, 6) {
            s.ops.push(Op::new("remove", &[rng.below(4), 0, 0], vec![]));
        }
    }
    let faulty = rng.chance(1, 3);
    let gap: u64 = *rng.pick(&[0, 1, 2, 5, 15]);
    let nops = *rng.pick(&[3, 6, 10, 16]);
    for _ in 0..nops {
        if rng.chance(1, 2) {
            let mut op = if rng.chance(3, 5) {
                let mut o = insert_op(&mut rng, nk, nv);
                o.name = "w_insert".into();
                o
            } else {
                Op::new("w_remove", &[rng.below(8), 0], vec![])
            };
            if faulty && rng.chance(1, 4) {
                if rng.chance(1, 2) {
                    let far = *rng.pick(&[6, 40]);
                    op.a.push(1 + rng.below(far));
                } else {
                    let c = *rng.pick(&[Call::Put, Call::Delete, Call::Commit]);
                    op.faults.push(Fault { on: On::Call(c), at: rng.below(6) as u32, span: 1, kind: FaultKind::Err });
                }
            }
            s.ops.push(op);
        }
        for r in 0..readers {
            if rng.chance(2, 3) {
                let name = *rng.pick(&["r_get", "r_get", "r_one", "r_prove"]);
                let size = if name == "r_get" { rng.range(1, nk) } else { 1 };
                let items = pick_items(&mut rng, nk, 1, size);
                s.ops.push(Op::new(name, &[r, rng.below(6)], items));
            }
        }
    }
    // few switches at chosen calls, or many
    let count = if rng.chance(1, 3) { rng.range(1, 5) } else { rng.range(20, 300) };
    let few = count < 6;
    for _ in 0..count {
        let g = if few { rng.below(60) } else { rng.below(2 * gap + 1) };
        s.ops.push(Op::new("switch", &[g, rng.below(readers + 1)], vec![]));
    }
    s
}

/// Several processes with the same history.
fn gen_fleet(w: &dyn World, prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed ^ 0xF1EE_7000);
    let n = pick_n(&mut rng);
    let nkeys = if rng.chance(1, 20) { rng.range(100, 500) } else { *rng.pick(&[1, 2, 3, 6, 12, 24, 40]) };
    let (keys, vals) = pools(w, &mut rng, n, nkeys);
    let (nk, nv) = (keys.len(), vals.len());
    let mut s = scenario(w, prop, "fleet", seed, &mut rng, n, keys, vals);
    let avail = w.backends();
    for _ in 0..rng.range(1, 2) {
        s.backends.push(*rng.pick(&avail));
    }
    for _ in 0..*rng.pick(&[4, 8, 16, 30]) {
        let op = match rng.below(10) {
            0..=5 => insert_op(&mut rng, nk, nv),
            6 => Op::new("remove", &[rng.below(4)], vec![]),
            _ => Op::new("prove", &[rng.below(4)], vec![(rng.below(64) as u32, 0)]),
        };
        s.ops.push(op);
    }
    s
}

pub fn generate(w: &dyn World, prop: &str, seed: u64) -> Scenario {
    match prop {
        "C03" | "C09" | "C15" if seed % 61 == 7 => return gen_fleet(w, prop, seed),
        "C10" => return gen_proofs(w, prop, seed),
        "C09" if seed % 2 == 0 => return gen_proofs(w, prop, seed),
        "C11" => return gen_readers(w, prop, seed),
        "C03" if seed % 5 == 0 => return gen_replicas(w, prop, seed),
        "C15" if seed % 16 == 0 && !w.weak_hash() => return gen_proofs(w, prop, seed),
        "C15" if seed % 16 == 1 => return gen_replicas(w, prop, seed),
        _ => {}
    }
    let mut rng = Rng::new(seed ^ 0xD1B5_4A32_D192_ED03);
    let p = profile(prop, &mut rng);
    let mut n = pick_n(&mut rng);
    let scale = rng.below(100) < p.scale;
    let images = if prop == "C22" { crate::golden::all(w) } else { &[] };
    let image = (!images.is_empty()).then(|| rng.idx(images.len()));
    let scale = scale && image.is_none();
    let huge = scale && prop != "C12" && if prop == "C21" { rng.chance(1, 3) } else { rng.chance(1, 12) };
    let giant = matches!(prop, "C01" | "C04" | "C13") && rng.chance(1, 10_000);
    // thousands of keys in one call: what is bounded by some "large enough" constant, in every property
    let vast = !scale && !giant && image.is_none() && prop != "C12" && rng.chance(1, if p.faults == FaultMode::None { 2000 } else { 700 });
    let storm = !vast && matches!(prop, "C02" | "C04" | "C13" | "C14" | "C16" | "C05" | "C07" | "C15") && !scale && rng.chance(1, 150);
    let marathon = !scale && !storm && !vast && rng.chance(1, 150);
    let deep = !scale && image.is_none() && !storm && !marathon && !vast && !w.weak_hash() && rng.chance(1, if prop == "C18" { 25 } else { 120 });
    if deep && rng.chance(1, 3) {
        n = if rng.chance(1, 4) { 72 } else { 40 };
    }
    let great_storm = storm && rng.chance(1, 16);
    let nkeys = if giant {
        66_000
    } else if vast {
        let most = if matches!(prop, "C07" | "C16") { 5 } else { 9 };
        [1100, 2100, 2800, 4200, 5100, 8300, 10_500, 12_000, 22_000][rng.idx(most)]
    } else if huge {
        rng.range(600, 2500)
    } else if scale {
        rng.range(120, 400)
    } else if storm {
        rng.range(1, 6)
    } else if marathon {
        rng.range(1, 10)
    } else {
        *rng.pick(&[1, 2, 3, 4, 6, 8, 12, 16, 24, 40])
    };
    let (mut keys, mut vals) = pools(w, &mut rng, n, if giant || vast { 1 } else { nkeys });
    if giant || vast {
        // more leaves than two bytes can count
        keys = (0..nkeys).map(|_| (0..n).map(|_| rng.u64() as u8).collect()).collect();
        keys.sort();
        keys.dedup();
    }
    if deep {
        keys = deep_keys(&mut rng, n);
    }
    // many keys with huge values are more than a worker's memory
    vals.retain(|v| v.len() * keys.len() <= 16 << 20);
    if vals.is_empty() {
        vals.push(vec![1]);
    }
    if storm {
        for i in vals.len()..300 {
            vals.push(format!("storm value {i}").into_bytes());
        }
    }
    let mut backends = pick_backends(prop, &mut rng, &w.backends());
    if let Some(g) = image.map(|i| &images[i]) {
        n = g.scn.n;
        keys.retain(|k| k.len() == n);
        let extra = rng.idx(keys.len().max(6));
        let mut all = g.scn.keys.clone();
        for _ in 0..extra {
            let mut k = if w.weak_hash() || rng.chance(1, 3) { (0..n).map(|_| rng.u64() as u8).collect() } else { rng.pick(&g.scn.keys).clone() };
            if !w.weak_hash() {
                let b = rng.idx(8 * n);
                k[b / 8] ^= 128 >> (b % 8);
            }
            if !all.contains(&k) {
                all.push(k);
            }
        }
        keys = all;
        let mut all = g.scn.vals.clone();
        for v in vals {
            if !all.contains(&v) {
                all.push(v);
            }
        }
        vals = all;
        backends = g.scn.backends.clone();
    }
    let (nk, nv) = (keys.len(), vals.len());
    if storm {
        backends.truncate(1);
    }
    if great_storm || giant {
        backends = vec![Backend::Hash];
    }
    let depth = if p.depth_play && deep && rng.chance(1, 3) {
        rng.below(8 * n as u64 + 3)
    } else if p.depth_play && rng.chance(1, 3) {
        rng.below(10)
    } else { *rng.pick(&[BIG, BIG, u64::MAX / 2, 8 * n as u64]) };
    if vast && prop != "C16" {
        backends.truncate(1);
    }
    let nops = if giant {
        0
    } else if vast {
        rng.range(1, 4)
    } else if huge {
        rng.range(1, if prop == "C21" { 8 } else { 3 })
    } else if deep {
        rng.range(2, 8)
    } else if scale {
        rng.range(2, if prop == "C21" { 12 } else { 6 })
    } else if marathon {
        rng.range(120, 400)
    } else { *rng.pick(&[3, 5, 8, 12, 20, 30]) };
    let mut ops = Vec::new();
    let mut wts = p.w;
    // swarm: drop some kinds of operations in some runs
    for (j, x) in wts.iter_mut().enumerate() {
        if j > 0 && rng.chance(1, 8) {
            *x = 0;
        }
    }
    if marathon {
        wts[1] = wts[1].max(wts[0] * 3 / 4);
    }
    for _ in 0..nops {
        let name = NAMES[rng.weighted(&wts)];
        let root = if rng.chance(1, 2) { 0 } else { rng.below(8) };
        let mut op = match name {
            "insert" if prop == "C21" && scale => {
                let mut op = insert_op(&mut rng, nk, nv);
                op.items.truncate(1 + rng.idx(4));
                op.a[0] = op.a[0].max(1);
                op
            }
            "insert" if vast && rng.chance(1, 2) => {
                let size = nk - rng.idx(nk / 2 + 1);
                Op::new(name, &[rng.below(3), 0], pick_items(&mut rng, nk, nv, size))
            }
            "insert" => insert_op(&mut rng, nk, nv),
            "get" => {
                let c = rng.range(1, nk.min(12));
                if rng.chance(1, 10) {
                    let size = if rng.chance(1, 3) { 0 } else { c };
                    let it = if size == 0 { vec![] } else { pick_items(&mut rng, nk, 1, size) };
                    ops.push(Op::new("get_odd", &[root, rng.u64() >> 1], it));
                }
                let mut it: Vec<(u32, u32)> = (0..c).map(|_| (rng.below(nk as u64) as u32, 0)).collect();
                if rng.chance(1, 5) {
                    it = (0..nk as u32).map(|k| (k, 0)).collect();
                }
                if rng.chance(1, 40) {
                    // far more requests than keys
                    it.truncate(3);
                    let distinct = it.clone();
                    let size = *rng.pick(&[65, 257, 300, 1025, 1500]);
                    it = (0..size).map(|_| distinct[rng.idx(distinct.len())]).collect();
                }
                Op::new(name, &[root], it)
            }
            "get_one" | "prove" => Op::new(name, &[root], vec![(rng.below(nk as u64) as u32, 0)]),
            "split" => {
                let size = rng.range(1, nk.min(7));
                Op::new(name, &[rng.below(3), rng.u64() >> 1], pick_items(&mut rng, nk, nv, size))
            }
            "bad" => {
                let name = *rng.pick(&["bad_len", "bad_empty", "bad_dup", "bad_root", "bad_dup", "bad_root"]);
                let size = if rng.chance(1, 12) { nk } else { rng.range(1, nk.min(6)) };
                Op::new(name, &[rng.below(4), rng.u64() >> 1], pick_items(&mut rng, nk, nv, size))
            }
            "mutants" => Op::new(name, &[root, rng.u64() >> 1], vec![]),
            "reopen" | "handover" => {
                let d = if p.depth_play {
                    match rng.below(6) {
                        0 => 1 + BIG,
                        1 => u64::MAX,
                        2 => 0,
                        3 if deep => 1 + rng.below(8 * n as u64 + 3),
                        _ => 1 + rng.below(12),
                    }
                } else {
                    0
                };
                Op::new(name, &[d], vec![])
            }
            "crash" => Op::new(name, &[if rng.chance(1, 2) { 0 } else { 1 + *rng.pick(&[0, 1, 1, 2, 3, 8]) }], vec![]),
            "rm_unknown" => Op::new(name, &[rng.u64() >> 1], vec![]),
            "wrong_kind" => Op::new(name, &[root, rng.u64() >> 1, rng.u64() >> 1, rng.u64() >> 1], vec![]),
            _ => Op::new(name, &[root], vec![]),
        };
        if backends.len() == 1 && p.faults != FaultMode::None && rng.below(100) < p.rate {
            match op.name.as_str() {
                "insert" | "remove" => op.faults = gen_faults(&mut rng, p.faults, backends[0], true),
                "get" | "get_one" | "prove" => op.faults = gen_faults(&mut rng, p.faults, backends[0], false),
                "reopen" => {
                    let kind = fault_kind(&mut rng, p.faults, false);
                    op.faults.push(Fault { on: On::Call(Call::Open), at: 0, span: 1, kind });
                }
                _ => {}
            }
            let retry = op.faults.iter().all(|f| f.kind == FaultKind::Err) && !op.faults.is_empty();
            ops.push(op);
            if retry && rng.chance(1, 3) {
                ops.push(Op::new("retry", &[], vec![]));
            }
            continue;
        }
        ops.push(op);
    }
    if !ops.iter().any(|o| o.name == "insert") {
        ops.insert(0, insert_op(&mut rng, nk, nv));
    }
    if scale || giant || deep || vast {
        let size = if giant || vast || deep && rng.chance(2, 3) { nk } else { nk - rng.idx(nk / 2 + 1) };
        let mut op = Op::new("insert", &[0, 0], pick_items(&mut rng, nk, nv, size));
        if vast && backends.len() == 1 && p.faults != FaultMode::None && rng.chance(1, 2) {
            op.faults = gen_faults(&mut rng, p.faults, backends[0], true);
            if op.faults.iter().all(|f| f.kind == FaultKind::Err) && !op.faults.is_empty() {
                ops.insert(0, Op::new("retry", &[], vec![]));
            }
        }
        ops.insert(0, op);
        if vast && rng.chance(1, 2) {
            let mut op = Op::new("remove", &[rng.below(2)], vec![]);
            if backends.len() == 1 && p.faults != FaultMode::None && rng.chance(3, 4) {
                op.faults = gen_faults(&mut rng, p.faults, backends[0], true);
            }
            let at = ops.len().min(2);
            ops.insert(at, op);
        }
    }
    if storm {
        let kind = u64::from(!great_storm && rng.chance(1, 2));
        let count = if great_storm { 65_536 + rng.below(40) } else { 250 + rng.below(60) };
        let gone = *rng.pick(&[0, 1, count / 2, count - 1, count, count]);
        let at = rng.idx(ops.len() + 1);
        ops.insert(at, Op::new("storm", &[rng.below(4), count, kind, gone, rng.u64() >> 1], vec![]));
    }
    if prop == "C12" && rng.chance(4, 5) {
        // then damage, and anything may be called
        for _ in 0..rng.range(1, 4) {
            if rng.chance(2, 3) {
                for _ in 0..rng.range(1, 2) {
                    ops.push(Op::new("damage", &[rng.u64() >> 1, rng.below(15), rng.u64() >> 1], vec![]));
                }
            }
            for _ in 0..rng.range(1, 5) {
                let root = rng.below(4);
                let size = rng.range(1, nk.min(10));
                let items = pick_items(&mut rng, nk, nv, size);
                let name = *rng.pick(&["insert", "insert", "get", "get", "get_one", "prove", "prove", "remove", "reopen"]);
                let mut op = match name {
                    "insert" => Op::new(name, &[root, rng.below(3)], items),
                    "reopen" => Op::new(name, &[*rng.pick(&[0, 1 + BIG, u64::MAX, 5])], vec![]),
                    _ => Op::new(name, &[root], items),
                };
                if rng.chance(1, 4) && name != "reopen" {
                    op.faults = gen_faults(&mut rng, FaultMode::Lying, backends[0], name == "insert");
                }
                ops.push(op);
            }
        }
    }
    let drain = u64::from(rng.below(100) < p.drain);
    let audit = u64::from(!(scale && (nops > 3 || prop == "C21") || huge || vast));
    Scenario {
        prop: prop.into(),
        variant: w.variant().into(),
        engine: "store".into(),
        seed,
        hash_seed: rng.u64(),
        n,
        depth,
        backends,
        params: vec![drain, audit, rng.u64() >> 1, u64::from(rng.chance(1, 4))],
        keys,
        vals,
        ops,
        image,
    }
}

/// The history of the recording with the given number.
pub fn golden(w: &dyn World, i: usize, rng: &mut Rng) -> Option<Scenario> {
    let ns = [8, 32, 20, 7, 40, 72];
    let rocks = w.backends().contains(&Backend::Rocks);
    let rounds = if w.variant() == "main" { 4 } else { 2 };
    if i >= ns.len() * rounds {
        return None;
    }
    let (n, round) = (ns[i % ns.len()], i / ns.len());
    let nkeys = [12, 5, 24, 9][round];
    let (keys, mut vals) = pools(w, rng, n, nkeys);
    vals.retain(|v| v.len() < 300);
    if vals.len() < 2 {
        vals = vec![b"one".to_vec(), b"two".to_vec(), Vec::new()];
    }
    let (nk, nv) = (keys.len(), vals.len());
    let mut s = scenario(w, "C22", "store", i as u64, rng, n, keys, vals);
    let custom = Backend::Sim(crate::store::Discipline { batched: true, ryw: round % 2 == 0, del_queued: true, sync: true });
    s.backends = vec![if rocks && round < 3 { Backend::Rocks } else { custom }];
    s.depth = BIG;
    s.params = vec![0, 1, 0, 0];
    s.ops.push(Op::new("insert", &[0, 0], pick_items(rng, nk, nv, nk.div_ceil(2))));
    for _ in 0..5 {
        let op = if rng.chance(1, 5) { Op::new("remove", &[rng.below(4)], vec![]) } else { insert_op(rng, nk, nv) };
        s.ops.push(op);
    }
    let again = s.ops.last().cloned()?;
    s.ops.push(again);
    s.ops.push(Op::new("insert", &[1, 0], pick_items(rng, nk, nv, 1)));
    Some(s)
}
