//! Command line of the simulator: explore seeds, replay a file, minimise a file.
use crate::engine::Engine;
use crate::run::*;
use crate::scenario::Scenario;
use crate::store::World;
use crate::{gen, splitmix, HASH_SEED};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::mpsc;
use std::time::{Duration, Instant};

const RUN_LIMIT: Duration = Duration::from_secs(180);

fn execute_here(w: &dyn World, scn: &Scenario, tracing: bool) -> RunResult {
    HASH_SEED.with(|h| h.set(scn.hash_seed));
    w.reset();
    crate::codec::disarm();
    let mut r = match scn.engine.as_str() {
        "proofs" => crate::proofs::ProofNet::new(w, scn, tracing).run(),
        "replicas" => crate::replicas::Replicas::new(w, scn, tracing).run(),
        "fleet" => crate::fleet::run(w, scn, tracing),
        "readers" => crate::readers::Readers::new(w, scn, tracing).run(),
        _ => Engine::new(w, scn, tracing).run(),
    };
    w.reset();
    if scn.engine != "store" {
        return r;
    }
    if let Some(v) = r.violation.take() {
        r.violation = confirm(w, scn, v);
    }
    r
}

/// A violation that concerns the property only through faults counts only if it needs them.
fn confirm(w: &dyn World, scn: &Scenario, v: Violation) -> Option<Violation> {
    if v.tags.contains(&scn.prop.as_str()) {
        return Some(v);
    }
    let mut s = scn.clone();
    s.prop = "ANY".into();
    let clean = |s: &Scenario| {
        HASH_SEED.with(|h| h.set(scn.hash_seed));
        w.reset();
        let r = Engine::new(w, s, false).run();
        w.reset();
        r.violation.is_none() && r.other.is_none()
    };
    let innocent = match scn.prop.as_str() {
        "C08" => {
            s.ops.retain(|o| !o.name.starts_with("bad") && o.name != "rm_unknown");
            clean(&s)
        }
        "C14" => {
            let d = crate::store::Discipline { batched: true, ryw: false, del_queued: true, sync: false };
            s.backends = vec![crate::store::Backend::Sim(d)];
            clean(&s)
        }
        "C16" => {
            // one backend goes wrong where another does not, or only a handover does
            let alone = scn.backends.iter().any(|b| {
                let mut one = s.clone();
                one.backends = vec![*b];
                clean(&one)
            });
            s.ops.retain(|o| o.name != "reopen" && o.name != "handover");
            alone || clean(&s)
        }
        "C17" => {
            // batches go wrong where single calls do not, or the other way round
            let mut batches = s.clone();
            for o in batches.ops.iter_mut().filter(|o| o.name == "insert" && o.a.len() > 1) {
                o.a[1] = 0;
            }
            let singles: Vec<_> = s
                .ops
                .iter()
                .flat_map(|o| {
                    let each = if o.name == "insert" { o.items.len().max(1) } else { 1 };
                    (0..each).map(move |i| {
                        let mut x = o.clone();
                        if each > 1 {
                            x.items = vec![o.items[i]];
                            x.a = vec![if i == 0 { o.arg(0) } else { 1 }, 1];
                        }
                        x
                    })
                })
                .collect();
            s.ops = singles;
            batches.ops != scn.ops && clean(&batches) || s.ops.len() > scn.ops.len() && clean(&s)
        }
        "C22" => {
            // the same history from its beginning, on a store of this version's own
            let Some(g) = scn.image.and_then(|i| crate::golden::all(w).get(i)) else { return None };
            s.image = None;
            s.ops.splice(0..0, g.scn.ops.iter().cloned());
            clean(&s)
        }
        "C18" => {
            let d = crate::gen::BIG;
            s.depth = d;
            for o in s.ops.iter_mut().filter(|o| o.name == "reopen" || o.name == "handover") {
                o.a = vec![0];
            }
            s != Scenario { prop: s.prop.clone(), ..scn.clone() } && clean(&s)
        }
        _ => {
            s.ops.retain(|o| o.name != "crash" && o.name != "retry");
            for o in &mut s.ops {
                o.faults.clear();
            }
            clean(&s)
        }
    };
    innocent.then_some(v)
}

pub enum Exec {
    Done(Box<RunResult>),
    Timeout,
}

/// Every run has a thread of its own, so that nothing of a run before it can matter.
pub fn execute(w: &'static dyn World, scn: &Scenario, tracing: bool) -> Exec {
    let (tx, rx) = mpsc::channel();
    let s = scn.clone();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute_here(w, &s, tracing)));
            let _ = tx.send(r.map_err(|_| last_panic()));
        })
        .expect("thread");
    match rx.recv_timeout(RUN_LIMIT) {
        Ok(Ok(r)) => {
            let _ = h.join();
            Exec::Done(Box::new(r))
        }
        Ok(Err(p)) => {
            eprintln!("HARNESS PANIC: {p}\n{}", scn.to_text());
            std::process::exit(3);
        }
        Err(_) => Exec::Timeout,
    }
}

fn violates(w: &'static dyn World, scn: &Scenario) -> Option<Violation> {
    match execute(w, scn, false) {
        Exec::Done(r) => r.violation,
        Exec::Timeout => None,
    }
}

/// Delta debugging over operations, faults, items, keys and settings.
pub fn minimise(w: &'static dyn World, scn: &Scenario, oracle: &str, budget: Duration) -> Scenario {
    let start = Instant::now();
    let mut best = scn.clone();
    let same = |s: &Scenario| violates(w, s).is_some_and(|v| v.oracle == oracle);
    loop {
        let before = best.clone();
        // operations, in ever smaller chunks
        let mut chunk = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() && start.elapsed() < budget {
                let mut s = best.clone();
                let end = (i + chunk).min(s.ops.len());
                s.ops.drain(i..end);
                if same(&s) {
                    best = s;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for i in 0..best.ops.len() {
            // faults and items of each operation
            for f in (0..best.ops[i].faults.len()).rev() {
                let mut s = best.clone();
                s.ops[i].faults.remove(f);
                if start.elapsed() < budget && same(&s) {
                    best = s;
                }
            }
            let mut c = (best.ops[i].items.len() / 2).max(1);
            while best.ops[i].items.len() > 1 {
                let mut j = 0;
                while j < best.ops[i].items.len() && best.ops[i].items.len() > 1 && start.elapsed() < budget {
                    let mut s = best.clone();
                    let end = (j + c).min(s.ops[i].items.len());
                    s.ops[i].items.drain(j..end);
                    if !s.ops[i].items.is_empty() && same(&s) {
                        best = s;
                    } else {
                        j += c;
                    }
                }
                if c == 1 {
                    break;
                }
                c /= 2;
            }
            for f in 0..best.ops[i].faults.len() {
                let mut s = best.clone();
                s.ops[i].faults[f].span = 1;
                if best.ops[i].faults[f].span != 1 && start.elapsed() < budget && same(&s) {
                    best = s;
                }
                let mut s = best.clone();
                s.ops[i].faults[f].at = 0;
                if best.ops[i].faults[f].at != 0 && start.elapsed() < budget && same(&s) {
                    best = s;
                }
            }
            for a in 0..best.ops[i].a.len() {
                for x in [0, 1] {
                    if best.ops[i].a[a] > x && start.elapsed() < budget {
                        let mut s = best.clone();
                        s.ops[i].a[a] = x;
                        if same(&s) {
                            best = s;
                            break;
                        }
                    }
                }
            }
        }
        for p in 0..best.params.len() {
            if best.params[p] != 0 && start.elapsed() < budget {
                let mut s = best.clone();
                s.params[p] = 0;
                if same(&s) {
                    best = s;
                }
            }
        }
        for b in (0..best.backends.len()).rev() {
            if best.backends.len() > 1 && start.elapsed() < budget {
                let mut s = best.clone();
                s.backends.remove(b);
                if same(&s) {
                    best = s;
                }
            }
        }
        // keys and values no longer used (references keep their meaning through remapping)
        let s = compact(&best);
        if s != best && start.elapsed() < budget && same(&s) {
            best = s;
        }
        if best == before || start.elapsed() >= budget {
            return best;
        }
    }
}

fn compact(scn: &Scenario) -> Scenario {
    let mut s = scn.clone();
    let mut kmap: BTreeMap<u32, u32> = BTreeMap::new();
    let mut vmap: BTreeMap<u32, u32> = BTreeMap::new();
    let (nk, nv) = (scn.keys.len() as u32, scn.vals.len() as u32);
    if nk == 0 || nv == 0 || scn.image.is_some() {
        return s;
    }
    for o in &mut s.ops {
        for it in &mut o.items {
            let k = kmap.len() as u32;
            it.0 = *kmap.entry(it.0 % nk).or_insert(k);
            let v = vmap.len() as u32;
            it.1 = *vmap.entry(it.1 % nv).or_insert(v);
        }
    }
    if kmap.is_empty() {
        return scn.clone();
    }
    let mut keys = vec![Vec::new(); kmap.len()];
    for (old, new) in kmap {
        keys[new as usize] = scn.keys[old as usize].clone();
    }
    let mut vals = vec![Vec::new(); vmap.len()];
    for (old, new) in vmap {
        vals[new as usize] = scn.vals[old as usize].clone();
    }
    s.keys = keys;
    s.vals = vals;
    s
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

pub fn scenario_for(w: &dyn World, prop: &str, base: u64, index: u64) -> Scenario {
    let mut x = base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ index.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    for b in prop.bytes() {
        x = x.wrapping_mul(131) ^ u64::from(b);
    }
    let seed = splitmix(&mut x);
    gen::generate(w, prop, seed)
}

/// explore --prop P --seed S --start A --step K --count N --secs T --out DIR [--digests]
fn explore(w: &'static dyn World, args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let num = |n: &str, d: u64| arg(args, n).and_then(|v| v.parse().ok()).unwrap_or(d);
    let (base, start, step, count, secs) = (num("--seed", 1), num("--start", 0), num("--step", 1), num("--count", 100), num("--secs", 3600));
    let out = arg(args, "--out").unwrap_or_else(|| "/tmp".into());
    let digests = args.iter().any(|a| a == "--digests");
    let begin = Instant::now();
    let mut stats = Stats::default();
    let mut runs: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut total = 0_u64;
    let mut others = 0_u64;
    let mut sample = String::new();
    let mut code = 0;
    let progress = format!("{out}/progress-{}-{start}", w.variant());
    let mut pf = std::fs::File::create(&progress).ok();
    for j in 0..count {
        if begin.elapsed().as_secs() >= secs {
            break;
        }
        let index = start + j * step;
        let scn = scenario_for(w, &prop, base, index);
        if let Some(f) = &mut pf {
            use std::io::Seek;
            let _ = f.rewind();
            let _ = write!(f, "{index:>20}\n");
        }
        total += 1;
        match execute(w, &scn, false) {
            Exec::Done(r) => {
                if digests {
                    println!("DIGEST {index} {:016x}", r.digest);
                }
                runs.insert(r.digest);
                if r.stats.nontrivial {
                    nontrivial.insert(r.digest);
                    if sample.is_empty() || (sample.len() > 1500 && j < 400) {
                        let t = scn.to_text();
                        if sample.is_empty() || t.len() < sample.len() {
                            sample = t;
                        }
                    }
                }
                for (k, n) in &r.stats.counts {
                    stats.add(k, *n);
                }
                stats.sim_us += r.stats.sim_us;
                if states.len() < 400_000 {
                    states.extend(r.stats.states.iter().copied());
                }
                if r.other.is_some() {
                    others += 1;
                    if args.iter().any(|a| a == "--show-other") {
                        println!("OTHER {index} {:?}", r.other);
                    }
                }
                if let Some(v) = r.violation {
                    let min = minimise(w, &scn, v.oracle, Duration::from_secs(num("--shrink", 60)));
                    let v = violates(w, &min).unwrap_or(v);
                    let path = format!("{out}/{prop}-{}-{index}.replay", w.variant());
                    let mut text = min.to_text();
                    text.push_str(&format!("# violation of {prop}: {} at step {}: {}\n", v.oracle, v.step, v.detail));
                    let _ = std::fs::write(&path, text);
                    println!("FOUND {path} {} {}", v.oracle, v.detail.replace('\n', " "));
                    code = 1;
                    break;
                }
            }
            Exec::Timeout => {
                let path = format!("{out}/{prop}-{}-{index}.replay", w.variant());
                let mut text = scn.to_text();
                text.push_str("# violation: the run did not end\n");
                let _ = std::fs::write(&path, text);
                println!("FOUND {path} timeout the run did not end within {} s", RUN_LIMIT.as_secs());
                code = 1;
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&progress);
    println!("RUNS {total}");
    println!("DISTINCT {}", runs.len());
    println!("NONTRIVIAL {}", nontrivial.len());
    println!("OTHERS {others}");
    println!("SIMUS {}", stats.sim_us);
    for (k, v) in &stats.counts {
        println!("STAT {k} {v}");
    }
    let mut f = Vec::new();
    for s in &states {
        f.extend_from_slice(&s.to_le_bytes());
    }
    let _ = std::fs::write(format!("{out}/states-{}-{start}", w.variant()), f);
    let mut f = Vec::new();
    for s in &nontrivial {
        f.extend_from_slice(&s.to_le_bytes());
    }
    let _ = std::fs::write(format!("{out}/runs-{}-{start}", w.variant()), f);
    let _ = std::fs::write(format!("{out}/sample-{}-{start}", w.variant()), sample);
    let _ = std::io::stdout().flush();
    code
}

fn load(path: &str) -> Scenario {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {path}: {e}");
        std::process::exit(2)
    });
    Scenario::parse(&text).unwrap_or_else(|| {
        eprintln!("{path} is not a replay file");
        std::process::exit(2)
    })
}

pub fn main(w: &'static dyn World) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("explore") => explore(w, &args),
        Some("replay") => {
            let scn = load(&args[2]);
            match execute(w, &scn, true) {
                Exec::Done(r) => {
                    for t in &r.trace {
                        println!("{t}");
                    }
                    println!("digest {:016x}", r.digest);
                    match r.violation {
                        Some(v) => {
                            println!("REPRODUCED {} at step {}: {}", v.oracle, v.step, v.detail);
                            1
                        }
                        None => {
                            println!("no violation of {}{}", scn.prop, r.other.map_or(String::new(), |o| format!(" (other: {o:?})")));
                            0
                        }
                    }
                }
                Exec::Timeout => {
                    println!("REPRODUCED timeout");
                    1
                }
            }
        }
        Some("fleet") => {
            let mut text = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut text);
            let scn = Scenario::parse(&text).expect("scenario");
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || crate::fleet::history(w, &scn)).expect("thread");
            for l in h.join().expect("history") {
                println!("{l}");
            }
            0
        }
        Some("gen") => {
            let n: u64 = args[4].parse().expect("index");
            print!("{}", scenario_for(w, &args[2], args[3].parse().expect("seed"), n).to_text());
            0
        }
        Some("golden") => {
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || crate::golden::record(w)).expect("thread");
            print!("{}", h.join().expect("recordings"));
            0
        }
        Some("shrink") => {
            let scn = load(&args[2]);
            match violates(w, &scn) {
                Some(v) => {
                    let m = minimise(w, &scn, v.oracle, Duration::from_secs(120));
                    let _ = std::fs::write(&args[3], m.to_text());
                    0
                }
                None => 2,
            }
        }
        _ => {
            eprintln!("usage: mbsim explore|replay|shrink|gen ...");
            2
        }
    };
    std::process::exit(code)
}
