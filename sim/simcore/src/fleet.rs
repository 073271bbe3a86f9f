//! The same history in two processes with different entropy: roots agree, and each accepts the other's proofs.
use crate::run::*;
use crate::scenario::{hex, unhex, Scenario};
use crate::store::*;
use crate::{Disk, Rng, SharedDisk, HASH_SEED};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

/// Runs the history on one node and tells what it answered, line by line.
pub fn history(w: &dyn World, scn: &Scenario) -> Vec<String> {
    HASH_SEED.with(|h| h.set(scn.hash_seed));
    w.reset();
    crate::codec::disarm();
    let mut out = Vec::new();
    let spec = Spec { backend: scn.backends[0], n: scn.n };
    let disk: SharedDisk = Arc::new(Mutex::new(Disk::default()));
    let mut store = match call(|| w.open(spec, 8 * scn.n + 8, &disk)) {
        CallRes::Ok(s) => s,
        r => return vec![format!("X open {}", r.brief())],
    };
    let (nk, nv) = (scn.keys.len() as u32, scn.vals.len() as u32);
    // roots with their content
    let mut live: Vec<(Bytes, BTreeMap<u32, u32>)> = Vec::new();
    for op in &scn.ops {
        let pick = |sel: u64, live: &Vec<(Bytes, BTreeMap<u32, u32>)>| (!live.is_empty()).then(|| live.len() - 1 - (sel % live.len() as u64) as usize);
        match op.name.as_str() {
            "insert" => {
                let prev = if op.arg(0) == 0 { None } else { pick(op.arg(0) - 1, &live) };
                let mut items: BTreeMap<u32, u32> = BTreeMap::new();
                for &(k, v) in &op.items {
                    items.insert(k % nk, v % nv);
                }
                if items.is_empty() {
                    continue;
                }
                let keys: Vec<Bytes> = items.keys().map(|&k| scn.keys[k as usize].clone()).collect();
                let vals: Vec<Bytes> = items.values().map(|&v| scn.vals[v as usize].clone()).collect();
                let p = prev.map(|p| live[p].0.clone());
                match call(|| store.insert(p.as_deref(), &keys, &vals)) {
                    CallRes::Ok(root) => {
                        out.push(format!("R {}", hex(&root)));
                        let mut content = prev.map(|p| live[p].1.clone()).unwrap_or_default();
                        content.extend(items);
                        live.push((root, content));
                    }
                    r => {
                        out.push(format!("X insert {}", r.brief()));
                        return out;
                    }
                }
            }
            "remove" => {
                if let Some(p) = pick(op.arg(0), &live) {
                    let (root, _) = live.remove(p);
                    if let r @ (CallRes::Err(_) | CallRes::Panic(_) | CallRes::Hang) = call(|| store.remove(&root)) {
                        out.push(format!("X remove {}", r.brief()));
                        return out;
                    }
                }
            }
            "prove" => {
                let Some(p) = pick(op.arg(0), &live) else { continue };
                let (root, content) = live[p].clone();
                let Some((&k, &v)) = content.iter().nth(op.items.first().map_or(0, |x| x.0 as usize) % content.len().max(1)) else { continue };
                match call(|| store.prove(&root, &scn.keys[k as usize])) {
                    CallRes::Ok(proof) => {
                        let steps: Vec<String> = proof.iter().map(|(h, b)| format!("{}:{}", hex(h), u8::from(*b))).collect();
                        out.push(format!("P {} {k} {v} {}", hex(&root), steps.join(",")));
                    }
                    r => {
                        out.push(format!("X prove {}", r.brief()));
                        return out;
                    }
                }
            }
            _ => {}
        }
    }
    drop(store);
    w.reset();
    out
}

pub fn parse_proof(s: &str) -> Option<Proof> {
    if s.is_empty() {
        return Some(Vec::new());
    }
    s.split(',')
        .map(|x| {
            let (h, b) = x.split_once(':')?;
            Some((unhex(h)?, b == "1"))
        })
        .collect()
}

/// What another process answers to the same history.
fn elsewhere(scn: &Scenario) -> Vec<String> {
    let fail = |e: &dyn std::fmt::Display| -> ! {
        eprintln!("HARNESS: the second process failed: {e}");
        std::process::exit(3)
    };
    let exe = std::env::current_exe().unwrap_or_else(|e| fail(&e));
    let mut child = Command::new(exe)
        .arg("fleet")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| fail(&e));
    let text = scn.to_text();
    let mut stdin = child.stdin.take().expect("stdin");
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let out = child.wait_with_output().unwrap_or_else(|e| fail(&e));
    let _ = writer.join();
    if !out.status.success() {
        fail(&out.status);
    }
    String::from_utf8_lossy(&out.stdout).lines().map(str::to_owned).collect()
}

pub fn run(w: &dyn World, scn: &Scenario, tracing: bool) -> RunResult {
    let mut stats = Stats::default();
    let mut digest = 11;
    let mut trace = Vec::new();
    let here = history(w, scn);
    let mut rng = Rng::new(scn.hash_seed);
    let mut violation = None;
    let mut viol = |step: usize, tags: &[&'static str], oracle: &'static str, detail: String| {
        if violation.is_none() {
            violation = Some(Violation { tags: tags.to_vec(), cond: Vec::new(), oracle, step, detail });
        }
    };
    for (other, backend) in scn.backends.iter().enumerate() {
        let mut s = scn.clone();
        s.backends = vec![*backend];
        s.hash_seed = rng.u64();
        let there = elsewhere(&s);
        stats.add("processes", 1);
        for j in 0..here.len().max(there.len()) {
            let (a, b) = (here.get(j).map_or("", String::as_str), there.get(j).map_or("", String::as_str));
            digest = hash_bytes(digest, a.as_bytes());
            if tracing {
                trace.push(format!("  here {a}\n  process {other} ({}) {b}", backend.name()));
            }
            if a.starts_with('X') && b.starts_with('X') {
                break;
            }
            let (fa, fb): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
            if fa[0] == "P" && fb[0] == "P" {
                for f in [&fa, &fb] {
                    let (Some(root), Ok(k), Ok(v), Some(proof)) = (unhex(f[1]), f[2].parse::<usize>(), f[3].parse::<usize>(), parse_proof(f[4])) else {
                        continue;
                    };
                    let spec = Spec { backend: *backend, n: scn.n };
                    let r = call(|| w.verify(spec, &root, &scn.keys[k], &scn.vals[v], &proof));
                    stats.add("foreign_proofs", 1);
                    if !r.is_ok() {
                        viol(j, &["C09", "C15"], "foreign_proof", format!("a proof made in another process is rejected: {}", r.brief()));
                    }
                }
            } else if a != b {
                viol(j, &["C03", "C15"], "process_root", format!("the same history gives {a} here and {b} in another process"));
            } else {
                stats.add("foreign_roots", 1);
            }
        }
    }
    stats.nontrivial = here.len() > 1;
    stats.sim_us += 1000 * here.len() as u64;
    RunResult { violation, other: None, digest, stats, trace }.sorted(&scn.prop)
}
