#!/usr/bin/env python3
"""Deterministic simulation of merkle_bit: builds the simulator against /repo's working tree and
decides one property by seeded search over schedules and fault sequences.

  check.py setup            build every variant of the simulator
  check.py C01              run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE      replay a file a check wrote
  check.py determinism C01  run the same seeds twice, with different worker counts, and compare
"""
import collections
import fcntl
import hashlib
import json
import os
import resource
import shutil
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = "/repo"
OUT = os.path.join(SIM, "target")
BIN = os.path.join(OUT, "bin")
WORKERS = 8
HASHERS = ["plain", "blake2_rfc", "groestl", "sha2", "sha3", "keccak", "blake2b", "md2", "md4", "md5", "ripemd160",
           "ripemd320", "sha1", "rust_sha2", "rust_sha3", "rust_keccak", "whirlpool", "fxhash", "seahash"]
FORMATS = ["json", "cbor", "yaml", "pickle", "ron"]

# variant -> features of the simulator crate, which pass on to the crate under test
VARIANTS = {"main": "rocks,bincode", "hashbrown": "hashbrown,rocks,bincode"}
for _h in HASHERS:
    VARIANTS["hash_" + _h] = "" if _h == "plain" else _h
for _f in FORMATS:
    VARIANTS["fmt_" + _f] = "rocks," + _f
GROUPS = 4
GROUP = {v: i % GROUPS for i, v in enumerate(VARIANTS)}

ALL_HASH = ["hash_" + h for h in HASHERS] + ["hashbrown"]
ALL_FMT = ["main"] + ["fmt_" + f for f in FORMATS]
PROPS = {
    "C01": ["main"], "C02": ["main"], "C03": ["main"], "C04": ["main"], "C05": ["main"], "C06": ["main"],
    "C07": ["main"], "C08": ["main"], "C09": ["main"], "C10": ["main"], "C11": ["main"], "C12": ALL_FMT, "C13": ["main"], "C14": ALL_FMT, "C15": ALL_HASH,
    "C16": ["main"], "C17": ["main"], "C18": ["main"], "C21": ["main"], "C22": ALL_FMT + ALL_HASH,
}
# properties where the first variant gets most of the time and the others share the rest
MAINLY = {"C12", "C22"}
QUICK = {"C14": 45, "C15": 45}
QUICK_SECS = 40
THOROUGH_SECS = 600


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in (os.path.join(REPO, "src"), os.path.join(SIM, "src"), os.path.join(SIM, "golden"), os.path.join(SIM, "simcore"),
                os.path.join(SIM, "simrocks"), os.path.join(SIM, "simahash")):
        for d, dirs, names in os.walk(top):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != "target"]
            files += [os.path.join(d, n) for n in names]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"),
              os.path.join(SIM, "Cargo.toml"), os.path.join(SIM, "Cargo.lock")]
    for f in sorted(files):
        try:
            with open(f, "rb") as fh:
                data = fh.read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return ""


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def build(variants):
    """Binaries of the given variants, built from the working tree as it is now."""
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = source_hash()
        todo = [v for v in variants if read(os.path.join(BIN, v + ".stamp")) != want
                or not os.path.exists(os.path.join(BIN, v))]
        errors = []

        def one_group(g, vs, jobs):
            target = os.path.join(OUT, f"g{g}")
            os.makedirs(target, exist_ok=True)
            env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
            env.pop("RUSTFLAGS", None)
            mark = os.path.join(target, "source.hash")
            if read(mark) != want:
                # time stamps say nothing about a tree that was checked out anew
                write(mark, "")
                r = sh(["cargo", "clean", "--offline", "--release", "-p", "starling", "-p", "mbsim", "-p", "simcore",
                        "-p", "rocksdb", "-p", "ahash"], cwd=SIM, env=env)
                if r.returncode:
                    shutil.rmtree(os.path.join(target, "release"), ignore_errors=True)
                write(mark, want)
            for v in vs:
                env["MBSIM_VARIANT"] = v
                r = sh(["cargo", "build", "--offline", "--release", "-j", str(jobs), "--features", VARIANTS[v]],
                       cwd=SIM, env=env)
                if r.returncode:
                    errors.append(f"building variant {v} failed:\n{r.stdout[-6000:]}")
                    return
                tmp = os.path.join(BIN, f".{v}.new")
                shutil.copy2(os.path.join(target, "release", "mbsim"), tmp)
                os.replace(tmp, os.path.join(BIN, v))
                write(os.path.join(BIN, v + ".stamp"), want)

        groups = collections.defaultdict(list)
        for v in todo:
            groups[GROUP[v]].append(v)
        jobs = max(2, WORKERS // max(1, len(groups)))
        threads = [threading.Thread(target=one_group, args=(g, vs, jobs)) for g, vs in groups.items()]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            print(errors[0], file=sys.stderr)
            sys.exit(2)
    return {v: os.path.join(BIN, v) for v in variants}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_run(binary, path):
    """(reproduced, output): whether the file shows a violation again in a process of its own."""
    r = sh([binary, "replay", path], preexec_fn=limits)
    return (r.returncode == 1 or r.returncode < 0), r.stdout, r.returncode


class Search:
    def __init__(self, prop, binaries, seed, secs, out):
        self.prop, self.bins, self.seed, self.secs, self.out = prop, binaries, seed, secs, out
        self.stats = collections.Counter()
        self.runs = self.others = self.sim_us = 0
        self.found = []
        self.errors = []
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False

    def work(self, jobs):
        while True:
            with self.lock:
                if self.stop or not jobs:
                    return
                variant, start, step, secs = jobs.pop(0)
            self.one(variant, start, step, secs)

    def one(self, variant, start, step, secs):
        cmd = [self.bins[variant], "explore", "--prop", self.prop, "--seed", str(self.seed), "--start", str(start),
               "--step", str(step), "--count", "100000000", "--secs", str(secs), "--out", self.out, "--shrink", "25"]
        with self.lock:
            if self.stop:
                return
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                 preexec_fn=limits)
            self.procs.add(p)
        stdout, stderr = p.communicate()
        with self.lock:
            self.procs.discard(p)
            if self.stop:
                return
            for line in stdout.splitlines():
                w = line.split(" ", 3)
                if w[0] == "FOUND":
                    self.found.append((variant, w[1], " ".join(w[2:])))
                elif w[0] == "RUNS":
                    self.runs += int(w[1])
                elif w[0] == "OTHERS":
                    self.others += int(w[1])
                elif w[0] == "SIMUS":
                    self.sim_us += int(w[1])
                elif w[0] == "STAT":
                    self.stats[w[1]] += int(w[2])
            if p.returncode < 0:
                self.aborted(variant, start, p.returncode, stderr)
            elif p.returncode not in (0, 1):
                self.errors.append(f"{' '.join(cmd)} ended with {p.returncode}:\n{stderr[-3000:]}")
            if self.found or self.errors:
                self.stop = True
                for q in self.procs:
                    q.kill()

    def aborted(self, variant, start, code, stderr):
        """The process died in the middle of a run: the run itself is the counterexample."""
        try:
            index = int(read(os.path.join(self.out, f"progress-{variant}-{start}")).split()[0])
        except (ValueError, IndexError):
            self.errors.append(f"worker died with signal {-code}: {stderr[-2000:]}")
            return
        text = sh([self.bins[variant], "gen", self.prop, str(self.seed), str(index)]).stdout
        path = os.path.join(self.out, f"{self.prop}-{variant}-{index}.replay")
        write(path, text + f"# violation of {self.prop}: the process died with signal {-code}\n")
        self.found.append((variant, path, f"abort the process died with signal {-code}: {stderr.strip()[-300:]}"))

    def run(self):
        variants = list(self.bins)
        jobs = []
        if self.prop in MAINLY:
            k = WORKERS - 2
            jobs = [(variants[0], i, k, self.secs) for i in range(k)]
            jobs += [(v, 0, 1, max(1, self.secs * 2 // len(variants))) for v in variants[1:]]
        elif len(variants) <= WORKERS:
            for i in range(WORKERS):
                v = variants[i % len(variants)]
                k = len([j for j in jobs if j[0] == v])
                n = len([1 for j in range(WORKERS) if variants[j % len(variants)] == v])
                jobs.append((v, k, n, self.secs))
        else:
            slots = len(variants)
            each = max(1, int(self.secs * WORKERS / slots))
            jobs = [(v, 0, 1, each) for v in variants]
        threads = [threading.Thread(target=self.work, args=(jobs,)) for _ in range(WORKERS)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()


def union(out, prefix):
    s = set()
    for f in os.listdir(out):
        if f.startswith(prefix + "-"):
            with open(os.path.join(out, f), "rb") as fh:
                data = fh.read()
            s.update(struct.unpack(f"<{len(data) // 8}Q", data[:len(data) // 8 * 8]))
    return len(s)


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    began = time.time()
    binaries = build(PROPS[prop])
    built = time.time()
    secs = QUICK.get(prop, QUICK_SECS) if tier == "quick" else THOROUGH_SECS
    if os.environ.get("MBSIM_SECS"):
        secs = int(os.environ["MBSIM_SECS"])
    evidence = os.path.join(VERIF, "evidence")
    out = os.path.join(evidence, f"run-{prop}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    s = Search(prop, binaries, seed, secs, out)
    s.run()
    explored = time.time() - built
    violations = []
    for variant, path, what in s.found:
        again, text, code = replay_run(binaries[variant], path)
        if not again:
            s.errors.append(f"{path} ({what}) did not reproduce in a process of its own (exit {code}):\n{text[-1500:]}")
            continue
        keep = os.path.join(evidence, "replays")
        os.makedirs(keep, exist_ok=True)
        final = os.path.join(keep, os.path.basename(path))
        shutil.copy2(path, final)
        violations.append((final, what))
    samples = []
    for f in sorted(os.listdir(out)):
        if f.startswith("sample-") and len(samples) < 3:
            t = read(os.path.join(out, f))
            if t:
                samples.append(t[:4000])
    faults = {k[6:]: v for k, v in sorted(s.stats.items()) if k.startswith("fault_") and v}
    other = {k: v for k, v in sorted(s.stats.items()) if not k.startswith("fault_")}
    per_hour = int(s.runs / explored * 3600) if explored > 0 else 0
    import checks_text as T
    cov = {
        "evaluations": s.runs,
        "distinct_nontrivial": union(out, "runs"),
        "rule": T.RULE[prop],
        "samples": samples,
        "simulated_runs_and_seeds_per_hour": per_hour,
        "simulated_seconds": round(s.sim_us / 1e6, 3),
        "faults_injected": faults,
        "distinct_states": union(out, "states"),
        "distinct_states_measure": T.STATES,
        "counts": other,
        "variants": {v: VARIANTS[v] or "default features" for v in binaries},
        "real_components": T.REAL,
        "stub_components": T.STUB,
        "build_s": round(built - began, 1),
        "explore_s": round(explored, 1),
        "runs_with_a_violation_of_another_property_only": s.others,
    }
    os.makedirs(evidence, exist_ok=True)
    write(os.path.join(evidence, f"{prop}.json"), json.dumps({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": T.ASSUMPTIONS, "wall_s": round(time.time() - began, 1), "violations": len(violations),
    }, indent=1) + "\n")
    shutil.rmtree(out, ignore_errors=True)
    print(f"{prop}: {s.runs} simulated runs in {explored:.0f} s ({per_hour}/h), {cov['distinct_nontrivial']} distinct and "
          f"non-trivial, {sum(faults.values())} faults, {s.others} runs broke another property only")
    if violations:
        for path, what in violations:
            print(what)
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if s.errors:
        for e in s.errors:
            print(e, file=sys.stderr)
        return 2
    if s.runs == 0:
        print("no run was made", file=sys.stderr)
        return 2
    return 0


def replay(path):
    variant = next((l.split()[1] for l in read(path).splitlines() if l.startswith("variant ")), "main")
    again, text, code = replay_run(build([variant])[variant], path)
    print(text, end="")
    return 1 if again else (0 if code == 0 else 2)


def determinism(prop):
    """Same seeds in one process and in four, twice: every run must have the same digest."""
    bins = build(PROPS[prop][:2])
    bad = 0
    for v, b in bins.items():
        seen = []
        for parts in (1, 4):
            d = {}
            ps = [subprocess.Popen([b, "explore", "--prop", prop, "--seed", "7", "--start", str(i), "--step", str(parts),
                                    "--count", str(1200 // parts), "--out", "/tmp", "--digests"],
                                   stdout=subprocess.PIPE, text=True) for i in range(parts)]
            for p in ps:
                for line in p.communicate()[0].splitlines():
                    if line.startswith("DIGEST"):
                        _, i, x = line.split()
                        d[int(i)] = x
            seen.append(d)
        differ = [i for i in seen[0] if seen[0][i] != seen[1].get(i)]
        print(f"{prop} {v}: {len(seen[0])} runs, {len(differ)} differ {differ[:5]}")
        bad += len(differ)
    return 1 if bad else 0


def main():
    sys.path.insert(0, VERIF)
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build(list(VARIANTS))
        return 0
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["determinism"]:
        return max([determinism(p) for p in (a[1:] or PROPS)])
    if len(a) == 1 and a[0] in PROPS:
        return check(a[0])
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main())
