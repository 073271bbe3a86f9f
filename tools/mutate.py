#!/usr/bin/env python3
"""Small mutants of /repo's sources by the hundred: which does no engine notice?

  mutate.py list                     the mutants
  mutate.py run WORKERS OUT [PART/OF] build each in a scratch copy (bind-mounted over /repo) and search for SECS per property
Survivors are candidates for blind spots (or equivalent, or unreachable): they are looked at by hand.
"""
import os, re, subprocess, sys, threading, shutil, time
REPO = "/repo"
FILES = ["src/merkle_bit.rs", "src/utils/tree_utils.rs", "src/tree_db/rocksdb.rs", "src/tree_db/hashmap.rs", "src/rocks_tree.rs",
         "src/hash_tree.rs", "src/lib.rs", "src/utils/tree_ref.rs", "src/utils/tree_cell.rs", "src/tree/tree_branch.rs", "src/tree/tree_leaf.rs",
         "src/tree/tree_data.rs", "src/tree/tree_node.rs", "src/utils/tree_ref_wrapper.rs", "src/utils/tree_ref_lock.rs", "src/traits.rs"]
SECS = int(os.environ.get("SECS", "5"))
PROPS = "C01 C04 C07 C12 C06 C08 C05 C09 C10 C11 C18 C16 C17 C03 C13 C02 C21 C14".split()
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \* ", " + "),
        (r" % ", " / "), (r" >> ", " << "), (r" << ", " >> "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"),
        (r"\b1\b", "0"), (r"\b8\b", "7"), (r"\b2\b", "3"), (r"\bif (?!let)(.+) \{$", "if true {"), (r"\bif (?!let)(.+) \{$", "if false {"),
        (r"get_zero", "get_one"), (r"get_one\(\)", "get_zero()"), (r"zero", "one"), (r"\bone\b", "zero"), (r"\bbreak\b", "continue"),
        (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"saturating_sub", "saturating_add"), (r"checked_sub", "checked_add"), (r"checked_add", "checked_sub"),
        (r"saturating_add", "saturating_sub"), (r" \+= ", " -= "), (r" -= ", " += "), (r"!(?=[a-z])", ""), (r" \| ", " & "), (r" & ", " | "), (r"\.\.=", ".."), (r"\.rev\(\)", ""),
        (r"\.skip\(1\)", ""), (r"Some\(", "None.or(Some("), ("usize::MAX", "255"), (r"push_front", "push_back"), (r"pop_front", "pop_back"), (r"is_some", "is_none"), (r"is_none", "is_some"),
        (r"is_empty\(\)", "is_empty() == false"), (r"\?$", ""), (r"Ok\(None\)", 'Err(Exception::new("m"))'), (r"as u8", "as u8 ^ 1")]

def mutants():
    out = []
    for f in FILES:
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        lines = open(p, newline="").read().split("\n")
        skip_attr = False
        for n, raw in enumerate(lines):
            l = raw.rstrip("\r")
            t = l.strip()
            if t.startswith("mod tests") or "cfg(test)" in t:
                break
            if not t or t.startswith(("//", "#", "use ", "pub use", "type ", "impl", "pub trait", "pub mod", "mod ", "where", "extern", "///", "pub fn", "fn ")):
                continue
            code = l.split(" //")[0]
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if new != code:
                        out.append((f, n, new))
            if t.endswith(";") and not t.startswith(("let ", "return", "type ", "pub ", "const ", "static ")) and re.match(r"^[\w\.\*\(]", t) and t.count("(") == t.count(")"):
                out.append((f, n, ""))
            if t.startswith("return "):
                pass
    seen, uniq = set(), []
    for m in out:
        if m not in seen:
            seen.add(m); uniq.append(m)
    return uniq

def apply(root, m, undo=None):
    f, n, new = m
    p = os.path.join(root, f)
    lines = open(p, newline="").read().split("\n")
    old = lines[n]
    cr = "\r" if old.endswith("\r") else ""
    lines[n] = (new + cr) if undo is None else undo
    open(p, "w", newline="").write("\n".join(lines))
    return old

def one(w, m, base):
    root, target = f"{base}/r{w}", f"{base}/t{w}"
    old = apply(root, m)
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=target, MBSIM_VARIANT="main", CARGO_PROFILE_RELEASE_OPT_LEVEL="1", CARGO_INCREMENTAL="0")
        sh = f"mount --bind {root} /repo && cd /verif/sim && cargo build -q --offline --release -j 2 --features rocks,bincode"
        r = subprocess.run(["unshare", "-m", "bash", "-c", sh], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return "build"
        o = f"{base}/o{w}"
        for p in PROPS:
            shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            try:
                r = subprocess.run(["bash", "-c", f"ulimit -v 3000000; exec {target}/release/mbsim explore --prop {p} --seed 77 --start 0 --step 1 --count 100000000 --secs {SECS} --out {o} --shrink 0 --show-other"],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=SECS * 6 + 60)
            except subprocess.TimeoutExpired:
                return f"killed {p} timeout"
            txt = r.stdout.decode(errors="replace")
            if r.returncode < 0 or r.returncode > 1:
                return f"killed {p} rc {r.returncode}"
            if "FOUND" in txt:
                return "killed " + p + " " + [l for l in txt.splitlines() if "FOUND" in l][0][-80:]
        return "SURVIVED"
    finally:
        apply(root, m, undo=old)

def main():
    ms = mutants()
    if sys.argv[1] == "list":
        for m in ms: print(m)
        print(len(ms)); return
    workers, out = int(sys.argv[2]), sys.argv[3]
    part, of = map(int, (sys.argv[4] if len(sys.argv) > 4 else "0/1").split("/"))
    base = os.environ.get("MUT", "/tmp/mut")
    os.makedirs(base, exist_ok=True)
    for w in range(workers):
        if not os.path.isdir(f"{base}/r{w}"):
            subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", REPO + "/", f"{base}/r{w}/"]) if shutil.which("rsync") else \
              subprocess.run(f"mkdir -p {base}/r{w} && cd {REPO} && tar c --exclude=./target --exclude=./.git . | tar x -C {base}/r{w}", shell=True)
    done = set()
    if os.path.exists(out):
        for l in open(out): done.add(l.split("\t")[0])
    todo = [(i, m) for i, m in enumerate(ms) if i % of == part and str(i) not in done]
    lock = threading.Lock()
    def work(w):
        while True:
            with lock:
                if not todo: return
                i, m = todo.pop(0)
            t = time.time()
            r = one(w, m, base)
            with lock, open(out, "a") as f:
                f.write(f"{i}\t{r}\t{m[0]}:{m[1]+1}\t{m[2].strip()}\t{time.time()-t:.0f}s\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
