#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in bugs_*.py and tries each in a scratch copy of /repo.

  plant.py make ID...      write the folder (patch.diff from the edits)
  plant.py verify ID...    in a scratch copy: demo passes; patched: builds, stable tests pass, demo fails
  plant.py catch ID [PROPS] run the quick checks of PROPS (default: the bug's) against the patched copy
The scratch copy is bind-mounted over /repo in a mount namespace of its own.
"""
import glob, importlib.util, json, os, subprocess, sys, shutil
V = "/verif"
T = os.path.dirname(os.path.abspath(__file__))
SCR = os.environ.get("SCR", "/tmp/scr")
BUGS = {}
for f in sorted(glob.glob(os.path.join(T, "bugs_*.py"))):
    spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        assert b["id"] not in BUGS, b["id"]
        BUGS[b["id"]] = b

def sh(c, **kw):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def make(i):
    b = BUGS[i]
    d = f"{V}/seeded/{i}"
    w = "/tmp/plantwt"
    if not os.path.isdir(w):
        print(sh(f"git clone -q /repo {w}").stdout)
    sh(f"git -C {w} fetch -q origin && git -C {w} checkout -q -f origin/HEAD && git -C {w} reset -q --hard origin/HEAD")
    for (path, old, new) in b["edits"]:
        p = f"{w}/{path}"
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf: s = s.replace("\r\n", "\n")
        n = s.count(old)
        if n != 1: raise SystemExit(f"{i}: {path}: {n} matches for {old!r}")
        s = s.replace(old, new)
        if crlf: s = s.replace("\n", "\r\n")
        open(p, "w", newline="").write(s)
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    demo = open(T + "/demo.sh").read()
    demo = demo.replace("@FEATURES@", ", ".join('"%s"' % f for f in b.get("features", []))).replace("@DEPS@", b.get("deps", ""))
    if b.get("rocks"):
        demo = demo.replace("[dependencies]\n", '[dependencies]\nrocksdb = "0.18.0"\n')
        if not os.path.isdir(d + "/rocksdb_stub"):
            shutil.copytree(T + "/rocksdb_stub", d + "/rocksdb_stub")
    if "run" in b:
        demo = demo.replace('timeout 120 "$t/target/debug/demo"\n', b["run"])
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    main = b["main"]
    open(d + "/main.rs", "w").write(main)
    if "mod support" in main: shutil.copy(T + "/support.rs", d + "/support.rs")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)

def ns(script, extra=""):
    return sh(["unshare", "-m", "bash", "-c", f"mount --bind {SCR}/repo /repo\n{extra}\n{script}"])

def fresh():
    if not os.path.isdir(f"{SCR}/repo"):
        os.makedirs(SCR, exist_ok=True); sh(f"cp -a /repo {SCR}/repo")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"cd {SCR}/repo && git fetch -q /repo HEAD; git checkout -q -f {head} && git clean -fdq")

def verify(i):
    fresh()
    d = f"{V}/seeded/{i}"
    dd = "/tmp/demodir"; sh(f"mkdir -p {dd} && find {dd} -mindepth 1 -delete && cp -r {d}/. {dd} && find {dd} -name meta.json -delete -o -name '*.diff' -delete")
    r = ns(f"cd /repo && bash {dd}/demo.sh"); base = r.returncode
    if base != 0: print(i, "DEMO FAILS UNPATCHED", r.stdout[-1500:], flush=True); fresh(); return False
    r = ns(f"cd /repo && git apply {d}/patch.diff && bash {dd}/demo.sh"); 
    if r.returncode in (0, 98, 99): print(i, "DEMO PATCHED rc", r.returncode, r.stdout[-1500:], flush=True); fresh(); return False
    out = r.stdout.strip().splitlines()[-1:]
    r = ns(". /opt/vp/env.sh; cargo_test - 2>&1 | grep -E '^test .*FAILED|^error' | head -5")
    if r.stdout.strip(): print(i, "DEFAULT TESTS FAIL", r.stdout.strip()[:400], flush=True); fresh(); return False
    r = ns(f"bash /opt/vp/build.sh > {SCR}/build.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh {SCR}/out.json > {SCR}/test.log 2>&1")
    if "BUILD FAILED" in r.stdout: print(i, r.stdout); return False
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    res = json.load(open(f"{SCR}/out.json"))
    passed = set(res["passed"]) if "passed" in res else {k for k, v in res.items() if v == "pass"}
    miss = [t for t in base if t not in passed]
    print(i, "ok" if not miss else f"TESTS FAIL {len(miss)} {miss[:4]}", "demo:", out, flush=True)
    fresh()
    return not miss

def catch(i, props=None):
    fresh()
    d = f"{V}/seeded/{i}"
    props = props or [BUGS[i]["property"]]
    print(sh(f"cd {SCR}/repo && git apply {d}/patch.diff").stdout, end="")
    sh(f"mkdir -p {SCR}/verif && rsync -a --delete --exclude sim/target --exclude seeded --exclude .git {V}/ {SCR}/verif/ 2>/dev/null || (cd {V} && tar cf - --exclude=./sim/target --exclude=./seeded --exclude=./.git . | tar xf - -C {SCR}/verif)")
    if not os.path.isdir(f"{SCR}/verif/sim/target"):
        sh(f"cp -a {V}/sim/target {SCR}/verif/sim/target")
    for p in props:
        r = ns(f"cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick timeout 900 python3 check.py {p}", f"mount --bind {SCR}/verif /verif")
        ls = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "error")) ]
        tail = "" if ls else r.stdout.strip()[-1500:]
        print(i, p, "rc", r.returncode, ls[:2], tail, flush=True)
    fresh()

def quiet(patch, props):
    """All checks against a copy with a patch that keeps the behaviour."""
    fresh()
    print(sh(f"cd {SCR}/repo && git apply {patch}").stdout, end="")
    sh(f"mkdir -p {SCR}/verif && cd {V} && tar cf - --exclude=./sim/target --exclude=./seeded --exclude=./.git . | tar xf - -C {SCR}/verif")
    if not os.path.isdir(f"{SCR}/verif/sim/target"):
        sh(f"cp -a {V}/sim/target {SCR}/verif/sim/target")
    for p in props or [f"C{i:02d}" for i in range(1, 23) if i not in (19, 20)]:
        r = ns(f"cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick timeout 900 python3 check.py {p}", f"mount --bind {SCR}/verif /verif")
        print(patch, p, "rc", r.returncode, "" if r.returncode == 0 else r.stdout.strip()[-600:], flush=True)
    fresh()

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for i in ids or BUGS: make(i)
    elif cmd == "verify":
        for i in ids or BUGS: verify(i)
    elif cmd == "catch":
        catch(ids[0], ids[1:])
    elif cmd == "catchall":
        for i in ids or BUGS: catch(i)
    elif cmd == "quiet":
        quiet(ids[0], ids[1:])
    elif cmd == "list":
        print(*BUGS)
