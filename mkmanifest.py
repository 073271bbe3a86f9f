#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, sys
sys.path.insert(0, "/verif")
import check
NOTE = {
 "default": "Seeded search: no violation in the runs made is evidence, not proof. Trusts the reference model, the RocksDB and disk stand-ins and the assumptions listed in the evidence file.",
}
TECH = "deterministic simulation with fault injection: seeded search over {}"
WHAT = {
 "C01": "histories with storage faults, checked against a reference model of versions",
 "C02": "histories with storage faults, crashes and reopenings, live versions re-read after every step",
 "C03": "histories on replicas with crashes and a lossy network, roots compared with canonical rebuilds",
 "C04": "histories with storage faults, stored nodes compared exactly with the reachable ones",
 "C05": "crash and power-loss points inside and between operations, state compared with operation boundaries",
 "C06": "failing storage and codec calls",
 "C07": "failing storage and codec calls with retries, storage compared byte by byte",
 "C08": "histories with invalid calls of every kind",
 "C09": "proof exchanges over a delaying, duplicating, reordering, lossy network",
 "C10": "proof exchanges with an adversarial network",
 "C11": "interleavings of reader and writer storage calls under a seeded scheduler",
 "C12": "damage to stored nodes and lying reads",
 "C13": "histories with faults, every stored node compared with its subtree",
 "C14": "histories with restarts and crashes for every serialization format",
 "C15": "histories with faults for every hasher and hash map, under seeded hash map seeds",
 "C16": "the same history in lock step on several storages",
 "C17": "histories where batches are also done one by one",
 "C18": "histories with changing depth limits",
 "C22": "histories with faults that begin on recorded stores of the released version, in every format and with every hasher",
 "C21": "histories on small and large stores, storage calls counted by the simulated disk",
}
NA = {
 "C19": "Encoding and decoding one part alone is a pure function of its input: no schedule, time, I/O or fault reaches it. Its effect on whole trees is decided under C14.",
 "C20": "The key utilities are pure functions of their arguments: there is nothing for a simulator to schedule or fail. Their effect on whole trees is decided under C01, C13 and C17.",
}
checks = []
for p in sorted(check.PROPS):
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
      "technique": TECH.format(WHAT[p]), "level": "exploration", "level_note": NOTE.get(p, NOTE["default"])})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in check.PROPS],
 "notes": "No hooks in /repo: the Database, Encode/Decode and Hasher traits, the rocksdb and ahash crates (patched in the simulator's Cargo.toml) and getrandom are the seams. The fix: commits in /repo are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
