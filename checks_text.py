"""Wording of the evidence files."""
STATES = ("64-bit digests of the visited storage states (store engine: sorted node locations and records together with "
          "the live versions; readers: scheduler decision prefixes; replicas: vectors of replica roots; proofs: message kinds "
          "with verdicts), at most 400000 kept per worker")
REAL = ["MerkleBIT (insert, insert_one, remove, get, get_one, proofs, verification, from_db, decompose)", "HashTree and HashDB",
        "RocksTree and the RocksDB adaptor", "tree_utils, TreeRef, TreeCell, node types, Array", "node encoders of the variant",
        "hashers of the variant", "std or hashbrown hash maps"]
STUB = ["the RocksDB library: an in-process store with its write-batch contract on the simulated disk",
        "custom storage (SimDb) with its own node types, on the simulated disk: the other end of the Database trait",
        "operating system randomness and ahash seeds: drawn from the run's seed", "network, scheduler, disk, process death and power: the simulator"]
ASSUMPTIONS = ["RocksDB applies a write batch as a whole or not at all and loses only a suffix of batches in a power loss",
               "the code under test takes no time, randomness or I/O outside the seams listed as stubs",
               "hash collisions of the shipped hashers do not occur within a run (runs with fxhash and seahash use keys for which this was checked)"]
_STORE = ("A seed draws key size, key shapes (shared prefixes of every length, boundary bits, random), values, storage, depth "
          "limit, a sequence of operations and a fault plan; a reference model (a map per acknowledged root with its holds) is "
          "compared after every operation by reading live roots and by walking the stored nodes. ")
_NT = ("Evaluations are runs; runs with equal event-log digests count once. Non-trivial: while at least two versions were live an "
       "insert on top of one or a removal was acknowledged, or a fault hit an operation, a call was refused, a batch was split or a "
       "node was damaged.")
RULE = {
    "C01": _STORE + _NT,
    "C02": _STORE + _NT,
    "C03": _STORE + "Roots are compared with the root of the same map built at once elsewhere, with maps that differ a little, and across simulated replicas fed by a lossy network. " + _NT,
    "C04": _STORE + _NT,
    "C05": _STORE + "Faults are process deaths before or after any storage call of an operation and power losses that drop a suffix of the written records. " + _NT,
    "C06": _STORE + "Faults are errors of any storage or codec call. " + _NT,
    "C07": _STORE + "Faults are errors of any storage or codec call, with later retries. " + _NT,
    "C08": _STORE + "Invalid calls of every kind are mixed in. " + _NT,
    "C09": "Half of the runs: a seed draws provers, verifiers that know only roots, a history of inserts and removals, and a network that delays, duplicates, reorders and loses proof messages. The other half: histories of the store engine with faults, restarts and proofs of every kind of key. Non-trivial: a proof of a version with at least two keys was delivered and judged.",
    "C10": "As C09, with an adversary between prover and verifier that alters, truncates, extends, splices, replays and forges messages. Non-trivial: an altered message was judged.",
    "C11": "A seed draws a history, readers and a writer that share a storage through tree handles of their own, and a schedule that decides at every storage call who goes on. Non-trivial: a read was interleaved with a write.",
    "C12": _STORE + "Nodes are removed, cut, flipped, swapped, re-linked and replaced by well-formed lies before the operations; the records are those of every serialization format in turn. " + _NT,
    "C13": _STORE + "Every stored node is compared with the subtree below it after every operation. " + _NT,
    "C14": _STORE + "All formats, with restarts from the encoded bytes. " + _NT,
    "C15": _STORE + "All hashers and hashbrown, with hash map seeds drawn per run. " + _NT,
    "C16": _STORE + "The same history runs in lock step on several storages. " + _NT,
    "C17": _STORE + "Batches are also done one by one, reads in any order and with repeats. " + _NT,
    "C18": _STORE + "Depth limits from zero to the largest number, changed by reopening. " + _NT,
    "C22": _STORE + "The run begins on the disk that a recorded fault-free history left when the recordings were made, with the roots and proofs it had then; a violation counts if the same history on a store of the present build's own has none. " + _NT,
    "C21": _STORE + "The simulated disk counts the calls of every read, proof, insert and removal; a third of the runs work on stores of hundreds to thousands of keys. " + _NT,
}
