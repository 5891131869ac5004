"""The storage machine: C05 C06 C07 C12 C14 C15 C16, and for storages of the user's own C20"""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
import core

MC = """SPECIFICATION Spec
CONSTANTS
  CIDS = {%s}
  NMAX = %d
  RUNSMAX = %d
  LOCS = {%s}
  TYS = {%s}
  MUTANT = "%s"
INVARIANT AllProps
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS
  CIDS = {%s}
  NMAX = %d
  RUNSMAX = %d
  LOCS = {1, 2}
  TYS = {%s}
  MUTANT = "none"
ACTION_CONSTRAINT Emit
CONSTRAINT Bounded
VIEW GenView
CHECK_DEADLOCK FALSE
"""

# Styles of random scenarios (see harness/src/store.rs) that exercise each property
STYLES = {"C05": [0, 3], "C06": [0, 4, 5], "C07": [0, 2], "C12": [0, 1, 5], "C14": [4, 0], "C15": [2, 4], "C16": [1, 0],
          "C20": [10, 11, 12, 14]}
# deliberate errors in the machine, with configurations where they show
MUTANTS = {"no_align_after": "16", "no_min_cap": "16", "shrink_va": "16", "lose_on_move": "16",
           "pos_before_reserve": "23", "refusal_ignored": "16"}


def model(ck):
    if ck.prop == "C20":
        ck.model("MCStore", MC % ("23", 2 if ck.thorough else 1, 2 if ck.thorough else 1, "1, 3", "0, 3, 4, 13", "none"), "store-23")
    elif ck.thorough:
        ck.model("MCStore", MC % ("9", 2, 4, "1, 2, 3", "0, 1, 4, 13", "none"), "store-9-deep", timeout=600)
        ck.model("MCStore", MC % ("16", 2, 2, "1, 3", "0, 1, 2, 3, 4, 13", "none"), "store-16-deep", timeout=600)
    else:
        ck.model("MCStore", MC % ("9", 2, 2, "1, 3", "0, 1, 4, 13", "none"), "store-9")
        ck.model("MCStore", MC % ("16", 1, 1, "1, 3", "0, 3, 4, 13", "none"), "store-16")
    if ck.thorough:
        for m, c in MUTANTS.items():
            ck.mutant("MCStore", MC % (c, 1, 1, "1, 3", "0, 3, 4, 13", m), "storage with %s" % m)


def generated(ck):
    """One test per transition of the small configurations, stepped through the real storage"""
    if ck.prop == "C20":
        plan, limit = [(23, "0, 3, 4"), (23, "1, 6, 7")], 20000 if ck.thorough else 4000
    elif ck.thorough:
        plan = [(c, "0, 3, 7, 8, 13") for c in (9, 16, 2, 18, 11, 10, 17, 19, 4)]
        limit = 20000
    else:
        plan = [(9, "0, 1, 13"), (16, "0, 3, 4"), (2, "0, 3, 7"), (18, "0, 8"), (11, "0, 11")]
        limit = 1500
    with ThreadPoolExecutor(5) as ex:
        gs = list(ex.map(lambda ct: ck.generate("MCStore", GEN % (ct[0], 1, 1, ct[1]), "gen-%d-%s" % (ct[0], ct[1].replace(", ", "_"))), plan))
    rng = random.Random(ck.seed)
    tests, total = [], 0
    for g in gs:
        total += len(g)
        tests += g if len(g) <= limit else rng.sample(g, limit)
    f = os.path.join(ck.work, "gen.tests")
    with open(f, "w") as fh:
        for t in tests:
            fh.write(json.dumps(t) + "\n")
    ck.notes.append("%d transition tests generated from the storage machine, %d executed" % (total, len(tests)))
    ck.validate("TraceStore", ck.both(["store-replay", f, ck.seed], "gen"), "generated")


def rand(ck, styles, count, nops):
    with ThreadPoolExecutor(4) as ex:
        fs = list(ex.map(lambda s: ck.both(["store-random", ck.seed * 10 + s, 0, count, s, nops], "rnd%d" % s,
                                            timeout=600), styles))
    for s, f in zip(styles, fs):
        ck.validate("TraceStore", f, "random-style%d" % s)


def check(ck):
    core.build()
    model(ck)
    generated(ck)
    if ck.thorough:
        rand(ck, STYLES[ck.prop], 2500, 60)
    else:
        rand(ck, STYLES[ck.prop], 500, 40)
