"""Serializer programs: the machine of MCSer, its tests run by the real serializers, random programs"""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
import core

CFG = """SPECIFICATION Spec
CONSTANTS
  CFG = %(cfg)d
  KINDS = {%(kinds)s}
  PMAX = %(pmax)d
  DEPTH = %(depth)d
  LEVELS = %(levels)d
  SESSIONS = %(sessions)d
  LOCS = {%(locs)s}
  FEATURES = {%(features)s}
  MUTANT = "%(mutant)s"
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
"""
MODEL = CFG + "INVARIANTS Contract GroupInv MapInv\nVIEW View\n"
GEN = CFG + "ACTION_CONSTRAINT Emit\nVIEW GenView\n"


def conf(cfg=0, kinds=(4,), pmax=64, depth=2, levels=8, sessions=1, locs=(1, 2), features=("push",), mutant="none"):
    return dict(cfg=cfg, kinds=", ".join(map(str, kinds)), pmax=pmax, depth=depth, levels=levels, sessions=sessions,
                locs=", ".join(map(str, locs)), features=", ".join('"%s"' % f for f in features), mutant=mutant)


COMPLETE, OFFSET, TRACK, PURE = (4, 5, 9), (2, 3, 8), (7,), (0, 1, 6)
EVERY = tuple(range(10))
ALLF = ("push", "raw", "empty", "ow", "reserve", "panic", "clear", "shrink", "sshrink")

# kinds there are in each configuration
HAS = {0: EVERY, 2: (0, 2, 3, 4, 5, 6, 7, 8, 9), 3: (5, 6, 7, 8, 9), 4: (1, 3, 5, 7, 9)}

# per property: model configurations (quick), generated tests (exhaustive), features of simulated programs with
# the kinds they use, styles of random programs
PLAN = {
    "C02": dict(model=[conf(levels=9), conf(cfg=2, kinds=(4,), levels=8, locs=(1, 2, 3)),
                       conf(levels=8, features=("push", "sshrink"))],
                gen=[conf(levels=8, kinds=(4,)), conf(levels=8, kinds=(9,), locs=(1, 3))],
                sim=(COMPLETE, ("push", "raw", "reserve", "shrink", "sshrink")), styles=(0, 1, 5, 7, 8)),
    "C03": dict(model=[conf(kinds=(2,), levels=9)], gen=[conf(levels=7, kinds=(2,)), conf(levels=7, kinds=(8,))],
                sim=(OFFSET, ("push", "raw", "reserve", "shrink", "sshrink")), styles=(0, 1, 7)),
    "C05": dict(styles=(0, 3)),
    "C06": dict(styles=(6,)),
    "C07": dict(sim=(EVERY, ("push", "raw", "ow", "reserve", "shrink")), styles=(0, 1)),
    "C09": dict(model=[conf(kinds=(4, 2), levels=9, sessions=2, features=("push", "raw"))],
                sim=(EVERY, ("push", "raw", "shrink")), styles=(0, 5)),
    "C10": dict(model=[conf(kinds=(7, 2, 4), levels=8, depth=3)],
                gen=[conf(levels=7, kinds=(k,), depth=4) for k in (2, 4, 7)],
                sim=((2, 3, 4, 5, 7, 8, 9), ("push", "raw", "ow")), styles=(0, 2, 7)),
    "C11": dict(sim=(EVERY, ("push", "raw", "empty", "ow", "reserve")), styles=(0, 1, 3)),
    "C12": dict(sim=(EVERY, ("push", "panic", "reserve", "shrink", "sshrink", "clear")), styles=(1, 4)),
    "C14": dict(model=[conf(cfg=2, kinds=(4,), levels=8, features=("push", "panic", "reserve")),
                       conf(cfg=2, kinds=(7,), levels=8, features=("push", "panic", "reserve"))],
                sim=(EVERY, ("push", "panic", "reserve", "ow")), styles=(4,)),
    "C15": dict(sim=(EVERY, ("push", "empty", "ow", "raw")), styles=(0, 4, 7)),
    "C16": dict(model=[conf(kinds=(4,), levels=9, sessions=2, features=("push", "clear", "shrink"))],
                sim=(EVERY, ("push", "raw", "shrink", "sshrink", "clear")), styles=(5,)),
    "C19": dict(styles=(6, 7)),
    "C20": dict(model=[conf(cfg=3, kinds=(9,), levels=7, pmax=160, features=("push", "raw")),
                       conf(cfg=4, kinds=(3, 7), levels=8, pmax=200, features=("push", "empty"))],
                gen=[conf(cfg=3, levels=6, pmax=160, kinds=(k,), features=("push", "ow", "raw")) for k in (5, 6, 7, 8, 9)],
                sim=(None, ALLF), cfgs=(3, 4), styles=(10, 11, 13, 14, 15, 18)),
    "C18": dict(model=[conf(levels=8, features=("push", "ow")), conf(kinds=(0, 2, 7), levels=8, features=("push", "ow"))],
                gen=[conf(levels=7, kinds=(k,), features=("push", "ow", "raw")) for k in (0, 2, 4, 7, 8, 9)],
                sim=(EVERY, ("push", "raw", "empty", "ow", "reserve")), styles=(0, 2, 3)),
}
DEEP = {
    "C02": [conf(levels=11, pmax=96, depth=3, locs=(1, 2)), conf(levels=10, kinds=(5,), sessions=2, features=("push", "raw", "shrink")),
            conf(levels=10, locs=(1, 2, 3), features=("push", "reserve"))],
    "C03": [conf(levels=11, kinds=(2,), depth=3)],
    "C09": [conf(kinds=(4, 2, 0, 7), levels=10, sessions=3, features=("push", "raw"))],
    "C10": [conf(kinds=(7, 2, 4), levels=10, depth=4)],
    "C14": [conf(cfg=2, kinds=(4, 2), levels=10, features=("push", "panic", "reserve"))],
    "C16": [conf(kinds=(4,), levels=11, sessions=3, features=("push", "clear", "shrink"))],
    "C18": [conf(levels=9, features=ALLF, sessions=1), conf(kinds=(0, 2, 7), levels=10, features=("push", "ow", "raw"))],
}


# deliberate errors in the machine, with bounds at which they show
MUTANTS = {m: conf(mutant=m) for m in ("stale_base", "no_switch", "drop_past", "skip_current", "skip_past", "new_map")}
MUTANTS["no_restore"] = conf(kinds=(7,), depth=3, mutant="no_restore")
MUTANTS["pos_before_reserve"] = conf(cfg=3, kinds=(9,), levels=7, pmax=160, features=("push", "raw"),
                                     mutant="pos_before_reserve")


def model(ck, plan):
    for i, c in enumerate(plan.get("model", [])):
        ck.model("MCSer", MODEL % c, "ser-%d" % i, timeout=400)
    if ck.thorough:
        for i, c in enumerate(DEEP.get(ck.prop, [])):
            ck.model("MCSer", MODEL % c, "ser-deep-%d" % i, timeout=1800)
        if plan.get("model"):
            for m, c in MUTANTS.items():
                ck.mutant("MCSer", MODEL % c, "serializer that %s" % m)


def generated(ck, plan):
    """Programs, with the places the buffer goes to, from the machine"""
    jobs = [("ser-gen%d" % i, GEN % c, "1", ()) for i, c in enumerate(plan.get("gen", []))]
    if "sim" in plan:
        kinds, features = plan["sim"]
        num = 6000 if ck.thorough else 500
        for cfg in plan.get("cfgs", (0, 2)):
            c = conf(cfg=cfg, kinds=[k for k in kinds or HAS[cfg] if k in HAS[cfg]], pmax=400, depth=5, levels=1000, sessions=3,
                     locs=(1, 2, 3, 33), features=features)
            jobs.append(("ser-sim%d" % cfg, GEN % c, "whole",
                         ("-simulate", "num=%d" % num, "-depth", "45", "-seed", str(ck.seed * 7 + cfg))))
    if not jobs:
        return
    with ThreadPoolExecutor(4) as ex:
        gs = list(ex.map(lambda j: ck.generate("MCSer", j[1], j[0], env={"GEN": j[2]}, args=j[3]), jobs))
    rng = random.Random(ck.seed)
    limit = 20000 if ck.thorough else 3000
    f, n, total = os.path.join(ck.work, "ser.tests"), 0, 0
    with open(f, "w") as fh:
        for g in gs:
            total += len(g)
            for t in (g if len(g) <= limit else rng.sample(g, limit)):
                n += 1
                fh.write(json.dumps(t) + "\n")
    ck.notes.append("%d serializer programs generated from the machine, %d executed" % (total, n))
    ck.validate("TraceSer", ck.both(["prog-replay", f, ck.seed], "sergen"), "programs-generated")


def rand(ck, plan):
    styles = plan.get("styles", ())
    n = {2: 150, 3: 60, 6: 300, 8: 60, 7: 500 if ck.prop == "C19" else 120} if not ck.thorough else {2: 1200, 3: 600, 6: 2000, 7: 3000, 8: 800}
    d = 4000 if ck.thorough else 500
    with ThreadPoolExecutor(3) as ex:
        fs = list(ex.map(lambda s: ck.both(["prog-random", ck.seed * 10 + s, 0, n.get(s % 10, d), s], "prog%d" % s,
                                            timeout=250 if s in (6, 7) else 600, wide=s in (6, 7)), styles))
    for s, f in zip(styles, fs):
        ck.validate("TraceSer", f, "programs-style%d" % s)


def check(ck):
    core.build()
    plan = PLAN[ck.prop]
    model(ck, plan)
    generated(ck, plan)
    rand(ck, plan)
