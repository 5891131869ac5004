"""Whole values: the machine of MCVal, its trees serialized by the real serializers, random values of many types"""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
import core

CFG = """SPECIFICATION Spec
CONSTANTS
  KINDS = {%(kinds)s}
  VALS = %(vals)d
  DEPTH = %(depth)d
  WIDTH = %(width)d
  LOCS = {%(locs)s}
  RANDOM = %(random)s
  MUTANT = "%(mutant)s"
CHECK_DEADLOCK FALSE
"""
MODEL = CFG + "INVARIANTS ReadBack SameLayout\n"
GEN = CFG + "ACTION_CONSTRAINT Emit\n"
ALL = ("complete", "offset", "pure")
NUMBERS = {"complete": [4, 5, 9], "offset": [2, 3, 8], "pure": [0, 1, 6, 7]}
# deliberate errors in the machine, with bounds at which they show
MUTANTS = {"no_switch": dict(vals=1, depth=2), "drop_past": dict(vals=1, depth=2), "no_restore": dict(vals=1, depth=3),
           "no_empty": dict(vals=1, depth=2), "no_cap": dict(vals=1, depth=2), "skip_current": dict(vals=2, depth=2)}


def conf(kinds=ALL, vals=1, depth=2, width=1, locs=(1, 2), rnd=False, mutant="none"):
    return dict(kinds=", ".join('"%s"' % k for k in kinds), vals=vals, depth=depth, width=width,
                locs=", ".join(map(str, locs)), random="TRUE" if rnd else "FALSE", mutant=mutant)


C, O, P = ("complete",), ("offset",), ("pure",)
# per property: machines checked, trees generated exhaustively, kinds for random trees, styles of random values
PLAN = {
    "C01": dict(model=[conf(C, depth=3, width=2), conf(C, vals=2, locs=(1, 2, 3))],
                gen=[conf(C, depth=2, width=2), conf(C, depth=4), conf(C, vals=2)], sim=C, styles=(0, 1, 4, 5, 6)),
    "C02": dict(sim=C, styles=(0, 4, 5, 6)),
    "C03": dict(model=[conf(O, depth=3, width=2)], gen=[conf(O, depth=2, width=2), conf(O, depth=4)], sim=O, styles=(0, 1, 5, 3)),
    "C04": dict(model=[conf(P, depth=3, width=2), conf(P, depth=4, locs=(1, 2, 3))],
                gen=[conf(P, depth=2, width=2), conf(P, depth=4)], sim=P, styles=(0, 1, 5)),
    "C05": dict(sim=ALL, styles=(1,)),
    "C07": dict(styles=(4, 5)),
    "C08": dict(model=[conf(C, depth=2, width=2, locs=(1, 2, 3)), conf(ALL, depth=3)],
                gen=[conf(C, depth=2, width=2), conf(("offset", "pure"), depth=2)], sim=ALL, styles=(0, 1, 5)),
    "C09": dict(model=[conf(ALL, vals=2)], gen=[conf(ALL, vals=2)], sim=ALL, styles=(0, 4, 5)),
    "C11": dict(model=[conf(ALL, depth=3), conf(C, vals=2)], gen=[conf(ALL, depth=2), conf(ALL, depth=4)], sim=ALL,
                styles=(0, 1, 5)),
    "C12": dict(styles=(0, 2, 5)),
    "C13": dict(sim=ALL, styles=(1, 0, 5)),
    "C14": dict(styles=(2, 5)),
    "C16": dict(styles=(4, 5)),
    "C19": dict(styles=(3, 5)),
}
DEEP = {
    "C01": [conf(C, vals=2, depth=3), conf(C, vals=3, depth=1, locs=(1, 2, 3)), conf(C, depth=3, width=2, locs=(1, 2, 3))],
    "C03": [conf(O, vals=2, depth=3)],
    "C04": [conf(P, vals=2, depth=3)],
    "C08": [conf(ALL, depth=3, width=2)],
    "C09": [conf(ALL, vals=2, locs=(1, 2, 3))],
    "C11": [conf(ALL, vals=2, depth=2, locs=(1, 2, 3))],
}


def model(ck, plan):
    for i, c in enumerate(plan.get("model", [])):
        ck.model("MCVal", MODEL % c, "val-%d" % i, timeout=400)
    if ck.thorough:
        for i, c in enumerate(DEEP.get(ck.prop, [])):
            ck.model("MCVal", MODEL % c, "val-deep-%d" % i, timeout=2400)
        if plan.get("model"):
            for m, b in MUTANTS.items():
                ck.mutant("MCVal", MODEL % conf(("complete",), mutant=m, **b), "values with %s" % m)


def generated(ck, plan):
    jobs = [("val-gen%d" % i, GEN % c, ()) for i, c in enumerate(plan.get("gen", []))]
    if "sim" in plan:
        num = 8000 if ck.thorough else 800
        for d in (2, 4):
            c = conf(plan["sim"], vals=d // 2, depth=d, rnd=True)
            jobs.append(("val-sim%d" % d, GEN % c, ("-simulate", "num=%d" % num, "-depth", "3", "-seed",
                                                    str(ck.seed * 7 + d))))
    if not jobs:
        return
    with ThreadPoolExecutor(4) as ex:
        gs = list(ex.map(lambda j: ck.generate("MCVal", j[1], j[0], args=j[2]), jobs))
    rng = random.Random(ck.seed)
    limit = 10000 if ck.thorough else 1500
    f, n, total = os.path.join(ck.work, "val.tests"), 0, 0
    with open(f, "w") as fh:
        for g in gs:
            total += len(g)
            for t in (g if len(g) <= limit else rng.sample(g, limit)):
                cfgs = (0, 0, 1, 3) + ((2,) if len(t["vals"]) == 1 else ())
                kinds = NUMBERS[t["kinds"]]
                for cfg in {0, rng.choice(cfgs)}:
                    t2 = dict(t, cfg=cfg, kinds=kinds)
                    n += 1
                    fh.write(json.dumps(t2) + "\n")
    ck.notes.append("%d values generated from the machine, %d serialized" % (total, n))
    ck.validate("TraceVal", ck.both(["replay", f, ck.seed], "valgen", bin="values"), "values-generated")


def rand(ck, plan):
    styles = plan.get("styles", ())
    n = {5: 2400, 3: 2000, 6: 24} if ck.thorough else {5: 300, 3: 300, 6: 4}
    d = 4000 if ck.thorough else 500
    if not styles:
        return
    with ThreadPoolExecutor(3) as ex:
        fs = list(ex.map(lambda s: ck.both(["random", ck.seed * 10 + s, 0, n.get(s, d), s], "val%d" % s,
                                           timeout=250 if s == 3 else 600, wide=s == 3, bin="values"), styles))
    for s, f in zip(styles, fs):
        ck.validate("TraceVal", f, "values-style%d" % s)


def check(ck):
    core.build()
    plan = PLAN[ck.prop]
    model(ck, plan)
    generated(ck, plan)
    rand(ck, plan)
