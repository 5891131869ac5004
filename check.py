#!/usr/bin/env python3
"""check.py PROPERTY: exit 0 if the property held on everything explored, 1 with a VIOLATION line otherwise, 2 on
errors of the check itself.  VERIF_TIER (quick, thorough) and VERIF_SEED from the environment."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core

ASSUME = ["the harness's recording of what the public API returned and of memory contents is faithful",
          "scenarios not generated or sampled in this run are not covered by the binding to the code"]


def stages(prop):
    import store, ser, val, conf, define, derive, findings, induct
    table = {}
    for p in ("C05", "C06", "C07", "C12", "C14", "C15", "C16", "C20"):
        table.setdefault(p, []).append(store.check)
    for p in ser.PLAN:
        table.setdefault(p, []).append(ser.check)
    for p in val.PLAN:
        table.setdefault(p, []).append(val.check)
    table["C13"].insert(0, derive.check)
    table.setdefault("C17", []).append(conf.check)
    table.setdefault("C21", []).append(define.check)
    for p in ("C02", "C06", "C15", "C16", "C19"):
        table[p].append(induct.check)
    for p in findings.NAMES:
        table[p].append(findings.check)
    return table[prop]


def main():
    prop = sys.argv[1]
    ck = core.Check(prop)
    try:
        for s in stages(prop):
            s(ck)
        rc = ck.finish(ASSUME)
    except core.ToolError as e:
        print("ERROR", e)
        rc = ck.finish(ASSUME) if ck.violations else 2
    except Exception:
        traceback.print_exc()
        rc = ck.finish(ASSUME) if ck.violations else 2
    sys.exit(rc)


main()
