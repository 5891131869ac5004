"""Inductive invariants in numbers of any size, checked by Apalache: IndStore, IndPtr"""
import os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import core

QUICK = [(16, 16, 8), (8, 4, 1)]
ALL = [(s, m, v) for s in (1, 8, 16, 64, 4096, 1 << 29) for m in (1, 2, 8, 16, 64, 4096) for v in (1, 4, 8, 16, 64, 4096)
       if v <= m <= s]
STORE = ["max", "layout", "half", "first", "after", "shrink", "checked", "before"]
PTR = ["no switch", "address kept", "forgotten", "new address", "32 bits", "past not corrected"]


def apalache(ck, module, consts, name, timeout):
    d = os.path.join(ck.work, re.sub(r"\W+", "-", name))
    os.makedirs(d)
    with open(os.path.join(d, "m.cfg"), "w") as f:
        f.write("CONSTANTS\n%s\nINIT Init\nNEXT Next\nINVARIANT Good\n" % "\n".join(
            " %s = %s" % (k, '"%s"' % v if isinstance(v, str) else v) for k, v in consts.items()))
    t = time.time()
    try:
        p = subprocess.run(["apalache-mc", "check", "--config=" + os.path.join(d, "m.cfg"), "--length=1", "--out-dir=" + d,
                            module + ".tla"], cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, env=dict(os.environ, JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + d))
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "(out of time)"
    except OSError as e:
        out = str(e)
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"The outcome is: (\w+)", out)
    return m.group(1) if m else None, out, time.time() - t


def holds(ck, module, consts, name, timeout=240):
    o, out, wall = apalache(ck, module, consts, name, timeout)
    if o == "Error":
        raise core.ToolError("%s is not inductive: %s" % (name, out[-3000:]))
    if o == "NoError":
        with ck.lock:
            ck.stages.append({"inductive": name, "seconds": round(wall, 1)})
    else:
        ck.notes.append("%s: no answer: %s" % (name, out[-200:]))
    core.log("%s: %s, %.0fs" % (name, o, wall))


def fails(ck, module, consts, name):
    o, out, _ = apalache(ck, module, consts, name, 600)
    if o != "Error":
        raise core.ToolError("%s was not found: %s" % (name, out[-2000:]))
    ck.notes.append("%s: found by Apalache" % name)


def check(ck):
    jobs = []
    if ck.prop in ("C02", "C19"):
        jobs.append((holds, "IndPtr", dict(MUTANT="none"), "pointers of any size"))
        if ck.thorough:
            jobs += [(fails, "IndPtr", dict(MUTANT=m), "pointers with %s" % m) for m in PTR]
    if ck.prop != "C02":
        for s, m, v in ALL if ck.thorough and ck.prop == "C06" else QUICK:
            jobs.append((holds, "IndStore", dict(SA=s, MVA=m, VA=v, MUTANT="none"), "arithmetic %d-%d-%d" % (s, m, v)))
        if ck.thorough:
            jobs += [(fails, "IndStore", dict(SA=16, MVA=16, VA=8, MUTANT=m), "arithmetic with %s" % m) for m in STORE]
    with ThreadPoolExecutor(4) as ex:
        for r in [ex.submit(j[0], ck, *j[1:]) for j in jobs]:
            r.result()
