"""Demonstrations of defects that are recorded and not repaired"""
import os, re, subprocess
import core

NAMES = {"C12": ["storage-released-while-serializing"], "C16": ["storage-cleared-while-serializing"],
         "C18": ["pointer-pushed-twice", "pointer-overwritten"]}


def listed():
    out = {}
    for l in open(os.path.join(core.VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) ([\w-]+) (.*)", l)
        if m:
            out[m.group(1), m.group(2)] = m.group(3)
    return out


def check(ck):
    core.build()
    known = listed()
    for n in NAMES[ck.prop]:
        p = subprocess.run([core.harness_bin("debug", "findings"), n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=60)
        if p.returncode == 0:
            ck.notes.append("demonstration %s: not reproduced" % n)
        elif (ck.prop, n) in known:
            ck.known.append("%s: %s" % (n, known[ck.prop, n]))
        else:
            ck.violate("demonstration %s fails (%d)" % (n, p.returncode), {"demonstration": n, "output": p.stdout[-1500:]})
