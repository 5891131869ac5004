#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
STORE = ("TLA+ storage machine checked with TLC; its transition tests replayed into the real storage; recorded traces validated with TLC",
         "Within the explored model sizes every step of the implementation-shaped storage machine satisfies the property's predicate; the same predicate is evaluated by TLC on every step recorded from the real AlignedVec (one test per transition of small configurations, plus random long scenarios over 20 configurations, debug and release builds, allocator placements chosen by the harness). Trusts the recording harness and TLC; code behaviour outside the executed scenarios is not covered.")
TECH = {p: STORE for p in ("C05", "C06", "C07", "C12", "C14", "C15", "C16")}
SER = ("TLA+ serializer machine (mapping, pointer groups, finalize; environment chooses buffer places and user operations) checked with TLC; programs and placements generated from it run by every serializer kind; recorded traces validated with TLC against the contract",
       "Within the explored model sizes every step of the implementation-shaped serializer machine honours the contract; TLC evaluates the same contract on every step recorded from the real serializers (programs generated from the machine with scripted buffer placements, and random programs, built-in and derived, owned and borrowed, three configurations, debug and release). Trusts the recording harness and TLC; code behaviour outside the executed programs is not covered.")
for p in ("C02", "C10", "C18"):
    TECH[p] = SER
VAL = ("TLA+ specification of whole values and a machine that serializes trees step by step (moving buffer, reader as invariant) checked with TLC; trees generated from it and random values of about a hundred types serialized by every serializer kind; what a reader finds in the outputs validated with TLC",
       "Within the explored tree sizes the machine's reader gets back every value wherever the buffer goes; TLC evaluates the specification (layout, pointers, capacities, words that may differ, equality as seen by a reader) on every value the real serializers wrote, in three or four configurations, debug and release, inputs overwritten before the output is read. Trusts the recording harness and TLC; values and types outside the executed ones are not covered.")
for p in ("C01", "C03", "C04", "C08", "C09", "C11"):
    TECH[p] = VAL
TECH["C20"] = (STORE[0].replace("storage machine", "storage and serializer machines, with a storage whose reserve moves on") , STORE[1].replace("the real AlignedVec", "storages and derived serializers of the harness's own over the real trait methods"))
TECH["C19"] = (SER[0] + "; for positions beyond 32 bits programs and values are run behind gaps of 4 GiB and more", SER[1])
TECH["C13"] = ("TLA+ machine of derived implementations (type shapes, names, sizes; what is visited when) checked with TLC; type definitions generated from it compiled with the derive macro, visits recorded and validated with TLC; whole values of built-in types as for C01",
               "Within the explored shapes the machine of derived code visits every field of the active variant once, in declaration order, through its proxy if it has one; definitions generated from it (and fixed ones for attributes, generics, tuples and arrays of every supported size) are compiled with the real macro and TLC evaluates the same predicate on the recorded visits. Definitions not generated are not covered.")
TECH["C17"] = ("TLA+ specification of the parameter rules, checked with TLC to be exactly what the storage needs; parameter combinations and type alignments generated from it given to the compiler, helper functions called; verdicts validated with TLC",
               "TLC confirms that the rules imply proper capacities for every request (64-bit arithmetic) over all combinations of interesting parameters; the compiler's verdict on a sample of the generated combinations (one program per invalid one, every rule, every way to make a storage or store a value, debug and release library) and the helpers' answers for about 270 alignments are evaluated by TLC against the rules. Combinations not sampled are not covered.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        t, n = TECH[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "machinery not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC); harness in harness/ (Rust, path dependency on /repo/ser_raw, no hooks in /repo); driver check.py + lib/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
