"""Definitions given to the derive macros: those of MCDefine, and what the compiler says about them"""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
import core
from conf import Compiler, parts, pick

CFG = """SPECIFICATION Spec
CONSTANTS
  LONGEST = %d
  MUTANT = "%s"
CHECK_DEADLOCK FALSE
"""
MODEL = CFG + "INVARIANTS Sound Total Assigned\n"
GEN = CFG + "ACTION_CONSTRAINT Emit\n"
MUTANTS = ["union", "one bound", "one proxy", "shape", "one type", "known type", "one field", "one tag", "by type"]

HEAD = """#![allow(unused, dead_code)]
use ser_raw::{pos::*, ser_traits::{self, Complete as _, PosTracking as _}, storage::*, *};
use std::borrow::{Borrow, BorrowMut};
pub type Buf = AlignedVec<16, 16, 1, 1048576>;
pub struct L(pub u8);
impl<S: Serializer> Serialize<S> for L { fn serialize_data(&self, _: &mut S) {} }
pub struct Px;
pub struct Py;
impl<T, S: Serializer> SerializeWith<T, S> for Px { fn serialize_data_with(_: &T, _: &mut S) {} }
impl<T, S: Serializer> SerializeWith<T, S> for Py { fn serialize_data_with(_: &T, _: &mut S) {} }
pub trait Extra {}
impl<T: Serializer> Extra for T {}
pub trait Other {}
impl<T: Serializer> Other for T {}
fn buf<S: Storage>(n: usize) -> S { let mut s = S::new(); s.push_bytes(&vec![7; n]); s }
fn bytes<T>(t: &T) -> Vec<u8> { unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec() }
"""
TYPE = {"": "()", "bare": "", "text": '("pure_copy")', "equals": ' = "complete"', "both": "(pure_copy, complete)",
        "nested": "(complete(x))", "path": "(ser_raw::complete)"}
NAMES = ["storage", "value", "pos_mapping", "ptrs", "r#type", "slice", "serializer", "process", "addr", "storage_mut", "a", "b"]
# what a storage field is: generics, generics with bounds, where clause, type of the field, what it borrows as
HOW = [
    ("", "", "", "Buf", "Buf"),
    ("<'a>", "<'a>", "", "&'a mut Buf", "Buf"),
    ("<B>", "<B: BorrowMut<Buf>>", "", "B", "Buf"),
    ("<B>", "<B>", "where B: BorrowMut<Buf>", "B", "Buf"),
    ("<N>", "<const N: usize>", "", "AlignedVec<16, 16, N, 1048576>", "AlignedVec<16, 16, N, 1048576>"),
    ("<N, B>", "<const N: usize, B>", "where B: BorrowMut<AlignedVec<16, 16, N, 1048576>>", "B", "AlignedVec<16, 16, N, 1048576>"),
]


def serializer(d, rng, how):
    """(definition, names of the fields)"""
    gen, bounds, where, st, target = how
    names = rng.sample(NAMES, len(d["fields"]))
    # (fields that have no tag but the name that goes with it, above all)
    for k in sorted(range(len(names)), key=lambda k: len(d["fields"][k]["tags"])):
        n = {"storage": "storage", "mapping": "pos_mapping", "ptrs": "ptrs"}.get(d["fields"][k]["is"])
        if n and n not in names and rng.random() < .7:
            names[k] = n
    fs = []
    for n, f in zip(names, d["fields"]):
        ts = []
        for t in f["tags"]:
            ts.append({"storage": "#[ser_storage(%s)]" % target, "bare": "#[ser_storage]",
                       "two": "#[ser_storage(%s, %s)]" % (target, target), "mapping": "#[ser_pos_mapping]",
                       "ptrs": "#[ser_ptrs]"}[t])
        noise = rng.choice(["", "", "/// a field\n", "#[allow(unused)] "])
        k = rng.randint(0, len(ts))
        ts = " ".join(ts[:k]) + " " + noise + " ".join(ts[k:])
        ty = {"storage": st, "mapping": "PosMapping", "ptrs": "Ptrs", "other": "u8"}[f["is"]]
        vis = rng.choice(["", "pub ", "pub(crate) "]) if d["shape"] in ("named", "tuple") else ""
        fs.append("%s %s%s%s" % (ts, vis, n + ": " if d["shape"] != "tuple" else "", ty))
    attrs = ["#[ser_type%s]" % TYPE.get(t, "(%s)" % t) for t in d["types"]]
    noise = rng.choice(["", "#[allow(dead_code)] ", "/// a serializer\n"])
    if not any(f["is"] == "storage" for f in d["fields"]):
        gen, bounds, where = "", "", ""
    body = {"named": "pub struct T%s %s { %s }" % (bounds, where, ", ".join(fs)),
            "tuple": "pub struct T%s(%s) %s;" % (bounds, ", ".join(fs), where),
            "unit": "pub struct T;",
            "enum": "pub enum T%s %s { A { %s } }" % (bounds, where, ", ".join(fs)),
            "union": "pub union T%s %s { %s }" % (bounds, where, ", ".join(fs) or "x: u8")}[d["shape"]]
    return "#[derive(Serializer)] %s%s\n%s" % (noise, " ".join(attrs), body), names


def roles(d, names, how, k):
    """Code that prints which fields play which role"""
    st = [i + 1 for i, f in enumerate(d["fields"]) if f["is"] == "storage"]
    target = how[4].replace("N", "1")
    borrowed = how[3].startswith("&")
    init = []
    for i, (n, f) in enumerate(zip(names, d["fields"]), 1):
        init.append("%s: %s" % (n, {"storage": ("&mut b%d" if borrowed else "buf::<" + target + ">(%d)") % i,
                                    "mapping": "PosMapping::new(%d, 0)" % (4096 * i), "ptrs": "Ptrs::new()",
                                    "other": "9"}[f["is"]]))
    src = "pub fn run(i: usize) {\n"
    if borrowed:
        src += "".join("let mut b%d: %s = buf(%d);\n" % (i, target, i) for i in st)
    src += "macro_rules! make { () => { T { %s } } }\n" % ", ".join(init)

    def where(is_, e):
        """index of the field that e refers to"""
        c = "0usize"
        for i, (n, f) in enumerate(zip(names, d["fields"]), 1):
            if f["is"] == is_:
                fld = "Borrow::<%s>::borrow(&s.%s) as *const %s" % (target, n, target) if is_ == "storage" else "&s.%s as *const _" % n
                c = "if p == (%s) as *const u8 { %d } else { %s }" % (fld, i, c)
        return "{ let p = (%s) as *const _ as *const u8; %s }" % (e, c)
    # (the position of an output tells which it is, unless something has been stored)
    src += "let into = { let s = make!(); let o = s.into_storage(); let o: &%s = o.borrow(); o.pos() };\n" % target
    src += "let fin = { let s = make!(); let o = s.finalize(); let o: &%s = o.borrow(); o.pos() };\n" % target
    src += "let mut s = make!();\n"
    src += "let st = %s;\nlet stm = %s;\n" % (where("storage", "s.storage() as *const _"), where("storage", "s.storage_mut() as *mut _"))
    kind = d["types"][0]
    if kind != "pure_copy":
        src += "let m = %s;\n" % where("mapping", "ser_traits::PosTracking::pos_mapping(&s) as *const _")
        ms = [(i, n) for i, (n, f) in enumerate(zip(names, d["fields"]), 1) if f["is"] == "mapping"]
        src += "let old = [%s];\nser_traits::PosTracking::set_pos_mapping(&mut s, PosMapping::new(77, 0));\n" % ", ".join("bytes(&s.%s)" % n for _, n in ms)
        src += "let mut set: Vec<usize> = vec![];\n" + "".join("if bytes(&s.%s) != old[%d] { set.push(%d) }\n" % (n, j, i) for j, (i, n) in enumerate(ms))
    else:
        src += "let m = 0;\nlet set: Vec<usize> = vec![];\n"
    if kind == "complete":
        src += "let p = %s;\nlet pm = %s;\n" % (where("ptrs", "ser_traits::Complete::ptrs(&s) as *const _"),
                                                where("ptrs", "ser_traits::Complete::ptrs_mut(&mut s) as *mut _"))
    else:
        src += "let p = 0;\nlet pm = 0;\n"
    src += ('println!("{{\\"i\\":{},\\"storage\\":{},\\"storage_mut\\":{},\\"into_storage\\":{},\\"finalize\\":{},\\"mapping\\":{},'
            '\\"set_mapping\\":{:?},\\"ptrs\\":{},\\"ptrs_mut\\":{}}}", i, st, stm, into, fin, m, set, p, pm);\n}\n')
    return src


def value(d, rng):
    fs = []
    for i, f in enumerate(d["fields"]):
        ts, ps = [], rng.sample(["Px", "Py"], 2)
        for k, t in enumerate(f["tags"]):
            ts.append({"ok": "#[ser_with(%s)]" % rng.choice(ps), "bare": "#[ser_with]", "two": "#[ser_with(Px, Py)]"}[t])
        ty = "u8" if d["shape"] == "union" else "L"
        fs.append("%s %s%s" % (" ".join(ts), "" if d["shape"] == "tuple" else NAMES[i] + ": ", ty))
    attrs = [{"ok": "#[ser_bound(%s)]" % rng.choice(["Extra", "Other", "ser_raw::Serializer"]), "bare": "#[ser_bound]",
              "two": "#[ser_bound(Extra, Other)]"}[b] for b in d["bounds"]]
    form = rng.random() < .5
    body = {"named": "pub struct T { %s }" % ", ".join(fs), "tuple": "pub struct T(%s);" % ", ".join(fs),
            "enum": "pub enum T { X, A { %s } }" % ", ".join(fs) if form or not fs else
                    "pub enum T { A(%s), B { y: L } }" % ", ".join(x.replace(NAMES[i] + ": ", "") for i, x in enumerate(fs)),
            "union": "#[derive(Clone, Copy)] pub union T { %s }" % (", ".join(fs) or "x: u8")}[d["shape"]]
    return "#[derive(Serialize)] %s\n%s" % (" ".join(attrs), body)


def module(k, body):
    return "pub mod m%d {\nuse super::*;\n%s\n}\n" % (k, body)


def check(ck):
    failed = core.build_or_error()
    cc = Compiler(ck)
    n = 6 if ck.thorough else 5
    ck.model("MCDefine", MODEL % (n, "none"), "define", timeout=3000)
    if ck.thorough:
        for m in MUTANTS:
            ck.mutant("MCDefine", MODEL % (4, m), "macro without check: " + m)
    g = ck.generate("MCDefine", GEN % (n, "none"), "define-gen", timeout=3000)
    rng = random.Random(ck.seed)
    good, bad = [t["d"] for t in g if t["rule"] == ""], [t for t in g if t["rule"] != ""]
    per = 100 if ck.thorough else 14
    jobs = []
    for r in sorted({t["rule"] for t in bad}):
        for of in ("serializer", "value"):
            jobs += [t["d"] for t in pick(rng, [t for t in bad if t["rule"] == r and t["d"]["of"] == of], per)]

    def source(d, k, run):
        r = random.Random(ck.seed * 100003 + k)
        if d["of"] == "value":
            return value(d, r)
        how = HOW[k % len(HOW)]
        src, names = serializer(d, r, how)
        return src + ("\n" + roles(d, names, how, k) if run else "")

    def refused(k):
        d = jobs[k]
        src = HEAD + source(d, k, False)
        return {"api": "define", "d": d, "compiled": cc.run(src, "bad%d" % k, ("debug", "release")[k % 2]) is None}
    ser = [d for d in good if d["of"] == "serializer"]
    val = [d for d in good if d["of"] == "value"]
    chosen = pick(rng, ser, 1500 if ck.thorough else 240) + pick(rng, val, 400 if ck.thorough else 60)
    rng.shuffle(chosen)
    groups = parts(list(enumerate(chosen)), 25)

    def accepted(j):
        profile = ("debug", "release")[j % 2]
        src = HEAD + "".join(module(k, source(d, k, d["of"] == "serializer")) for k, d in groups[j])
        src += "fn main() {\n" + "".join("m%d::run(%d);\n" % (k, k) for k, d in groups[j] if d["of"] == "serializer") + "}\n"
        out = cc.program(src, "good%d" % j, profile)
        if out is None:
            return [{"api": "define", "d": d, "profile": profile,
                     "compiled": cc.run(HEAD + module(k, source(d, k, d["of"] == "serializer")), "good%d" % j, profile) is None}
                    for k, d in groups[j]]
        ds = dict(groups[j])
        return [{"api": "define", "d": d, "compiled": True} for _, d in groups[j]] + [
            dict(o, api="roles", d=ds[o["i"]]) for o in out]
    with ThreadPoolExecutor(8) as ex:
        a = list(ex.map(refused, range(len(jobs))))
        b = sum(ex.map(accepted, range(len(groups))), [])
    for name, evs in (("bad", a), ("good", b)):
        f = os.path.join(ck.work, name + ".ndjson")
        with open(f, "w") as fh:
            for i, p in enumerate(parts(evs, 100)):
                fh.write(json.dumps({"id": i, "ev": p}) + "\n")
        ck.validate("TraceDefine", [f], "define-" + name)
    ck.notes.append("%d definitions from the model; %d ill-formed and %d well-formed ones compiled" % (len(g), len(a), len(chosen)))
    if failed and not ck.violations:
        raise failed
