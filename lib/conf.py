"""Parameters of storages: the rules of Config.tla against the compiler and the helper functions"""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
import core

CFG = """SPECIFICATION Spec
CONSTANTS
  ROUND = {%s}
  MUTANT = "%s"
CHECK_DEADLOCK FALSE
"""
MODEL = CFG + "INVARIANTS Sound Total Capable\n"
GEN = CFG + "ACTION_CONSTRAINT Emit\n"
QUICK = "0, 1, 3, 4, 6, 12"
DEEP = "0, 1, 2, 3, 4, 5, 6, 7, 12, 16, 20, 29, 31, 32, 33, 48"
MUTANTS = ["sa", "mva", "mva above sa", "va", "va above mva", "max zero", "max too large", "max no multiple"]


def num(d):
    return d[0] << 48 | d[1] << 32 | d[2] << 16 | d[3]


def digits(n):
    return [n >> 48 & 65535, n >> 32 & 65535, n >> 16 & 65535, n & 65535]


def params(c):
    return ", ".join("0x%x" % num(c[k]) for k in ("sa", "mva", "va", "max"))


HEAD = """#![allow(unused, dead_code)]
use ser_raw::{storage::*, util::*, *};
use std::{borrow::BorrowMut, mem};
"""

# the ways to make a storage; P stands for the parameters
ENTRIES = [
    "let s: AlignedVec<P> = AlignedVec::new(); s.pos()",
    "let s: AlignedVec<P> = AlignedVec::with_capacity(n); s.pos()",
    "let s: AlignedVec<P> = unsafe { AlignedVec::with_capacity_unchecked(n) }; s.pos()",
    "let s = PureCopySerializer::<P, AlignedVec<P>>::new(); s.pos()",
    "let s = PureCopySerializer::<P, AlignedVec<P>>::with_capacity(n); s.pos()",
    "let s = PtrOffsetSerializer::<P, AlignedVec<P>>::new(); s.pos()",
    "let s = PtrOffsetSerializer::<P, AlignedVec<P>>::with_capacity(n); s.pos()",
    "let s = CompleteSerializer::<P, AlignedVec<P>>::new(); s.pos()",
    "let s = CompleteSerializer::<P, AlignedVec<P>>::with_capacity(n); s.pos()",
    "let s = CompleteSerializer::from_storage(AlignedVec::<P>::new()); s.pos()",
    "let s = <Own<P> as Storage>::with_capacity(n); s.pos()",
]
OWN = """
pub struct Own<const A: usize, const B: usize, const C: usize, const D: usize>(Vec<u64>, usize);
impl<const A: usize, const B: usize, const C: usize, const D: usize> Storage for Own<A, B, C, D> {
	const STORAGE_ALIGNMENT: usize = A;
	const MAX_VALUE_ALIGNMENT: usize = B;
	const VALUE_ALIGNMENT: usize = C;
	const MAX_CAPACITY: usize = D;
	fn new() -> Self { Own(Vec::new(), 0) }
	unsafe fn with_capacity_unchecked(n: usize) -> Self { Own(Vec::with_capacity(n.min(64)), 0) }
	fn capacity(&self) -> usize { self.0.capacity() }
	fn pos(&self) -> usize { self.1 }
	unsafe fn set_pos(&mut self, p: usize) { self.1 = p }
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) { self.1 += size }
	fn reserve(&mut self, n: usize) { self.0.reserve(n) }
	fn clear(&mut self) { self.1 = 0 }
	fn shrink_to_fit(&mut self) {}
}
"""
# the ways to store something: T the type, P the parameters, v: &T, n: usize
WAYS = [
    ("push", "s: &mut AlignedVec<P>", "s.push(v);"),
    ("push_slice", "s: &mut AlignedVec<P>", "s.push_slice(std::slice::from_ref(v));"),
    ("push_empty", "s: &mut AlignedVec<P>", "s.push_empty::<T>();"),
    ("push_empty_slice", "s: &mut AlignedVec<P>", "s.push_empty_slice::<T>(n);"),
    ("own push", "s: &mut Own<P>", "s.push(v);"),
    ("own push_empty_slice", "s: &mut Own<P>", "s.push_empty_slice::<T>(n);"),
]
for _k in ("PureCopy", "PtrOffset", "Complete"):
    for _st in ("AlignedVec<P>", "&mut AlignedVec<P>"):
        _s = "s: &mut %sSerializer<P, %s>" % (_k, _st)
        for _n, _b in (("push_raw", "s.push_raw(v);"), ("push_raw_slice", "s.push_raw_slice(std::slice::from_ref(v));"),
                       ("push_empty", "s.push_empty::<T>();"), ("push_empty_slice", "s.push_empty_slice::<T>(n);"),
                       ("serialize_value", "s.serialize_value(v);")):
            WAYS.append(("%s %s" % (_k, _n), _s, _b))
# these also store what points to the values
BOXED = []
for _k in ("PureCopy", "PtrOffset", "Complete"):
    _s = "s: &mut %sSerializer<P, AlignedVec<P>>" % _k
    for _n, _t in (("box", "Box<T>"), ("vec", "Vec<T>"), ("box array", "Box<[T; 2]>"), ("option box", "Option<Box<(T, u8)>>")):
        BOXED.append(("%s %s" % (_k, _n), _s, "s.serialize_value(w);", _t))
# types of a given alignment
FORMS = [
    ("plain", "#[derive(Serialize)] #[repr(align(A))] pub struct T(pub u8);"),
    ("owning", "#[derive(Serialize)] #[repr(align(A))] pub struct T(pub Vec<u8>);"),
    ("inside", "#[derive(Serialize)] #[repr(align(A))] pub struct Inner(pub u8);\n"
               "#[derive(Serialize)] pub struct T { pub a: u16, pub b: Inner }"),
    ("enum", "#[derive(Serialize)] #[repr(align(A))] pub enum T { X, Y(Box<u8>) }"),
    ("array", "#[derive(Serialize)] #[repr(align(A))] pub struct Inner(pub u32);\npub type T = [Inner; 3];"),
    ("tuple", "#[derive(Serialize)] #[repr(align(A))] pub struct Inner(pub u64);\npub type T = (u8, Inner);"),
]
LEAST = {"plain": 1, "owning": 8, "inside": 2, "enum": 8, "array": 4, "tuple": 8}
NATURAL = [("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("f32", 4), ("usize", 8), ("bool", 1), ("char", 4), ("String", 8),
           ("Vec<u16>", 8), ("(u8, u16)", 2), ("[u32; 2]", 4), ("Option<u64>", 8), ("Box<u8>", 8), ("i64", 8)]

PROBE = """
use std::alloc::{GlobalAlloc, Layout, System};
/// Blocks too large to be had are only pretended
struct Pretend;
const LARGE: usize = 1 << 28;
unsafe impl GlobalAlloc for Pretend {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.size() > LARGE || l.align() > LARGE { l.align().max(4096) as *mut u8 } else { System.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if !(l.size() > LARGE || l.align() > LARGE) { System.dealloc(p, l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
		let copied = l.size().min(n);
		if copied <= LARGE && l.align() <= LARGE { std::ptr::copy_nonoverlapping(p, q, copied) }
		self.dealloc(p, l);
		q
	}
}
#[global_allocator]
static A: Pretend = Pretend;
fn d(n: usize) -> String { format!("[{},{},{},{}]", n >> 48, n >> 32 & 65535, n >> 16 & 65535, n & 65535) }
fn r(f: impl FnOnce() -> usize + std::panic::UnwindSafe) -> String {
	std::panic::catch_unwind(f).map(d).unwrap_or("[]".to_string())
}
fn probe<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>() {
	let c = format!("{{\\"sa\\":{},\\"mva\\":{},\\"va\\":{},\\"max\\":{}}}", d(SA), d(MVA), d(VA), d(MAX));
	{
		let s = AlignedVec::<SA, MVA, VA, MAX>::new();
		println!("{{\\"api\\":\\"fresh\\",\\"c\\":{},\\"pos\\":{},\\"cap\\":{},\\"consts\\":[{},{},{},{}]}}", c, d(s.pos()), d(s.capacity()),
			d(AlignedVec::<SA, MVA, VA, MAX>::STORAGE_ALIGNMENT), d(AlignedVec::<SA, MVA, VA, MAX>::MAX_VALUE_ALIGNMENT),
			d(AlignedVec::<SA, MVA, VA, MAX>::VALUE_ALIGNMENT), d(AlignedVec::<SA, MVA, VA, MAX>::MAX_CAPACITY));
	}
	let half = MAX.checked_next_power_of_two().map(|x| x / 2).unwrap_or(1 << 62);
	for a in [1, VA, MVA, MVA + 1, half, half + 1, MAX - 1, MAX, MAX.saturating_add(1), usize::MAX] {
		if a == 0 { continue }
		println!("{{\\"api\\":\\"prealloc\\",\\"c\\":{},\\"a\\":{},\\"ret\\":{}}}", c, d(a),
			r(move || AlignedVec::<SA, MVA, VA, MAX>::with_capacity(a).capacity()));
		println!("{{\\"api\\":\\"reserve\\",\\"c\\":{},\\"a\\":{},\\"ret\\":{}}}", c, d(a),
			r(move || { let mut s = AlignedVec::<SA, MVA, VA, MAX>::new(); s.reserve(a); s.capacity() }));
	}
}
"""
HELPERS = """
	for a in alignments() {
		println!("{{\\"api\\":\\"max_capacity\\",\\"a\\":{},\\"ret\\":{}}}", d(a), r(move || aligned_max_capacity(a)));
		println!("{{\\"api\\":\\"max_u32_capacity\\",\\"a\\":{},\\"ret\\":{}}}", d(a), r(move || aligned_max_u32_capacity(a)));
	}
"""
ALIGNMENTS = """
fn alignments() -> Vec<usize> {
	let mut v = vec![0, 3, 5, 6, 7, 12, 24, 100, usize::MAX, isize::MAX as usize, u32::MAX as usize];
	for k in 0..64 { v.push(1usize << k); v.push((1usize << k) + 1); v.push((1usize << k) - 1); v.push((1usize << k) + (1 << k / 2)) }
	v
}
"""


class Compiler:
    """The repository's compiler, with the libraries built from its working tree"""

    def __init__(self, ck):
        self.ck = ck
        self.rustc = core.rustc()
        self.libs = {p: core.rlib(p) for p in ("debug", "release")}

    def run(self, src, name, profile="debug", emit="obj", crate="lib"):
        """None if it compiles, otherwise the compiler's messages"""
        f = os.path.join(self.ck.work, name + ".rs")
        with open(f, "w") as fh:
            fh.write(src)
        out = os.path.join(self.ck.work, name + (".o" if emit == "obj" else ""))
        flags = ["-C", "debug-assertions=on", "-C", "overflow-checks=on"] if profile == "debug" else ["-O"]
        rlib, deps = self.libs[profile]
        cmd = [self.rustc, "--edition", "2021", "--crate-type", crate, "--crate-name", "c", "--emit", emit, "-o", out,
               "--extern", "ser_raw=" + rlib, "-L", "dependency=" + deps, "--cap-lints", "allow", *flags, f]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        for x in (f, out if emit == "obj" else f):
            if os.path.exists(x):
                os.remove(x)
        if p.returncode == 0:
            return None
        if "internal compiler error" in p.stdout or "error" not in p.stdout:
            raise core.ToolError("rustc: " + p.stdout[-2000:])
        return p.stdout

    def program(self, src, name, profile):
        """Compile and run: what it prints, None if it does not compile"""
        if self.run(src, name, profile, "link", "bin") is not None:
            return None
        exe = os.path.join(self.ck.work, name)
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        os.remove(exe)
        if p.returncode != 0:
            self.ck.violate("a program using storages with valid parameters failed (%d)" % p.returncode,
                            {"stderr": p.stderr[-1500:], "source": src})
        return [json.loads(l) for l in p.stdout.splitlines()]


def parts(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def pick(rng, l, n):
    return list(l) if len(l) <= n else rng.sample(l, n)


def invalid_configs(ck, cc, rng, bad):
    """One program each, that must not compile"""
    rules = sorted({t["rule"] for t in bad})
    per = 120 if ck.thorough else 14
    jobs = []
    for r in rules:
        for i, t in enumerate(pick(rng, [t for t in bad if t["rule"] == r], per)):
            jobs.append((t, (i + rules.index(r)) % len(ENTRIES), ("debug", "release")[i % 2]))

    def one(k):
        t, e, profile = jobs[k]
        src = HEAD + OWN + "pub fn f(n: usize) -> usize { %s }\n" % entry(e, t["c"])
        return {"api": "config", "c": t["c"], "compiled": cc.run(src, "bad%d" % k, profile) is None, "entry": ENTRIES[e],
                "profile": profile}
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(jobs))))


def entry(e, c):
    return ENTRIES[e].replace("PureCopy", "p!").replace("PtrOffset", "o!").replace("P", params(c)).replace(
        "p!", "PureCopy").replace("o!", "PtrOffset")


def valid_configs(ck, cc, rng, good):
    """Many in one program, which is run"""
    chosen = pick(rng, good, 2000 if ck.thorough else 240)
    groups = parts(chosen, 60)

    def one(k):
        profile = ("debug", "release")[k % 2]
        src = HEAD + OWN + PROBE + ALIGNMENTS
        for i, t in enumerate(groups[k]):
            src += "pub fn f%d(n: usize) -> usize { %s }\n" % (i, entry((i + k) % len(ENTRIES), t["c"]))
        src += "fn main() {\n\tstd::panic::set_hook(Box::new(|_| {}));\n"
        for i, t in enumerate(groups[k]):
            src += "\tprobe::<%s>();\n\tf%d(0x%x);\n" % (params(t["c"]), i, num(t["c"]["mva"]))
        src += (HELPERS if k < 2 else "") + "}\n"
        out = cc.program(src, "good%d" % k, profile)
        if out is not None:
            return out + [{"api": "config", "c": t["c"], "compiled": True} for t in groups[k]]
        return [{"api": "config", "c": t["c"], "profile": profile,
                 "compiled": cc.run(HEAD + PROBE + "pub fn f() { probe::<%s>() }\n" % params(t["c"]), "good%d" % k, profile)
                 is None} for t in groups[k]]
    with ThreadPoolExecutor(8) as ex:
        return sum(ex.map(one, range(len(groups))), [])


def storing(c, way, T):
    return way[1].replace("PureCopy", "p!").replace("PtrOffset", "o!").replace("P", params(c)).replace(
        "p!", "PureCopy").replace("o!", "PtrOffset"), way[2].replace("<T>", "<%s>" % T)


def type_module(k, t, al, form, way):
    """A module that stores a type aligned to al with parameters t.c, and how it is aligned all in all"""
    if form[0] == "natural":
        defs, T, al = "", form[1], form[2]
    else:
        al = max(al, LEAST[form[0]])
        defs, T = form[1].replace("(A)", "(%d)" % al), "T"
    if len(way) == 4:
        al = max(al, 8)
        arg = "w: &%s" % way[3].replace("T", T, 1)
    else:
        arg = "v: &%s" % T
    s, b = storing(t["c"], way, T)
    return "pub mod m%d {\nuse super::*;\n%s\npub fn f(%s, %s, n: usize) { %s }\n}\n" % (k, defs, arg, s, b), al


def types(ck, cc, rng, good):
    """Types on both sides of the border, by all ways"""
    todo = {True: [], False: []}
    n = {True: 3000 if ck.thorough else 300, False: 1500 if ck.thorough else 130}
    w = {True: 0, False: 0}
    every = WAYS + BOXED
    for t in rng.sample(good, len(good)):
        mva = num(t["c"]["mva"])
        for fits, als in ((True, t["als"]), (False, t["over"])):
            if len(todo[fits]) >= n[fits]:
                continue
            forms = [("natural", x, a) for x, a in NATURAL if (a <= mva) == fits]
            cases = []
            for form in pick(rng, FORMS, 1 if als else 0) + pick(rng, forms, 1 if rng.random() < 0.3 else 0):
                al = num(rng.choice(als)) if als else 1
                if not fits and form[0] != "natural":
                    al = max(al, 2 * mva)
                if fits and form[0] != "natural" and LEAST[form[0]] > mva:
                    continue
                if al <= 1 << 29:
                    cases.append((al, form))
            for al, form in cases:
                # (a rejection should be due to the type, not to what points to it)
                way = every[w[fits] % len(every)]
                w[fits] += 1
                if len(way) == 4 and mva < 8:
                    way = WAYS[w[fits] % len(WAYS)]
                src, al = type_module(len(todo[fits]), t, al, form, way)
                todo[fits].append((src, {"api": "type", "c": t["c"], "al": digits(al), "size": 1, "way": way[0],
                                         "form": form[0]}))

    def single(k, src, e):
        profile = ("debug", "release")[k % 2]
        return dict(e, profile=profile, compiled=cc.run(HEAD + OWN + src, "type%d" % k, profile) is None)

    def many(k, group):
        src = HEAD + OWN + "".join(s for s, _ in group)
        if cc.run(src, "types%d" % k, ("debug", "release")[k % 2]) is None:
            return [dict(e, compiled=True) for _, e in group]
        return [single(2 * i + k % 2, s, e) for i, (s, e) in enumerate(group)]
    with ThreadPoolExecutor(8) as ex:
        a = [ex.submit(many, k, g) for k, g in enumerate(parts(todo[True], 40))]
        b = [ex.submit(single, k, *x) for k, x in enumerate(todo[False])]
        return sum((x.result() for x in a), []) + [x.result() for x in b]


def check(ck):
    failed = core.build_or_error()
    cc = Compiler(ck)
    ck.model("MCConfig", MODEL % (DEEP if ck.thorough else QUICK, "none"), "config", timeout=3000)
    if ck.thorough:
        for m in MUTANTS:
            ck.mutant("MCConfig", MODEL % (QUICK, m), "config without rule " + m)
    g = ck.generate("MCConfig", GEN % (DEEP if ck.thorough else QUICK, "none"), "config-gen", timeout=3000)
    rng = random.Random(ck.seed)
    good, bad = [t for t in g if t["rule"] == ""], [t for t in g if t["rule"] != ""]
    ev = {}
    ev["bad"] = invalid_configs(ck, cc, rng, bad)
    ev["good"] = valid_configs(ck, cc, rng, good)
    ev["types"] = types(ck, cc, rng, good)
    for name, evs in ev.items():
        core.log("%s: %d events" % (name, len(evs)))
        f = os.path.join(ck.work, name + ".ndjson")
        with open(f, "w") as fh:
            for i, p in enumerate(parts(evs, 200)):
                fh.write(json.dumps({"id": i, "ev": p}) + "\n")
        ck.validate("TraceConfig", [f], "config-" + name)
    ck.notes.append("%d parameter combinations from the model (%d valid); compiled: %s" % (
        len(g), len(good), {k: len(v) for k, v in ev.items()}))
    if failed and not ck.violations:
        raise failed
