"""Derived and built-in implementations: definitions from the machine of MCDerive, compiled, their visits recorded"""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
import core
from conf import Compiler, parts, pick

CFG = """SPECIFICATION Spec
CONSTANTS
  SHAPE = "%s"
  MUTANT = "%s"
CHECK_DEADLOCK FALSE
"""
MODEL = CFG + "INVARIANTS Accepted InOrder Once\n"
GEN = CFG + "INVARIANT Emit\n"
SHAPES = ("names", "types", "enums", "sizes")
# errors in the macro, and definitions that show them
MUTANTS = {"no alias": "names", "raw kept": "names", "sorted": "names", "proxy forgotten": "types", "last forgotten": "sizes",
           "no wildcard": "enums", "wildcard first": "enums", "eights": "sizes", "needs drop": "sizes"}

PRELUDE = """#![allow(unused, dead_code, non_camel_case_types, non_snake_case)]
use ser_raw::{storage::*, *};
use std::{cell::RefCell, marker::PhantomData};
thread_local! { static LOG: RefCell<Vec<i64>> = RefCell::new(Vec::new()); }
fn log(i: i64) { LOG.with(|l| l.borrow_mut().push(i)) }
pub struct L(pub i64);
impl Drop for L { fn drop(&mut self) { std::hint::black_box(self.0); } }
#[derive(Clone, Copy)] pub struct C(pub i64);
pub struct Z<const I: i64>;
impl<S: Serializer> Serialize<S> for L { fn serialize_data(&self, _: &mut S) { log(self.0) } }
impl<S: Serializer> Serialize<S> for C { fn serialize_data(&self, _: &mut S) { log(self.0) } }
impl<S: Serializer, const I: i64> Serialize<S> for Z<I> { fn serialize_data(&self, _: &mut S) { log(I) } }
pub mod far { pub struct F(pub i64); pub mod off { pub struct Pf; pub struct Pg<T, const N: usize>(pub T); } }
use far::F;
pub struct Px;
impl<S: Serializer> SerializeWith<L, S> for Px { fn serialize_data_with(v: &L, _: &mut S) { log(-v.0) } }
impl<S: Serializer> SerializeWith<Vec<L>, S> for Px { fn serialize_data_with(v: &Vec<L>, _: &mut S) { log(-v[0].0) } }
impl<S: Serializer> SerializeWith<F, S> for far::off::Pf { fn serialize_data_with(v: &F, _: &mut S) { log(-v.0) } }
impl<S: Serializer, T, const N: usize> SerializeWith<C, S> for far::off::Pg<T, N> { fn serialize_data_with(v: &C, _: &mut S) { log(-v.0) } }
pub struct Silent;
impl<T, S: Serializer> SerializeWith<T, S> for Silent { fn serialize_data_with(_: &T, _: &mut S) {} }
pub trait Extra {}
impl<T: Serializer> Extra for T {}
type Buf = AlignedVec<16, 16, 8, 0x7fff_ffff_ffff_fff0>;
type Pure = PureCopySerializer<16, 16, 8, 0x7fff_ffff_ffff_fff0, Buf>;
type Offset = PtrOffsetSerializer<16, 16, 8, 0x7fff_ffff_ffff_fff0, Buf>;
type Complete = CompleteSerializer<16, 16, 8, 0x7fff_ffff_ffff_fff0, Buf>;
fn taken(i: usize, kind: usize) {
	LOG.with(|l| { println!("{{\\"i\\":{},\\"kind\\":{},\\"log\\":{:?}}}", i, kind, l.borrow()); l.borrow_mut().clear(); })
}
"""
RUN = [("Pure", "Pure::new().serialize(v);"), ("Offset", "Offset::new().serialize(v);"),
       ("Complete", "Complete::new().serialize(v);")]
for _k, (_n, _b) in enumerate(RUN):
    PRELUDE += "fn run%d<T: Serialize<%s>>(i: usize, v: &T) { %s taken(i, %d) }\n" % (_k, _n, _b, _k)

# definitions that refer to themselves, and others the machine has no words for: (definitions, type, value, marks)
FIXED = [
    ("#[derive(Serialize)] pub enum D { Nil, Cons(L, Box<D>) }", "D",
     "D::Cons(L(1), Box::new(D::Cons(L(2), Box::new(D::Cons(L(3), Box::new(D::Nil))))))", [1, 2, 3]),
    ("#[derive(Serialize)] pub struct D { l: Option<Box<D>>, v: L, r: Option<Box<D>> }", "D",
     "{ fn n(l: Option<Box<D>>, v: i64, r: Option<Box<D>>) -> Option<Box<D>> { Some(Box::new(D { l, v: L(v), r })) }\n"
     "*n(n(None, 1, n(None, 2, None)), 3, n(n(None, 4, None), 5, None)).unwrap() }", [1, 2, 3, 4, 5]),
    ("#[derive(Serialize)] pub struct D { kids: Vec<D>, v: L }", "D",
     "D { kids: vec![D { kids: vec![], v: L(1) }, D { kids: vec![D { kids: vec![], v: L(2) }], v: L(3) }], v: L(4) }",
     [1, 2, 3, 4]),
    ("#[derive(Serialize)] pub struct A { b: Option<Box<D>>, v: L }\n#[derive(Serialize)] pub struct D { v: C, a: Vec<A> }", "D",
     "D { v: C(1), a: vec![A { b: None, v: L(2) }, A { b: Some(Box::new(D { v: C(3), a: vec![] })), v: L(4) }] }", [1, 2, 3, 4]),
    ("#[derive(Serialize)] pub struct D<T> { #[ser_with(Silent)] t: T, v: L }", "D<String>", "D { t: \"x\".into(), v: L(1) }", [1]),
    ("#[derive(Serialize)] pub enum D<T, U> where T: Copy { A(#[ser_with(Silent)] T), B { #[ser_with(Silent)] u: U, v: L }, C }",
     "D<u8, String>", "D::B { u: String::new(), v: L(1) }", [1]),
    ("#[derive(Serialize)] pub struct D<'a, const N: usize> { #[ser_with(Silent)] t: PhantomData<&'a u8>, v: [L; N] }",
     "D<'static, 3>", "D { t: PhantomData, v: [L(1), L(2), L(3)] }", [1, 2, 3]),
    ("#[derive(Serialize)] #[ser_bound(Extra)] pub struct D<const N: usize>(#[ser_with(far::off::Pg<[u8; N], 3>)] C, [C; N]);",
     "D<2>", "D(C(1), [C(2), C(3)])", [-1, 2, 3]),
    ("#[derive(Serialize)] pub enum r#type { r#match { r#type: L, r#fn: C } }", "r#type", "r#type::r#match { r#type: L(1), r#fn: C(2) }",
     [1, 2]),
    ("#[derive(Serialize)] pub enum D { Some(L), None, Ok(C), Err { e: L } }", "(D, D, D, D)",
     "(D::Err { e: L(1) }, D::Ok(C(2)), D::None, D::Some(L(3)))", [1, 2, 3]),
    ("#[derive(Serialize)] pub struct Serializer { serializer: L, value: C }", "Serializer", "Serializer { serializer: L(1), value: C(2) }",
     [1, 2]),
    ("macro_rules! def { ($t:ident, $($f:ident: $y:ty),*) => { #[derive(Serialize)] pub enum $t { X { $($f: $y),* } } } }\n"
     "def!(D, b: L, a: C);", "D", "D::X { b: L(1), a: C(2) }", [1, 2]),
    ("macro_rules! def { ($t:ident, $($y:ty),*) => { #[derive(Serialize)] pub struct $t($(pub $y),*); } }\n"
     "def!(D, L, (C, L), [C; 2]);", "D", "D(L(1), (C(2), L(3)), [C(4), C(5)])", [1, 2, 3, 4, 5]),
    ("", "Option<Option<Box<(L, Option<L>, Vec<Option<C>>)>>>", "Some(Some(Box::new((L(1), None, vec![Some(C(2)), None, Some(C(3))]))))",
     [1, 2, 3]),
    ("", "Vec<Vec<Vec<C>>>", "vec![vec![], vec![vec![C(1)], vec![], vec![C(2), C(3)]], vec![vec![C(4)]]]", [1, 2, 3, 4]),
]


def zero_sized(t):
    k = t["k"]
    if k == "zst":
        return True
    if k in ("tuple", "struct"):
        return all(zero_sized(f["ty"]) for f in t["vs"][0]["fs"])
    if k == "array":
        return t["n"] == 0 or zero_sized(t["vs"][0]["fs"][0]["ty"])
    if k == "enum":
        return len(t["vs"]) == 1 and all(zero_sized(f["ty"]) for f in t["vs"][0]["fs"])
    return False


def unseen(t):
    """Has a list or box of nothing, which serializers need not look into"""
    if t["k"] in ("vec", "box") and zero_sized(t["vs"][0]["fs"][0]["ty"]):
        return True
    return any(unseen(f["ty"]) for v in t["vs"] for f in v["fs"])


class Test:
    """Rust for one type and one value of it"""

    def __init__(self, t, rng):
        self.t, self.rng = t, rng
        self.defs, self.ids, self.n = [], 0, 0
        self.names = {}
        self.type = self.ty(t, top=True)
        self.expr, self.node = self.value(t, 0)

    def fresh(self):
        self.ids += 1
        return self.ids

    def ident(self, nm):
        return ("r#" if nm["raw"] else "") + nm["s"]

    def ty(self, t, top=False):
        k = t["k"]
        if k == "drop":
            return "L"
        if k == "copy":
            return "C"
        if k == "zst":
            t["id"] = self.fresh()
            return "Z<%d>" % t["id"]
        if k in ("with", "withgen", "foreign", "withvec"):
            return {"with": "L", "withgen": "C", "foreign": "F", "withvec": "Vec<L>"}[k]
        if k in ("array", "vec", "box", "option"):
            e = self.ty(t["vs"][0]["fs"][0]["ty"])
            return {"array": "[%s; " + str(t["n"]) + "]", "vec": "Vec<%s>", "box": "Box<%s>", "option": "Option<%s>"}[k] % e
        if k == "tuple":
            return "(%s)" % "".join(self.ty(f["ty"]) + ", " for f in t["vs"][0]["fs"])
        return self.definition(t, top)

    PROXY = {"with": "#[ser_with(Px)] ", "withgen": "#[ser_with(far::off::Pg<u8, 5>)] ", "foreign": "#[ser_with(far::off::Pf)] ",
             "withvec": "#[ser_with(Px)] "}

    def fields(self, v, x, pub, life):
        fs = []
        for f in v["fs"]:
            a = self.PROXY.get(f["ty"]["k"], "")
            if x == "doc":
                a = "#[doc = \"a part\"] #[allow(unused)] " + a
            n = self.ident(f["nm"]) + ": " if v["style"] == "named" else ""
            fs.append(a + pub + n + self.ty(f["ty"]))
        if life:
            fs.append("#[ser_with(Silent)] %s%sPhantomData<&'a ()>" % (pub, "life: " if v["style"] == "named" else ""))
        if x == "cfg":
            fs.insert(len(fs) // 2, "#[cfg(any())] %s%sNoSuchType" % (pub, "gone: " if v["style"] == "named" else ""))
        b = ", ".join(fs)
        return " { %s }" % b if v["style"] == "named" else "(%s)" % b if v["style"] == "tuple" else ""

    def definition(self, t, top):
        name = "D%d" % len(self.names)
        self.names[name] = None
        t["name"] = name
        x = t["extra"]
        vs = t["vs"]
        if x == "bound" and not top or x == "life" and t["k"] == "struct" and vs[0]["style"] == "unit" \
                or x == "cfg" and all(v["style"] == "unit" for v in vs) \
                or x == "repr" and t["k"] == "enum" and not vs or x == "discriminant" and t["k"] == "struct":
            x = ""
        t["x"] = x
        gen, use = {"const": ("<const N: usize>", "<7>"), "life": ("<'a>", "<'static>")}.get(x, ("", ""))
        attrs = "#[derive(Serialize)] "
        if x == "bound":
            attrs += "#[ser_bound(Extra)] "
        if x == "repr":
            attrs += "#[repr(C)] "
        where = " where u8: Copy" if x == "where" else ""
        if t["k"] == "struct":
            body = self.fields(vs[0], x, "pub ", x == "life")
            if vs[0]["style"] == "named":
                d = "pub struct %s%s%s%s" % (name, gen, where, body)
            else:
                d = "pub struct %s%s%s%s;" % (name, gen, body, where)
        else:
            us = []
            for i, v in enumerate(vs):
                u = "V%d%s" % (i, self.fields(v, x, "", False))
                if x == "discriminant":
                    u += " = %d" % (10 * i + 3)
                us.append(u)
            if x == "life":
                us.append("Life(#[ser_with(Silent)] PhantomData<&'a ()>)")
            if x == "discriminant":
                attrs += "#[repr(u8)] "
            d = "pub enum %s%s%s { %s }" % (name, gen, where, ", ".join(us))
        self.defs.append(attrs + d)
        return name + use

    def construct(self, head, v, salt, life, name="life"):
        es, ns = [], []
        for f in v["fs"]:
            e, n = self.value(f["ty"], salt)
            es.append(("%s: " % self.ident(f["nm"]) if v["style"] == "named" else "") + e)
            ns.append(n)
        if life:
            es.append(("life: " if v["style"] == "named" else "") + "PhantomData")
        b = ", ".join(es)
        return head + (" { %s }" % b if v["style"] == "named" else "(%s)" % b if v["style"] == "tuple" else ""), ns

    def value(self, t, salt):
        k = t["k"]
        if k == "zst":
            return "Z::<%d>" % t["id"], {"k": k, "id": t["id"], "ch": []}
        if k in ("drop", "copy", "with", "withgen", "foreign", "withvec"):
            i = self.fresh()
            e = {"drop": "L(%d)", "copy": "C(%d)", "with": "L(%d)", "withgen": "C(%d)", "foreign": "F(%d)",
                 "withvec": "vec![L(%d), L(9999)]"}[k] % i
            return e, {"k": k, "id": i, "ch": []}
        if k in ("array", "vec"):
            xs = [self.value(t["vs"][0]["fs"][0]["ty"], salt + i) for i in range(t["n"])]
            return ("vec!" if k == "vec" else "") + "[%s]" % ", ".join(e for e, _ in xs), self.inner(k, [n for _, n in xs])
        if k == "option" and t["n"] == 0:
            return "None", self.inner(k, [])
        if k in ("option", "box"):
            e, n = self.value(t["vs"][0]["fs"][0]["ty"], salt)
            return ("Some(%s)" if k == "option" else "Box::new(%s)") % e, self.inner(k, [n])
        if k == "tuple":
            xs = [self.value(f["ty"], salt) for f in t["vs"][0]["fs"]]
            return "(%s)" % "".join(e + ", " for e, _ in xs), self.inner(k, [n for _, n in xs])
        if k == "struct":
            e, ns = self.construct(t["name"] + ("::<7>" if t["x"] == "const" and t["vs"][0]["style"] != "named" else ""),
                                   t["vs"][0], salt, t["x"] == "life")
            return e, self.inner(k, ns)
        a = (t["n"] - 1 + salt) % len(t["vs"])
        e, ns = self.construct("%s::V%d" % (t["name"], a), t["vs"][a], salt, False)
        return e, self.inner(k, ns)

    @staticmethod
    def inner(k, ch):
        return {"k": k, "id": 0, "ch": ch}

    def module(self, i):
        return module(i, "\n".join(self.defs), self.type, self.expr)


def module(i, defs, typ, expr):
    return ("mod t%d {\nuse super::*;\n%s\npub fn run() {\nlet v: %s = %s;\n" % (i, defs, typ, expr)
            + "".join("run%d(%d, &v);\n" % (k, i) for k in range(3)) + "}\n}\n")


def flat(ids):
    """A recorded value for a given list of marks"""
    return {"k": "tuple", "id": 0, "ch": [{"k": "drop" if i > 0 else "with", "id": abs(i), "ch": []} for i in ids]}


def compiled(ck, cc, tests):
    """tests: (module source given a number, value).  Returns events."""
    groups = parts(tests, 90)

    def program(group, name, profile):
        src = PRELUDE + "".join(m for m, _ in group) + "fn main() {\n" + "".join(
            m[4:m.index(" {")] + "::run();\n" for m, _ in group) + "}\n"
        why = cc.run(src, name, profile, "link", "bin")
        if why is not None:
            return None, why
        exe = os.path.join(ck.work, name)
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        os.remove(exe)
        if p.returncode != 0:
            ck.violate("serializing crashed (%d)" % p.returncode, {"stderr": p.stderr[-1500:], "source": src[:20000]})
        logs = {}
        for l in p.stdout.splitlines():
            j = json.loads(l)
            logs.setdefault(j["i"], []).append(j)
        evs = []
        for m, v in group:
            i = int(m[5:m.index(" {")])
            evs.append({"api": "accept", "ok": True})
            evs += [{"api": "visit", "kind": j["kind"], "value": v, "log": j["log"], "source": m} for j in logs.get(i, [])]
        return evs, None

    def one(k):
        profile = "release" if k % 4 == 3 else "debug"
        evs, why = program(groups[k], "derive%d" % k, profile)
        if evs is not None:
            return evs
        evs = []
        for m, v in groups[k]:
            e, why = program([(m, v)], "derive%d" % k, profile)
            evs += e if e is not None else [{"api": "accept", "ok": False, "source": m, "why": why[:3000]}]
        return evs
    with ThreadPoolExecutor(8) as ex:
        return sum(ex.map(one, range(len(groups))), [])


def check(ck):
    failed = core.build_or_error()
    cc = Compiler(ck)
    for s in SHAPES:
        ck.model("MCDerive", MODEL % (s, "none"), "derive-" + s)
    if ck.thorough:
        for m, s in MUTANTS.items():
            ck.mutant("MCDerive", MODEL % (s, m), "macro with error: " + m)
    num = 12000 if ck.thorough else 700
    jobs = [(s, GEN % (s, "none"), ()) for s in SHAPES]
    jobs.append(("random", GEN % ("random", "none"), ("-simulate", "num=%d" % num, "-depth", "2", "-seed", str(ck.seed))))
    with ThreadPoolExecutor(5) as ex:
        gs = list(ex.map(lambda j: ck.generate("MCDerive", j[1], "derive-gen-" + j[0], args=j[2]), jobs))
    rng = random.Random(ck.seed)
    tests, total = [], 0
    for (s, _, _), g in zip(jobs, gs):
        total += len(g)
        limit = 100000 if ck.thorough else {"names": 216, "types": 250, "enums": 250, "sizes": 400, "random": 700}[s]
        for t in pick(rng, [t for t in g if not unseen(t)], limit):
            x = Test(t, rng)
            tests.append((x.module(len(tests)), x.node))
    for d, t, e, ids in FIXED:
        tests.append((module(len(tests), d, t, e), flat(ids)))
    evs = compiled(ck, cc, tests)
    ck.notes.append("%d definitions from the machine, %d compiled and serialized" % (total, len(tests)))
    f = os.path.join(ck.work, "derive.ndjson")
    with open(f, "w") as fh:
        for i, p in enumerate(parts(evs, 200)):
            fh.write(json.dumps({"id": i, "ev": p}) + "\n")
    ck.validate("TraceDerive", [f], "derive")
    if failed and not ck.violations:
        raise failed
