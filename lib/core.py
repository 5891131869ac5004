"""Shared by all checks: building the harness, running it, running TLC, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
REPO = "/repo"
TLCJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """Something other than the code under test went wrong: exit 2"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")) and "/tests/" not in root + "/":
                out.append(os.path.join(root, f))
    return out


def repo_hash():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def cargo(cmd, timeout=800):
    """A cargo command in the harness's directory with the repository's toolchain"""
    return sh(". /opt/vp/env.sh && cd %s/harness && export CARGO_TARGET_DIR=%s CARGO_INCREMENTAL=0 && %s"
              % (VERIF, TARGET, cmd), timeout=timeout)


def build(profiles=("debug", "release")):
    """Build the harness from /repo's working tree.  Cargo goes by modification times; trees that come
    out of version control may be older than what was built before, so decide by content."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "repo.sha256")
    now = repo_hash()
    try:
        before = open(stamp).read()
    except OSError:
        before = ""
    if before != now:
        if os.path.isdir(TARGET):
            pk = "-p ser_raw -p ser_raw_derive -p ser_raw_derive_serializer"
            cargo("cargo clean --offline %s; cargo clean --offline --release %s" % (pk, pk))
        try:
            os.remove(stamp)
        except OSError:
            pass
    for p in profiles:
        r = cargo("cargo build --offline" + (" --release" if p == "release" else ""))
        if r.returncode != 0:
            raise ToolError("harness does not build (%s):\n%s" % (p, r.stdout[-4000:]))
    with open(stamp, "w") as f:
        f.write(now)


def rustc():
    return sh(". /opt/vp/env.sh && echo $RUSTC").stdout.strip()


def build_or_error():
    """None, or why the harness does not build: which may be what the check is about"""
    try:
        build()
    except ToolError as e:
        return e


def rlib(profile):
    """The library as cargo just built it, and where its dependencies are"""
    r = cargo("cargo build --offline --message-format=json%s 2>/dev/null" % (" --release" if profile == "release" else ""))
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            j = json.loads(l)
            if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "ser_raw":
                for f in j["filenames"]:
                    if f.endswith(".rlib"):
                        return f, os.path.dirname(f)
    raise ToolError("no library (%s)" % profile)


def harness_bin(profile, bin="harness"):
    return os.path.join(TARGET, profile, bin)


class Tlc:
    """Outcome of a TLC run"""

    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.finished = "Model checking completed. No error has been found." in out
        self.violated = None
        m = re.search(r"Error: Invariant (\w+) is violated", out)
        if m:
            self.violated = m.group(1)


def keep_small(p, limit_mb=4000):
    """End a process that takes so much memory that others would suffer (normally less than 1 GB is resident)"""
    while p.poll() is None:
        try:
            with open("/proc/%d/statm" % p.pid) as f:
                if int(f.read().split()[1]) * 4 > limit_mb << 10:
                    p.kill()
        except (OSError, IndexError):
            return
        time.sleep(0.2)


def tlc(module, cfg, work, name, env=None, workers=8, timeout=800, args=(), heap="8g"):
    """Run TLC on a module of the spec directory; cfg is the text of the configuration"""
    cfgf = os.path.join(work, name + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + work, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLCJAR, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", os.path.join(work, name + ".meta"), "-workers", str(workers), "-config", cfgf,
           *args, module + ".tla"]
    t = time.time()
    try:
        for again in (True, False):
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
            rc, out = p.returncode, p.stdout
            # (killed from outside, or no memory to be had: says nothing)
            if rc >= 0 and rc != 137 and "insufficient memory" not in out:
                break
    except subprocess.TimeoutExpired as x:
        rc, out = -1, (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    shutil.rmtree(os.path.join(work, name + ".meta"), ignore_errors=True)
    return Tlc(rc, out, time.time() - t)


class Violation:
    def __init__(self, what, detail, sig=""):
        self.what, self.detail, self.sig = what, detail, sig


class Check:
    """One run of one property's check"""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples, self.notes, self.stages = [], [], []
        self.violations = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violate(self, what, detail):
        with self.lock:
            self.violations.append(Violation(what, detail))
        log("violation:", what)

    # ---- the model itself

    def model(self, module, cfg, name, timeout=800, env=None, workers=8):
        r = tlc(module, cfg, self.work, name, timeout=timeout, env=env, workers=workers)
        if not r.finished:
            raise ToolError("model %s %s: %s" % (module, name, r.out[-3000:]))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.stages.append({"model": name, "states": r.distinct, "transitions": r.generated,
                                "seconds": round(r.wall, 1)})
        log("model %s: %d states, %d transitions, %.0fs" % (name, r.distinct, r.generated, r.wall))
        return r

    def mutant(self, module, cfg, name, timeout=800, env=None):
        """A model with a deliberate error, which TLC has to find"""
        r = tlc(module, cfg, self.work, re.sub(r"\W+", "-", name), timeout=timeout, env=env)
        if r.finished or not (r.violated or "Error" in r.out):
            raise ToolError("%s was not found: %s" % (name, r.out[-2000:]))
        self.notes.append("%s: found by TLC (%s)" % (name, r.violated or "error"))

    def generate(self, module, cfg, name, timeout=800, env=None, args=()):
        """Lines that the model prints as "T" followed by JSON"""
        r = tlc(module, cfg, self.work, name, env=dict({"GEN": "1"}, **(env or {})), workers=1, timeout=timeout,
                args=args)
        if not r.finished and "-simulate" not in args:
            raise ToolError("generation %s %s: %s" % (module, name, r.out[-3000:]))
        out = []
        for l in r.out.splitlines():
            if l.startswith('"T'):
                out.append(json.loads(json.loads(l)[1:]))
        if not out:
            raise ToolError("generation %s %s: nothing generated: %s" % (module, name, r.out[-3000:]))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
        return out

    # ---- the code

    def run_harness(self, profile, args, out, timeout=300, env=None, bin="harness", wide=False):
        """Run the harness.  A crash or a hang of the code under test is a violation."""
        cmd = [harness_bin(profile, bin), args[0], out] + [str(a) for a in args[1:]]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=e)
            guard = threading.Thread(target=keep_small, args=(p,), daemon=True)
            guard.start()
            _, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            rc = "timeout"
        if rc != 0:
            if rc == 3 and "harness error" in err:
                raise ToolError("harness failed: %s\n%s" % (" ".join(cmd), err[-2000:]))
            if wide and rc in ("timeout", -9):
                # (code which copies gigabytes is not wrong for that)
                self.notes.append("%s ran out of time or memory" % " ".join(map(str, args)))
            else:
                self.violate("%s of the code under test (%s)" % ("hang" if rc == "timeout" else "crash", rc),
                             {"command": cmd, "exit": rc, "stderr": err[-1500:]})
        return rc

    def both(self, args, name, timeout=300, env=None, bin="harness", wide=False):
        """Run in debug (debug assertions, overflow checks) and release; returns the trace files, one if equal"""
        outs = [os.path.join(self.work, "%s.%s.ndjson" % (name, p)) for p in ("debug", "release")]
        with ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(lambda po: self.run_harness(po[0], args, po[1], timeout, env=env, bin=bin, wide=wide),
                             zip(("debug", "release"), outs)))
        # a crashed run leaves a truncated trace
        outs = [o for o, r in zip(outs, rs) if r == 0]
        if len(outs) == 2 and same(outs[0], outs[1]):
            os.remove(outs[0])
            outs = outs[1:]
        return outs

    # ---- traces against the specification

    def validate(self, module, files, name, focus=None, timeout=800, extra=""):
        """Is every recorded trace one that the specification accepts, as far as this property goes?"""
        files = [f for f in files if os.path.getsize(f) > 0]
        if not files:
            return
        files = sum((split(f, 40 << 20) for f in files), [])
        if self.thorough:
            self.sensitive(module, files[0], name)
        env = {"FOCUS": focus or self.prop}
        cfg = ("SPECIFICATION Spec\nINVARIANT Accepted\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\nALIAS Where\n" + extra)
        for k, f in enumerate(files):
            for attempt in range(1):
                r = tlc(module, cfg, self.work, "%s%d" % (name, k), env=dict(env, TRACE=f), timeout=timeout)
            lines = open(f).read().splitlines()
            if r.finished:
                with self.lock:
                    self.states += r.distinct
                    self.transitions += r.generated - len(lines)
                    self.traces += len(lines)
                    self.stages.append({"traces": name, "scenarios": len(lines), "steps": r.distinct - len(lines),
                                        "seconds": round(r.wall, 1)})
                    if len(self.samples) < 3 and lines:
                        s = json.loads(lines[min(len(lines) - 1, 3)])
                        self.samples.append(shorten(s))
                log("traces %s: %d scenarios, %d steps, %.0fs" % (name, len(lines), r.distinct - len(lines), r.wall))
            elif r.violated or unacceptable(r.out):
                # (a step the specification cannot even make sense of is not one that it allows)
                m = re.findall(r"/?\\?\s*(?:scenario|sc) = (\d+)", r.out)
                n = re.findall(r"\b(?:event|l) = (\d+)", r.out)
                sc = int(m[-1]) if m else 1
                evn = int(n[-1]) if n else 0
                if not r.violated and n:
                    evn += 1
                s = json.loads(lines[sc - 1])
                detail = {"trace": name, "scenario": s.get("id"), "failing_event_number": evn,
                          "scenario_cfg": s.get("cfg"), "how": s.get("how"), "file": os.path.basename(f)}
                if "ev" in s:
                    detail["failing_event"] = s["ev"][evn - 1] if 0 < evn <= len(s["ev"]) else None
                    detail["events_up_to_there"] = s["ev"][max(0, evn - 200):evn]
                detail["scenario_line"] = s if len(lines[sc - 1]) < 200000 else None
                self.violate("step %d of scenario %s is not allowed by the specification (%s)" % (evn, s.get("id"), module),
                             detail)
            else:
                raise ToolError("trace validation %s: rc %s\n%s" % (name, r.rc, r.out[-3000:]))

    def sensitive(self, module, f, name, want=0.9):
        """Guard against vacuity: a recorded trace with one observation changed has to be rejected"""
        fields = {"TraceStore": ("cap", "pos", "er", "bad", "bn"), "TraceSer": ("cap", "pos", "er", "bad", "bn"),
                  "TraceVal": ("pos1", "eq", "kept", "side", "errs")}.get(module)
        if not fields:
            return
        rng = random.Random(self.seed)
        places = []
        lines = [l for l in open(f) if len(l) < 100000]
        for l in rng.sample(lines, min(len(lines), 60)):
            s = json.loads(l)
            places += [(s, j, k) for j, e in enumerate(s["ev"]) for k in fields if k in e and e.get("ok", True)]
        out = []
        for s, j, k in rng.sample(places, min(len(places), 80)):
            e = dict(s["ev"][j])
            v = e[k]
            e[k] = (not v) if isinstance(v, bool) else v + [[0, 1, 1, 0]] if isinstance(v, list) else v + rng.choice([1, 3, 64])
            out.append(dict(s, ev=s["ev"][:j] + [e]))
        n = len(out)
        rest = out
        while rest:
            g = os.path.join(self.work, name + ".corrupt.ndjson")
            with open(g, "w") as fh:
                fh.write("".join(json.dumps(s) + "\n" for s in rest))
            r = tlc(module, "SPECIFICATION Spec\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\nALIAS Where\n", self.work,
                    name + "-corrupt", env={"TRACE": g, "FOCUS": "ALL"}, args=("-continue",), workers=1)
            seen = {int(m) for m in re.findall(r"/?\\?\s*(?:scenario|sc) = (\d+)", r.out)}
            rest2 = [s for i, s in enumerate(rest) if i + 1 not in seen]
            if len(rest2) == len(rest) or not unacceptable(r.out):
                rest = rest2
                break
            rest = rest2
        hit = n - len(rest)
        self.notes.append("%s: %d of %d traces with one observation changed are rejected" % (name, hit, n))
        if n and hit < want * n:
            raise ToolError("%s: only %d of %d corrupted traces are rejected" % (name, hit, n))

    # ---- ending

    def finish(self, assumptions=(), level="model_checking", extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(no trace)"],
               "stages": self.stages}
        cov.update(extra or {})
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        rc = 0
        if self.violations:
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            for i, v in enumerate(self.violations):
                path = os.path.join(BUILD, "replay", "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "what": v.what,
                               "detail": v.detail}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + v.what)
            rc = 1
        else:
            print("OK property=%s states=%d traces=%d wall=%.0fs" % (self.prop, self.states, self.traces,
                                                                    time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def unacceptable(out):
    """Did TLC stop because a recorded step cannot be evaluated, or is no step at all?"""
    if re.search(r"OutOfMemory|StackOverflow|ran out of memory|java.io|TIMEOUT", out):
        return False
    return bool(re.search(r"Error: Postcondition Complete .* is false|The error occurred when TLC was evaluating|"
                          r"Error: (Evaluating|Attempted)|The behavior up to this point is", out))


def same(a, b):
    if os.path.getsize(a) != os.path.getsize(b):
        return False
    with open(a, "rb") as fa, open(b, "rb") as fb:
        while True:
            x, y = fa.read(1 << 20), fb.read(1 << 20)
            if x != y:
                return False
            if not x:
                return True


def split(f, limit):
    """Cut a trace file into pieces that TLC can read comfortably"""
    if os.path.getsize(f) <= limit:
        return [f]
    outs, out, size = [], None, 0
    with open(f) as fh:
        for l in fh:
            if out is None or size + len(l) > limit:
                if out:
                    out.close()
                outs.append("%s.%d" % (f, len(outs)))
                out, size = open(outs[-1], "w"), 0
            out.write(l)
            size += len(l)
    out.close()
    os.remove(f)
    return outs


def shorten(s):
    t = dict(s)
    if isinstance(t.get("ev"), list) and len(t["ev"]) > 4:
        t["ev"] = t["ev"][:4] + ["... %d more events" % (len(s["ev"]) - 4)]
    x = json.dumps(t)
    return t if len(x) < 6000 else x[:6000]
