"""Shared machinery of the checks: building the harness from /repo, running TLC on the
specification, running inputs through the real code, and comparing the two."""
import concurrent.futures as cf
import functools
import gzip
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
TARGET = os.path.join(WORK, "target")
JOBS = 8
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (neither pass nor violation)."""


class Run:
    """One run of one check: scratch directory, counters for the evidence, violations."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(WORK, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.by_family = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.extra = {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def thorough(self):
        return self.tier == "thorough"

    def count(self, family, n=1):
        self.by_family[family] = self.by_family.get(family, 0) + n
        self.traces += n

    def sample(self, what):
        if len(self.samples) < 6:
            self.samples.append(what)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def violation(self, what, detail):
        """Record a violation: `what` in a few words, `detail` a JSON-able replay record."""
        self.violations.append((what, detail))

    def finish(self, assumptions=()):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "traces_by_family": self.by_family,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            print("OK property=%s traces=%d states=%d wall=%.1fs" % (self.prop, self.traces, self.states, time.time() - self.t0))
            return 0
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for what, detail in self.violations[:10]:
            rec = {"property": self.prop, "what": what, **detail}
            text = json.dumps(rec, indent=1)
            name = "%s-%s.json" % (self.prop, hashlib.sha256(text.encode()).hexdigest()[:12])
            if name in seen:
                continue
            seen.add(name)
            with open(os.path.join(rd, name), "w") as f:
                f.write(text)
            print("violated: " + "".join(ch if ch.isprintable() else "?" for ch in what[:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join("replays", name)))
        if len(self.violations) > 10:
            print("(%d violations in total)" % len(self.violations))
        return 1


# ---------------------------------------------------------------- building
def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    # a warning in a feature combination that only this harness uses is not a finding
    e["RUSTFLAGS"] = "--cap-lints=warn"
    e.pop("CARGO_TARGET_DIR", None)
    return e


VARIANTS = {
    # name: (profile, features)
    "release": ("release", ""),
    "checked": ("checked", ""),
    "threadsafe": ("release", "threadsafe"),
    "hooks": ("checked", "hooks"),
    "sendsync": ("release", "sendsync"),
}


class BuildError(CheckError):
    """The harness did not build."""



def build(variant):
    """Build the harness with /repo's current working tree; path of the program."""
    profile, feats = VARIANTS[variant]
    tgt = os.path.join(TARGET, variant)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", profile, "--target-dir", tgt]
    if feats:
        cmd += ["--features", feats]
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("building the harness (%s) failed:\n%s" % (variant, r.stdout[-4000:]))
    return os.path.join(tgt, profile, "cbh")


def build_all(variants):
    with cf.ThreadPoolExecutor(len(variants)) as ex:
        return dict(zip(variants, ex.map(build, variants)))


# ---------------------------------------------------------------- TLC
RE_STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc(run, module, cfg=None, env=None, workers=JOBS, mem="8g", timeout=840, ok_codes=(0,), extra=()):
    """Run TLC; yields its lines of output as a list."""
    meta = run.path("states-" + module + "-" + str(time.time_ns()))
    cmd = ["java", "-Xss256m", "-Xmx" + mem, "-Djava.io.tmpdir=" + run.dir, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", cfg or module + ".cfg", module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    out = run.path("tlc-%s-%d.out" % (module, time.time_ns()))
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s took more than %d s" % (module, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, errors="replace") as f:
        lines = f.read().split("\n")
    for l in lines:
        m = RE_STATES.match(l)
        if m:
            run.transitions += int(m.group(1).replace(",", ""))
            run.states += int(m.group(2).replace(",", ""))
    if r.returncode not in ok_codes:
        tail = "\n".join(l[:300] for l in lines if not l.startswith('"X') and not l.startswith("<<"))[-3000:]
        raise CheckError("TLC on %s ended with code %d:\n%s" % (module, r.returncode, tail))
    os.unlink(out)
    return lines


def unquote(line):
    """A string printed by TLC's PrintT."""
    return line[1:-1].replace('\\"', '"')


# ---------------------------------------------------------------- cases
class Case:
    __slots__ = ("b", "m", "p", "fam", "exp")

    def __init__(self, b, m, p, fam, exp=None):
        self.b, self.m, self.p, self.fam, self.exp = b, m, p, fam, exp


@functools.lru_cache(None)
def spec_hash():
    h = hashlib.sha256()
    for n in sorted(os.listdir(SPEC)):
        if n.endswith((".tla", ".cfg")):
            with open(os.path.join(SPEC, n), "rb") as f:
                h.update(n.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:16]


# the module with the behaviours: Gen, or Props (with the listed properties as invariants)
GEN = "Props"


def family(run, name, arg="", props=None, modes="", remode=None, expect=True):
    """The behaviours of the specification for a family of inputs: the inputs are written by
    Families.tla, TLC explores ClassFile on all of them (checking the invariants of the design in
    every state) and prints what each must come to.  props: only the cases of these properties
    (or in these modes); remode: only the cases in these modes, each in the modes it is mapped to;
    expect: whether the behaviours are explored (otherwise only the inputs are made).
    name: a family of Families.tla, with "@k" with its pool in the guise k (GenBase),
    with "+n" behind n other pool entries, with "/n" every n-th of its cases only.
    What setup.sh explored already with this very specification is taken from there."""
    def wanted(d_m, d_p):
        return props is None or d_m in modes or bool(set(d_p.split(",")) & props)
    hit = load_family(run, name, arg, remode, expect)
    if hit is not None:
        return [c for c in hit if wanted(c.m, c.p)]
    full = name
    name, every = (name.split("/") + ["1"])[:2]
    name, fill = (name.split("+") + [""])[:2]
    name, kit = (name.split("@") + [""])[:2]
    cdir = run.path("fam-" + full.replace("/", "-") + arg)
    os.makedirs(cdir)
    f = os.path.join(cdir, "c.nd")
    tlc(run, "Families", env={"FAMILY": name, "ARG": arg, "FILL": fill, "KIT": kit, "OUT": f}, workers=1, mem="4g")
    with open(f + ".pre") as h:
        pre = json.loads(h.readline())
    cases = []
    keep = []
    with open(f) as h:
        for at, line in enumerate(h):
            if at % int(every):
                continue
            d = json.loads(line)
            if remode is not None and d["m"] not in remode:
                continue
            if len(fill) > 4 and d["m"] != "a":
                continue        # (a pool this long is explored in one mode)
            if not wanted(d["m"], d["p"]):
                continue
            for m in remode[d["m"]] if remode else d["m"]:
                d["m"] = m
                keep.append(line if remode is None else json.dumps(d) + "\n")
                cases.append(Case(bytes(pre["pre"]) + bytes(d["b"]), m, d["p"], name + arg + (kit and "@" + kit) + (fill and "+" + fill)))
    before = run.states, run.transitions
    if cases and expect:
        with open(f, "w") as h:
            h.writelines(keep)
        for line in tlc(run, GEN, env={"CASES": f}, mem="6g"):
            if line.startswith('"X '):
                _, k, o = unquote(line).split(" ", 2)
                k = int(k)
                if k == 0:
                    raise CheckError("the common prefix of family %s is rejected by the specification" % name)
                cases[k - 1].exp = o
        missing = [i for i, c in enumerate(cases) if c.exp is None]
        if missing:
            raise CheckError("no behaviour for %d cases of family %s (first: %d)" % (len(missing), name, missing[0]))
    shutil.rmtree(cdir)
    if SAVE and props is None:
        save_family(full, arg, remode, expect, cases, run.states - before[0], run.transitions - before[1])
    return cases


# What setup.sh explores for all checks is kept by the hash of the whole specification.
CACHE = os.path.join(WORK, "cache")
SAVE = False


def cache_file(name, arg, remode, expect):
    mode = "-" + "".join(sorted(remode)) if remode else ""
    return os.path.join(CACHE, spec_hash() + GEN, name.replace("/", "_") + "-" + arg + mode + ("" if expect else "-in") + ".gz")


def load_family(run, name, arg, remode, expect):
    for e in (True,) if expect else (True, False):
        try:
            with gzip.open(cache_file(name, arg, remode, e), "rt", newline="\n") as h:
                head = json.loads(h.readline())
                cases = []
                for line in h:
                    m, p, b, x = line[:-1].split("\t", 3)
                    cases.append(Case(bytes.fromhex(b), m, p, head["fam"], x if expect else None))
        except FileNotFoundError:
            continue
        except (OSError, EOFError, ValueError) as err:
            run.log("not taken from the cache: %s (%s)" % (name, err))
            continue
        if len(cases) != head["cases"]:
            continue
        if expect:
            run.states += head["states"]
            run.transitions += head["transitions"]
        return cases
    return None


def save_family(name, arg, remode, expect, cases, states, transitions):
    fn = cache_file(name, arg, remode, expect)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with gzip.open(fn + ".tmp", "wt", compresslevel=1, newline="\n") as h:
        h.write(json.dumps({"fam": cases[0].fam if cases else name, "cases": len(cases), "states": states, "transitions": transitions}) + "\n")
        for c in cases:
            h.write("%s\t%s\t%s\t%s\n" % (c.m, c.p, c.b.hex(), c.exp or ""))
    os.rename(fn + ".tmp", fn)


def judge(run, cases, observed, batch=2000):
    """Trace validation: check recorded outcomes against the specification.  Returns
    {index: expected outcome} for the cases whose observed outcome is not the specified one."""
    bad = {}
    for at in range(0, len(cases), batch):
        part = cases[at:at + batch]
        f = run.path("judge-%d.nd" % at)
        with open(f, "w") as h:
            for i, c in enumerate(part):
                o = observed[at + i]
                h.write(json.dumps({"b": list(c.b), "m": c.m, "o": o if o[:1] in "AR" else "?"}, separators=(",", ":")) + "\n")
        done = 0
        for line in tlc(run, "Judge", env={"CASES": f}):
            if line.startswith('"N '):
                _, k, o = unquote(line).split(" ", 2)
                bad[at + int(k) - 1] = o
            elif line.startswith('"Y '):
                done += 1
        os.unlink(f)
        if done + sum(1 for k in bad if k >= at) != len(part):
            raise CheckError("the specification gave no verdict on some recorded traces")
    return bad


# ---------------------------------------------------------------- the real code
class Obs:
    __slots__ = ("o", "flags", "peak", "err")

    def __init__(self, o, flags="", peak=0, err=""):
        self.o, self.flags, self.peak, self.err = o, flags, peak, err


def observe_shard(prog, cases, idx, base, timeout):
    """Run some cases in one process; restart it after the case that kills it."""
    res = {}
    todo = list(idx)
    crashes = 0
    while todo:
        fin, fout = base + ".in", base + ".out"
        with open(fin, "w") as h:
            for i in todo:
                h.write("%d %s %s\n" % (i, cases[i].m, cases[i].b.hex()))
        if os.path.exists(fout):
            os.unlink(fout)
        try:
            r = subprocess.run([prog, "obs", fin, fout, "err"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            code, err = r.returncode, r.stderr[-300:].decode(errors="replace")
        except subprocess.TimeoutExpired:
            code, err = "timeout", ""
        done = 0
        if os.path.exists(fout):
            with open(fout, errors="replace", newline="\n") as h:
                for line in h:
                    if not line.endswith("\n"):
                        break
                    p = line[:-1].split("\t")
                    if p[1] == "T":
                        res[int(p[0])] = Obs("T")
                    else:
                        res[int(p[0])] = Obs(p[1], p[2], int(p[3]), p[4])
                    done += 1
        if done < len(todo):
            if done == 0 or res[todo[done - 1]].o != "T":
                res[todo[done]] = Obs("C:%s %s" % (code, " ".join(err.split())))
                done += 1
            crashes += 1
            hung = sum(1 for o in res.values() if o.o == "T")
            if crashes > 20 or hung > 1:
                for i in todo[done:]:
                    res[i] = Obs("?skipped after too many crashes")
                break
        todo = todo[done:]
    for p in (base + ".in", base + ".out"):
        if os.path.exists(p):
            os.unlink(p)
    return res


def drive(run, prog, args, lines, timeout=600, idle=None):
    """Run a harness command on an input file; its output lines, split at tabs, and its exit code
    ("timeout" after that many seconds, or when none of its lines came for so many)."""
    fin, fout = run.path("in-%d" % time.time_ns()), run.path("out-%d" % time.time_ns())
    with open(fin, "w") as h:
        h.writelines(l + "\n" for l in lines)
    ferr = fout + ".err"
    with open(ferr, "wb") as eh:
        r = subprocess.Popen([prog, args[0], fin, *args[1:], fout], stdout=subprocess.DEVNULL, stderr=eh)
        end, quiet, size = time.time() + timeout, time.time() + (idle or timeout), -1
        while True:
            try:
                code = r.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                n = os.path.getsize(fout) if os.path.exists(fout) else -1
                if n != size:
                    quiet, size = time.time() + (idle or timeout), n
                if time.time() > min(end, quiet):
                    r.kill()
                    r.wait()
                    code = "timeout"
                    break
    with open(ferr, "rb") as eh:
        err = eh.read()[-300:].decode(errors="replace")
    os.unlink(ferr)
    out = []
    if os.path.exists(fout):
        with open(fout, errors="replace", newline="\n") as h:
            out = [l[:-1].split("\t") for l in h if l.endswith("\n")]
        os.unlink(fout)
    os.unlink(fin)
    return out, code, err


def observe(run, prog, cases, timeout=600):
    """What the real code does on every case."""
    n = min(JOBS, max(1, len(cases) // 50 + 1))
    with cf.ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(observe_shard, prog, cases, range(k, len(cases), n), run.path("obs-%d-%d" % (k, time.time_ns())), timeout)
                for k in range(n)]
        res = {}
        for f in futs:
            res.update(f.result())
    return [res[i] for i in range(len(cases))]


# ---------------------------------------------------------------- comparison
KIND_PROP = {}
for _k in ("Module", "ModulePackages", "ModuleMainClass"):
    KIND_PROP[_k] = "C15"
for _k in ("RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "AnnotationDefault",
           "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"):
    KIND_PROP[_k] = "C16"
for _k in ("RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"):
    KIND_PROP[_k] = "C17"
KIND_PROP["StackMapTable"] = "C18"
for _k in ("Code", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable"):
    KIND_PROP[_k] = "C19"
KIND_PROP["Other"] = "C13"


def diff_attrs(a, b, m, out):
    if len(a) != len(b):
        out.add("C13")
        return
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] != y[0] or x[1] != y[1]:
            out.add("C13")
            if x[0] == y[0] and x[1] in KIND_PROP:
                out.add(KIND_PROP[x[1]])
        elif x[1] == "Code":
            p, q = x[2], y[2]
            if p[:3] != q[:3] or p[4] != q[4]:
                out.add("C19")
            if p[3] != q[3]:
                out.add("C22" if m == "l" else "C20")
                if len(p[3]) != len(q[3]):
                    out.add("C23")
            diff_attrs(p[5], q[5], m, out)
        elif x[1] == "Record":
            if len(x[2]) != len(y[2]) or any(p[:2] != q[:2] for p, q in zip(x[2], y[2])):
                out.add("C14")
            else:
                for p, q in zip(x[2], y[2]):
                    diff_attrs(p[2], q[2], m, out)
        else:
            out.add(KIND_PROP.get(x[1], "C14"))


def diff_members(a, b, m, prop, out):
    if len(a) != len(b):
        out.add(prop)
        return
    for x, y in zip(a, b):
        if x[:3] != y[:3]:
            out.add(prop)
        diff_attrs(x[3], y[3], m, out)


def owners(exp, obs, m):
    """The properties a difference between two accepted outcomes bears on."""
    out = set()
    try:
        x, y = json.loads(exp[1:]), json.loads(obs[1:])
        if x[:6] != y[:6]:
            out.add("C08")
        diff_members(x[6], y[6], m, "C09", out)
        diff_members(x[7], y[7], m, "C10", out)
        diff_attrs(x[8], y[8], m, out)
        if x[9] != y[9]:
            out.add("C05")
    except (ValueError, IndexError, TypeError):
        out.add("C13")
    if m == "p":
        out = {"C06"}
    if m == "d":
        out.add("C07")
    return out


def first_difference(a, b):
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    lo = max(0, i - 60)
    return "specified ..%s.. observed ..%s.." % (a[lo:i + 60], b[lo:i + 60])


def describe(c, exp, obs):
    def short(o):
        return "accept" if o[:1] == "A" else "reject" if o == "R" else "panic (%s)" % o[2:160] if o[:1] == "P" else \
               "does not end" if o == "T" else "crash (%s)" % o[2:160]
    if exp[:1] == "A" and obs[:1] == "A":
        return "%s: reported values differ: %s" % (c.fam, first_difference(exp, obs))
    return "%s: specified %s, observed %s" % (c.fam, short(exp), short(obs))


def replay_record(c, exp, obs, extra=None):
    d = {"kind": "input", "family": c.fam, "mode": c.m, "input_hex": c.b.hex(), "specified": exp[:20000], "observed": obs[:20000]}
    d.update(extra or {})
    return d


def attribute(run, c, exp, ob):
    """Does this difference bear on the property being checked?"""
    tags = set(c.p.split(","))
    o = ob.o
    if o[:1] == "?":
        return False        # not run, after too many crashes, which are reported
    if o[:1] in "PTC":
        return run.prop == "C01" or run.prop in tags
    if exp[:1] == "A" and o[:1] == "A":
        own = owners(exp, o, c.m)
        if c.fam.startswith("classes"):      # these bear on many properties: what differs decides
            return run.prop in (own or tags)
        return run.prop in tags or run.prop in own
    return run.prop in tags


def conform(run, prog, cases, every=False, checked=None):
    """Replay specified behaviours into the real code.  every: any difference counts.
    checked: a program built with overflow checks, which must show the same."""
    obs = observe(run, prog, cases)
    for c, ob in zip(cases, obs):
        run.count(c.fam)
        if ob.o != c.exp and (every or attribute(run, c, c.exp, ob)):
            run.violation(describe(c, c.exp, ob.o), replay_record(c, c.exp, ob.o))
    if checked:
        for c, ob, ch in zip(cases, obs, observe(run, checked, cases)):
            if ch.o != ob.o and ch.o != c.exp and ch.o[:1] != "?" and (every or attribute(run, c, c.exp, ch)):
                run.violation(describe(c, c.exp, ch.o) + " (build with overflow checks)", replay_record(c, c.exp, ch.o, {"variant": "checked"}))
    return obs
