"""The checks, one per property."""
import concurrent.futures as cf
import json

import special
import vlib
from vlib import build, conform, family

# Families of generated behaviours (Families.tla) that bear on each property.  A family
# with a '#' in front is drawn anew for every seed.
FAMS = {
    "C02": ["attr-frame", "far-frame", "prefixes", "prefixes+300", "magic", "pool", "big-attr", "attr-frame@known1", "attr-frame@preview"],
    "C03": ["pool", "#items", "big-pools", "kit+65300", "deltas", "pairs", "crowds", "pool+1100/47", "tags+300", "tags@preview", "tags@zero", "pool@wide"],
    "C04": ["names", "fdescs", "mdescs", "pool", "pairs", "uni-chars", "crowds", "long-names", "long-descs", "names+1100/97", "pool@wide", "pool@twins"],
    "C05": ["#items", "pool", "big-pools", "big-texts", "crowds", "pool@known1", "pool@twins", "pool@wide"],
    "C06": ["encodings", "#items", "attr-base", "attr-base+300", "pool", "attr-tables", "header", "opcodes", "big-texts", "big-attr", "big-pools", "#classes", "#attr-rnd", "far-frame", "attr-base@long", "attr-base@wide", "attr-base@twins", "#classes@long", "#classes@wide", "#attr-rnd@long"],
    "C07": ["fdescs", "mdescs", "fdescs-d", "mdescs-d", "attr-base", "names", "big-texts", "big-attr", "#classes", "#attr-rnd", "uni-chars", "long-descs", "attr-base@known1", "attr-base@twins", "attr-base@long", "attr-base@wide", "#classes@twins", "#attr-rnd@twins", "opcodes@twins"],
    "C08": ["header", "header+300", "versions", "names", "version-sweep", "uni-chars", "late-attrs", "long-names", "header@known1", "header@known2", "header@known3", "header@wide", "header@same", "header@preview", "header@zero"],
    "C09": ["fields", "names", "fdescs", "big-members", "big-texts", "alike", "#classes", "duplicates", "uni-chars", "#classes-damaged", "environs-members", "late-members", "long-names", "long-descs", "fields@known1", "fields@known2", "fields@known3", "fields@twins", "fields@preview", "alike@twins", "#classes@known1"],
    "C10": ["methods", "names", "mdescs", "big-members", "big-texts", "alike", "#classes", "duplicates", "uni-chars", "#classes-damaged", "environs-members", "late-members", "long-names", "long-descs", "methods@known1", "methods@known2", "methods@known3", "methods@twins", "methods@preview", "alike@twins", "#classes@known1"],
    "C11": ["module", "header", "module-members", "module@known1", "module@known3", "module@preview", "module@zero"],
    "C12": ["bootstrap", "pool", "#items", "dynamics", "bootstrap+1100/3", "dynamics+1100/7", "bootstrap@preview", "bootstrap@known4"],
    "C13": ["attr-names", "attr-tables", "attr-tables+300", "attr-base", "deep-attr", "encodings", "big-attr", "big-texts", "#classes", "attr-base+65300", "uni-attr-names", "#classes-damaged", "far-frame", "environs", "late-attrs", "attr-base@long", "attr-base@known1", "attr-base@known2", "attr-base@known3", "attr-base@known4", "attr-base@twins", "attr-base@same", "attr-base@keys", "attr-base@wide", "attr-base@preview", "attr-base@zero", "attr-pairs"],
    "C14": ["attr-dev", "attr-base", "attr-base+300", "names", "fdescs", "big-attr", "#attr-rnd", "#classes", "uni-chars", "cross-uses", "#classes-damaged", "far-frame", "environs", "attr-two", "late-attrs", "#attr-odd", "long-names", "long-descs", "attr-base@long", "attr-base@known1", "attr-base@known2", "attr-base@known3", "attr-base@known4", "attr-base@twins", "attr-base@same", "attr-base@keys", "attr-base@wide", "attr-base@preview", "attr-base@zero", "#attr-rnd@twins", "#attr-rnd@known1", "#classes@known2", "#classes@twins", "attr-pairs"],
    "C15": ["attr-dev", "attr-base", "attr-base+300", "big-attr", "#attr-rnd", "#classes", "cross-uses", "#classes-damaged", "environs", "attr-two", "late-attrs", "#attr-odd", "attr-base@long", "attr-base@known1", "attr-base@known2", "attr-base@known3", "attr-base@known4", "attr-base@twins", "attr-base@same", "attr-base@keys", "attr-base@wide", "attr-base@preview", "attr-base@zero", "#attr-rnd@twins", "#attr-rnd@known1", "#classes@known2", "#classes@twins", "attr-pairs"],
    "C16": ["attr-dev", "attr-base", "attr-base+300", "names", "fdescs", "deep-ann", "big-attr", "#attr-rnd", "#classes", "uni-chars", "cross-uses", "#classes-damaged", "environs", "attr-two", "late-attrs", "#attr-odd", "long-names", "long-descs", "attr-base@long", "attr-base@known1", "attr-base@known2", "attr-base@known3", "attr-base@known4", "attr-base@twins", "attr-base@same", "attr-base@keys", "attr-base@wide", "attr-base@preview", "attr-base@zero", "#attr-rnd@twins", "#attr-rnd@known1", "#classes@known2", "#classes@twins", "attr-pairs"],
    "C17": ["attr-dev", "attr-base", "attr-base+300", "deep-ann", "big-attr", "#attr-rnd", "#classes", "#classes-damaged", "environs", "attr-two", "late-attrs", "#attr-odd", "attr-base@long", "attr-base@known1", "attr-base@known2", "attr-base@known3", "attr-base@known4", "attr-base@twins", "attr-base@same", "attr-base@keys", "attr-base@wide", "attr-base@preview", "attr-base@zero", "#attr-rnd@twins", "#attr-rnd@known1", "#classes@known2", "#classes@twins", "attr-pairs"],
    "C18": ["attr-dev", "attr-base", "attr-base+300", "big-attr", "#attr-rnd", "#classes", "#classes-damaged", "environs", "attr-two", "late-attrs", "#attr-odd", "attr-base@long", "attr-base@known1", "attr-base@known2", "attr-base@known3", "attr-base@known4", "attr-base@twins", "attr-base@same", "attr-base@keys", "attr-base@wide", "attr-base@preview", "attr-base@zero", "#attr-rnd@twins", "#attr-rnd@known1", "#classes@known2", "#classes@twins", "attr-pairs"],
    "C19": ["attr-dev", "attr-base", "attr-base+300", "names", "fdescs", "code-mix", "big-attr", "big-code", "#attr-rnd", "#classes", "uni-chars", "cross-uses", "#classes-damaged", "far-frame", "environs", "attr-two", "late-attrs", "#attr-odd", "long-names", "long-descs", "attr-base@long", "attr-base@known1", "attr-base@known2", "attr-base@known3", "attr-base@known4", "attr-base@twins", "attr-base@same", "attr-base@keys", "attr-base@wide", "attr-base@preview", "attr-base@zero", "#attr-rnd@twins", "#attr-rnd@known1", "#classes@known2", "#classes@twins", "attr-pairs"],
    "C20": ["opcodes", "opcodes+300", "switches", "#programs", "#programs+300", "code-mix", "fdescs", "big-code", "#classes", "opcodes-few+65300", "#classes-damaged", "far-frame", "environs-code", "late-code", "long-descs", "opcodes@known1", "opcodes@known4", "opcodes@twins", "opcodes@wide"],
    "C21": ["jumps", "long-jumps", "big-code", "#programs", "#classes", "#classes-damaged", "environs-code", "late-code"],
    "C22": ["lookups", "#programs", "#programs+300", "switches", "big-code", "late-code"],
}
# further families in the thorough tier
MORE = {
    "C03": ["flood-pools"], "C05": ["flood-pools"], "C06": ["flood-texts", "attr-base+65300"], "C07": ["flood-texts", "mdescs+300/20"], "C08": ["flood-members", "header+65300"],
    "C09": ["flood-members"], "C10": ["flood-members"], "C13": ["flood-members"], "C14": ["attr-base+65300", "attr-dev+300"], "C15": ["attr-base+65300", "attr-dev+300"],
    "C16": ["attr-base+65300", "attr-dev+300"], "C17": ["attr-base+65300", "attr-dev+300"], "C18": ["attr-base+65300", "attr-dev+300"], "C19": ["attr-base+65300", "attr-dev+300"],
}
# properties that also concern every case observed in a mode
MODES = {"C06": "p", "C07": "d"}


def run_families(run, prog, names, props=None, modes="", checked=None):
    jobs = []
    for f in names + (MORE.get(run.prop, []) if run.thorough() else []):
        n = (6 if run.thorough() else 1) if f[0] == "#" else 0
        jobs += [(f.lstrip("#"), str(run.seed * 10 + i)) for i in range(n)] or [(f, "")]
    with cf.ThreadPoolExecutor(3) as ex:
        todo = [ex.submit(family, run, f, a, props=props, modes=modes) for f, a in jobs]
        try:
            for (f, arg), t in zip(jobs, todo):
                cases = t.result()
                if not cases:
                    continue
                obs = conform(run, prog, cases, checked=checked)
                acc = sum(1 for o in obs if o.o[:1] == "A")
                run.log("%s%s: %d behaviours replayed, %d accepted, %d rejected" % (f, arg, len(cases), acc, len(obs) - acc))
                c = cases[len(cases) // 2]
                run.sample({"family": c.fam, "mode": c.m, "input_hex": c.b.hex()[:400], "specified": c.exp[:300]})
        finally:
            ex.shutdown(cancel_futures=True)


def conformance(run):
    progs = vlib.build_all(["release", "checked"])
    run.log("built")
    run_families(run, progs["release"], FAMS[run.prop], {run.prop}, MODES.get(run.prop, ""), progs["checked"])


CHECKS = {p: conformance for p in FAMS}
CHECKS.update(special.CHECKS)
TECHNIQUE = {
    "C01": ("inputs generated from the TLA+ model's families (TLC) and structure-aware mutants replayed into the overflow-checked, "
            "optimised and thread-safe builds; every end must be one the model has (a value or an error); a sample judged by TLC trace validation"),
    "C23": ("TLA+ model with the bytecode option as a constant of the behaviour: both behaviours of every generated class explored by TLC and "
            "replayed into the real parser as pairs; mutants validated as traces against the model"),
    "C24": ("behaviours of the TLA+ model (and structure-aware mutants) replayed into the default and the thread-safe build, whose outcomes, "
            "error texts included, must be the same trace of the model"),
    "C25": ("lock traces recorded from the real code (feature verif-hooks) validated with TLC against a TLA+ lock-discipline model, composed "
            "by TLC into all interleavings of several threads (deadlock freedom), and the schedules TLC prints forced onto real threads; "
            "free-running threads besides"),
    "C26": ("TLA+ model of iterators over a pool (spec/Iterators.tla): every transition of the small models and simulated long histories "
            "replayed operation by operation into real iterators of classes generated from the class-file model"),
    "C27": ("TLA+ model of class names (spec/ClassNames.tla): every text over the model's alphabet up to a length explored by TLC and "
            "replayed into the real conversions and comparisons"),
    "C28": ("TLA+ model of parse histories (spec/Purity.tla) explored by TLC, replayed on one and on sixteen threads, in several processes and "
            "at several addresses; outcomes judged by trace validation against the class-file model"),
}
NOTE = {
    "C01": ("Covers the inputs of every generated family plus tens of thousands of structure-aware mutants of those and of compiled classes, in three "
            "builds, on an ordinary-size stack, with a watchdog and a counting allocator. Inputs far from any class file, and sizes beyond some 100 KB, "
            "are sampled only."),
    "C25": ("Deadlock freedom is decided on the model composed of lock traces recorded from the real code for pools of every item kind; interleavings "
            "within the standard library's Mutex/OnceLock are trusted. Up to 3 threads exhaustively, 8 free-running."),
    "C28": "Histories over the chosen inputs are exhaustive for pairs of consecutive parses; other inputs are parsed in two processes and at two addresses only.",
}


def again(run, d):
    """Carry out a replay record again: (what is observed, whether it is still wrong)."""
    def case(mode=None):
        return vlib.Case(bytes.fromhex(d["input_hex"]), mode or d["mode"], prop, d["family"])
    kind, prop = d["kind"], run.prop
    if kind == "build":
        try:
            for v in vlib.VARIANTS:
                build(v)
        except vlib.BuildError as e:
            return str(e)[-3000:], True
        return "every variant builds", False
    if kind == "input":
        o = vlib.observe(run, build(d.get("variant", "release")), [case()])[0]
        if o.o[:1] in "PTC" or o.flags:
            return o.o[:2000] + " " + o.flags, True
        bad = vlib.judge(run, [case()], [o.o])
        return "observed %s\nspecified %s" % (o.o[:2000], bad[0][:2000] if bad else "the same"), bool(bad)
    if kind == "pair":
        both = [case(), case("n" if d["mode"] in "al" else "x")]
        o = [x.o for x in vlib.observe(run, build("release"), both)]
        bad = vlib.judge(run, both, o)
        w = special.c23_pair(bad.get(0, o[0]), bad.get(1, o[1]), o[0], o[1])
        return "with bytecode %s\nwithout %s\n%s" % (o[0][:2000], o[1][:2000], w), bool(w)
    if kind == "builds":
        o = [vlib.observe(run, build(v), [case()])[0] for v in ("release", "threadsafe")]
        return "default %s %s\nthread-safe %s %s" % (o[0].o[:2000], o[0].err, o[1].o[:2000], o[1].err), (o[0].o, o[0].err) != (o[1].o, o[1].err)
    if kind == "runs":
        o = [vlib.observe(run, build("release"), [case()])[0] for _ in range(4)]
        return "\n".join("%s %s %s" % (x.o[:500], x.err, x.flags) for x in o), len({(x.o, x.err) for x in o}) > 1 or any("nondet" in x.flags for x in o)
    if kind == "locks":
        got = special.lock_programs(run, build("hooks"), [case()])
        if got and got[0][1][:1] != "P":
            special.validate_locks(run, [(got[0][0], got[0][2], got[0][3])])
        else:
            run.violation("iterating does not end well", {})
        return json.dumps(got, default=str)[-3000:], bool(run.violations)
    if kind in ("schedule", "stress", "iter"):
        h = case().b.hex()
        if kind == "schedule":
            out = vlib.drive(run, build("hooks"), ["sched"], ["0 %s %d %s" % (h, d["threads"], ",".join(map(str, d["plan"])))], timeout=60)
        elif kind == "stress":
            out = vlib.drive(run, build("sendsync"), ["stress"], ["0 2000 8 " + h], timeout=120)
        else:
            out = vlib.drive(run, build(d.get("variant", "release")), ["iter"], ["0 %s %s" % (h, ",".join(d["ops"]))], timeout=60)
        text = json.dumps(out)
        if kind == "iter":
            got = out[0][0][1].split("\x01") if out[0] else []
            n = len(d["ops"])
            last = got[n] if len(got) > n and d["specified"] == "the class unchanged" else got[n - 1] if len(got) >= n else None
            return text[:3000], last is None or last == d["observed"]
        return text[:3000], not out[0] or out[0][0][1] not in ("ok", "R")
    if kind == "names":
        out = vlib.drive(run, build("release"), ["names"], ["0 %s %s" % (d["a"], d["b"])], timeout=60)[0]
        return str(out)[:3000], not out or out[0][1] != d["specified"]
    if kind == "history":
        pf = run.path("hist.txt")
        with open(pf, "w") as h:
            h.writelines(x + "\n" for x in d["histories"])
        cases = [vlib.Case(bytes.fromhex(b), m, prop, "") for m, b in d["inputs"]]
        alone = [vlib.observe(run, build("release"), [c])[0] for c in cases]
        out = vlib.drive(run, build("release"), ["hist", pf], ["%s %s" % (m, b) for m, b in d["inputs"]])[0]
        odd = [p for p in out if p[1] != alone[int(p[0]) - 1].o]
        return "%d outcomes differ from the ones alone" % len(odd), bool(odd) or not out
    if kind == "options":
        pf = run.path("opts.txt")
        with open(pf, "w") as h:
            h.write(d["history"] + "\n")
        out = vlib.drive(run, build("release"), ["opts", pf], d["inputs"])[0]
        text = "\n".join("input %s, bytecode %s: %s" % (p[0], p[1], p[2][:800]) for p in out)
        return d["history"] + "\n" + text, not out or any(p[2] == d["observed"] or p[2][:20000] == d["observed"] for p in out)
    raise vlib.CheckError("unknown kind of replay: " + kind)


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    run = vlib.Run(prop, "quick", 1)
    try:
        text, wrong = again(run, d)
        print(text)
        print("specified:", str(d.get("specified", ""))[:2000])
        print("the violation shows again" if wrong else "the violation does not show any more")
        return 1 if wrong else 0
    finally:
        run.close()
