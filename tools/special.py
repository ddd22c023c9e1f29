"""The checks that are about more than a single parse: options, builds, threads, histories."""
import json
import os
import random
import re

import mutants
import vlib
from vlib import Case, CheckError, build, build_all, drive, family, judge, observe, tlc, unquote


def printed(lines, letter="X"):
    p = '"' + letter + " "
    return [unquote(l)[2:] for l in lines if l.startswith(p)]


def mutant_cases(run, n, modes, seeds=None, name="mutants", limit=2600):
    ms = mutants.mutants(seeds or mutants.samples(), run.seed * 7919 + len(name), n, limit)
    return [Case(b, modes[i % len(modes)], "mutant", name) for i, b in enumerate(ms)]


# ---------------------------------------------------------------- C01
# Every family; the ones that are about rejecting odd input are the point here.
ALL = ["attr-base", "attr-frame", "attr-dev", "pool", "names", "fdescs", "mdescs", "encodings", "#items", "versions", "header",
       "fields", "methods", "module", "bootstrap", "attr-names", "attr-tables", "prefixes", "magic", "opcodes", "switches",
       "jumps", "long-jumps", "#programs", "lookups", "code-mix", "deep-ann", "deep-attr", "big-attr", "big-members", "#big-pools", "big-texts",
       "big-code", "opcodes+300", "attr-base+300", "header+300", "#attr-rnd", "#classes", "alike", "deltas",
       "flood-pools", "flood-members", "flood-attrs", "flood-texts", "far-frame", "crowds", "pairs", "uni-chars", "uni-attr-names",
       "cross-uses", "duplicates", "module-members", "dynamics", "#classes-damaged", "environs", "environs-code", "environs-members", "attr-two", "late-attrs", "late-members", "late-code", "long-names", "long-descs", "#attr-odd", "bootstrap+1100/3", "pool+1100/47",
        "attr-pairs", "attr-base@known1", "attr-base@wide", "attr-base@long", "header@known2", "methods@known1", "fields@known2", "pool@wide", "#classes@known1", "#classes@twins"]


def args_of(run, f, n):
    return [str(run.seed * 10 + i) for i in range(n)] if f[0] == "#" else [""]


def crash_text(o):
    return {"P": "panics: " + o[2:200], "T": "does not end", "C": "ends the process: " + o[2:200]}[o[0]]


def c01(run):
    import concurrent.futures as cf
    progs = build_all(["checked", "release", "threadsafe"])
    run.log("built")
    jobs = [(f.lstrip("#"), a) for f in ALL for a in args_of(run, f, 3 if run.thorough() else 1)]
    with cf.ThreadPoolExecutor(6) as ex:
        fams = list(ex.map(lambda j: family(run, j[0], j[1], expect=False), jobs))
    cases = [c for f in fams for c in f]
    # accepted and rejected whole classes as seeds of mutants, next to compiled ones
    rnd = random.Random(run.seed)
    seeds = mutants.samples() + [c.b for c in rnd.sample(cases, 400) if 40 < len(c.b) < 2600]
    muts = mutant_cases(run, 400000 if run.thorough() else 60000, "vnlpd", seeds)
    run.log("%d inputs of families, %d mutants" % (len(cases), len(muts)))
    # the specified outcome (a value or an error, no third one) on a sample of the mutants
    for name in ("checked", "release", "threadsafe"):
        for part, what in ((cases, "families"), (muts, "mutants")):
            if name == "threadsafe" and what == "mutants":
                part = part[:len(part) // 4]
            obs = observe(run, progs[name], part)
            run.count("%s (%s build)" % (what, name), len(part))
            worst = 0
            for c, o in zip(part, obs):
                if o.o[:1] in "PTC":
                    run.violation("%s: parsing %s (%s build)" % (c.fam, crash_text(o.o), name),
                                  vlib.replay_record(c, "a value or an error", o.o, {"variant": name}))
                elif "leak" in o.flags:
                    run.violation("%s: parsing leaves memory allocated: %s" % (c.fam, o.flags),
                                  vlib.replay_record(c, "nothing left", o.flags, {"variant": name}))
                worst = max(worst, o.peak)
            run.log("%s build, %s: %d, worst peak %d bytes" % (name, what, len(part), worst))
            run.extra["peak_bytes_%s_%s" % (name, what)] = worst
    # trace validation: the ends themselves are judged by the specification
    n = 20000 if run.thorough() else 1500
    part = muts[:n]
    obs = observe(run, progs["checked"], part)
    bad = judge(run, part, [o.o for o in obs])
    run.count("mutants judged", len(part))
    run.notes.append("%d of %d judged mutants end differently from the specification (other properties)" % (len(bad), n))
    run.sample({"family": muts[0].fam, "mode": muts[0].m, "input_hex": muts[0].b.hex()[:400]})


# ---------------------------------------------------------------- C23
def strip_code(x):
    """A reported class without its decoded instructions."""
    def attrs(l):
        out = []
        for a in l:
            if a[1] == "Code":
                c = a[2]
                a = [a[0], a[1], c[:3] + [[], c[4], attrs(c[5])]]
            elif a[1] == "Record":
                a = [a[0], a[1], [p[:2] + [attrs(p[2])] for p in a[2]]] + a[3:]
            out.append(a)
        return out
    return x[:6] + [[m[:3] + [attrs(m[3])] for m in x[6]], [m[:3] + [attrs(m[3])] for m in x[7]], attrs(x[8]), x[9]]


def has_decoded(x):
    def attrs(l):
        for a in l:
            if a[1] == "Code":
                if a[2][3] != [] or attrs(a[2][5]):
                    return True
            elif a[1] == "Record" and any(attrs(p[2]) for p in a[2]):
                return True
        return False
    return any(attrs(m[3]) for m in x[6] + x[7]) or attrs(x[8])


def c23_pair(exp_v, exp_n, on, off):
    """What is wrong about the outcomes with bytecode on and off, given the specified ones."""
    if on[:1] not in "AR" or off[:1] not in "AR":
        if on[:1] in "AR" or off[:1] in "AR":
            return "one of them crashes"
        return None
    if on[0] == "A" and off[0] == "R":
        return "accepted with bytecode, rejected without"
    if on[0] == "A":
        x, y = json.loads(on[1:]), json.loads(off[1:])
        if len(x[9]) == 0 or len(y[9]) == 0:
            x[9] = y[9] = []
        if has_decoded(y):
            return "decoded instructions although bytecode is off"
        if strip_code(x) != y:
            return "other values than the instructions differ"
        if has_decoded(json.loads(exp_v[1:]) if exp_v[0] == "A" else x) and not has_decoded(x):
            return "no decoded instructions although bytecode is on"
        return None
    if off[0] == "A":
        if exp_v[0] == "A" or exp_n[0] == "R":
            return "rejected with bytecode for another reason than its code"
        return None
    if exp_n[0] == "A" and exp_v[0] == "R":
        return "rejected without bytecode because of its code"
    return None


PAIRED = ["attr-base", "opcodes", "switches", "jumps", "#programs", "code-mix", "lookups", "attr-frame", "deep-attr", "#classes"]
# v: default options; a and l: bytecode on explicitly; x and n: off (v, x: with the items)
BOTH = {"v": "vx", "a": "an", "l": "ln"}


def c23(run):
    prog = build("release")
    fams = list(PAIRED)
    if run.thorough():
        fams += ["attr-dev", "methods", "bootstrap", "header", "fields", "module", "attr-names", "attr-tables", "encodings", "pool", "#items", "long-jumps", "names"]
    pairs = {}
    for f in fams:
        for arg in args_of(run, f, 4 if run.thorough() else 1):
            cases = family(run, f.lstrip("#"), arg, remode=BOTH)
            obs = observe(run, prog, cases)
            for k in range(0, len(cases), 2):
                c = cases[k]
                run.count(c.fam)
                # (what is decided with histories of options is the history)
                if c.m == "a" and obs[k].o == c.exp and obs[k + 1].o == cases[k + 1].exp:
                    pairs.setdefault((c.exp[0], cases[k + 1].exp[0], c.exp == cases[k + 1].exp), []).append((c, cases[k + 1]))
                w = c23_pair(cases[k].exp, cases[k + 1].exp, obs[k].o, obs[k + 1].o)
                if w is None and "nondet" in obs[k].flags:
                    w = "the default options are not the ones with bytecode on"
                if w:
                    run.violation("%s: %s" % (c.fam, w), vlib.replay_record(c, "bytecode on and off agree", obs[k].o, {"off": obs[k + 1].o[:20000], "kind": "pair"}))
            run.log("%s%s: %d pairs" % (f, arg, len(cases) // 2))
            if cases:
                run.sample({"family": c.fam, "input_hex": c.b.hex()[:400], "with bytecode": c.exp[:200], "without": cases[k + 1].exp[:200]})
    option_histories(run, prog, pairs)
    # mutants: the specification judges both
    ms = mutant_cases(run, 8000 if run.thorough() else 1200, "v")
    both = [Case(c.b, m, c.p, c.fam) for c in ms for m in "vx"]
    obs = observe(run, prog, both)
    bad = judge(run, both, [o.o for o in obs])
    for k in range(0, len(both), 2):
        run.count("mutants")
        w = c23_pair(bad.get(k, obs[k].o), bad.get(k + 1, obs[k + 1].o), obs[k].o, obs[k + 1].o)
        if w:
            run.violation("mutant: " + w, vlib.replay_record(both[k], "bytecode on and off agree", obs[k].o, {"off": obs[k + 1].o[:20000], "kind": "pair"}))


def option_histories(run, prog, pairs):
    """Histories of options made, set and used (Options.tla), over one input of every kind of
    outcomes with bytecode on and off."""
    rnd = random.Random(run.seed)
    sel = [rnd.choice(pairs[k]) for k in sorted(pairs)]
    if not sel:
        return
    lines = tlc(run, "Options", env={"INPUTS": str(len(sel))})
    hs = [json.loads(x) for x in printed(lines)]
    toks = {"d": "d%d", "s": "s%d:%d", "p": "p%d:%d=%d", "q": "q%d=%d"}

    def tok(o, k, x, on):
        return toks[o] % {"d": (k,), "s": (k, x), "p": (k, x, on), "q": (x, on)}[o]
    texts = [" ".join(tok(*t) for t in h) for h in hs]
    pf = run.path("opts.txt")
    with open(pf, "w") as h:
        h.writelines(t + "\n" for t in texts)
    out, code, err = drive(run, prog, ["opts", pf], [p[0].b.hex() for p in sel])
    for p in out:
        c = sel[int(p[0])][0 if p[1] == "1" else 1]
        if p[2] != c.exp:
            n, j = (int(x) for x in p[3].split())
            run.violation("%s: after %s bytecode is specified to be %s: %s" % (c.fam, texts[n], "on" if p[1] == "1" else "off", vlib.describe(c, c.exp, p[2])),
                          {"kind": "options", "history": " ".join(texts[n].split()[:j + 1]), "inputs": [q[0].b.hex() for q in sel], "specified": c.exp[:20000], "observed": p[2][:20000]})
    if len(out) < 2 * len(sel) and not run.violations:
        run.violation("option histories end the process: %s %s" % (code, err), {"kind": "options", "history": texts[-1], "inputs": [q[0].b.hex() for q in sel], "specified": "", "observed": str(code)})
    run.count("option histories", len(hs))
    run.log("%d option histories over %d inputs" % (len(hs), len(sel)))


# ---------------------------------------------------------------- C24
SPECIFIED = ["attr-base", "pool", "#items", "code-mix", "bootstrap", "#classes"]
COMPARED = ["attr-frame", "attr-dev", "names", "fdescs", "mdescs", "encodings", "versions", "header", "fields", "methods", "module",
            "attr-names", "attr-tables", "prefixes", "magic", "opcodes", "switches", "jumps", "#programs", "lookups", "deep-ann", "deep-attr", "big-attr", "big-members", "#big-pools", "big-texts", "big-code", "attr-base+300",
            "attr-base+65300", "deltas", "flood-pools", "flood-members", "flood-attrs", "flood-texts", "alike", "#attr-rnd",
            "far-frame", "crowds", "pairs", "uni-chars", "uni-attr-names", "cross-uses", "duplicates", "module-members", "version-sweep", "dynamics", "#classes-damaged",
            "environs", "environs-code", "environs-members", "attr-two", "late-attrs", "late-members", "late-code", "long-names", "long-descs", "#attr-odd", "bootstrap+1100/3", "pool+1100/47",
    "attr-pairs", "attr-base@known1", "attr-base@wide", "attr-base@long", "header@known2", "methods@known1", "fields@known2", "pool@wide", "#classes@known1", "#classes@twins"]


def c24(run):
    prog = build("release")
    try:
        safe = build("threadsafe")
    except vlib.BuildError as e:
        run.violation("the thread-safe build does not compile", {"kind": "build", "output": str(e)[-3000:]})
        return
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        more = list(ex.map(lambda f: family(run, f.lstrip("#"), args_of(run, f, 1)[0], expect=False), COMPARED))
    batches = [family(run, f.lstrip("#"), a) for f in SPECIFIED for a in args_of(run, f, 4 if run.thorough() else 1)] + more
    batches.append(mutant_cases(run, 200000 if run.thorough() else 20000, "vnlpd"))
    for cases in batches:
        a, b = observe(run, prog, cases), observe(run, safe, cases)
        for c, x, y in zip(cases, a, b):
            run.count(c.fam)
            if x.o[:1] == "?" or y.o[:1] == "?":
                continue
            if x.o != y.o or x.err != y.err:
                run.violation("%s: the default build %s, the thread-safe build %s" % (
                    c.fam, short(x), short(y)) + ("" if x.o == y.o or x.o[0] != "A" or y.o[0] != "A" else "; " + vlib.first_difference(x.o, y.o)),
                    vlib.replay_record(c, x.o, y.o, {"kind": "builds", "default_error": x.err, "threadsafe_error": y.err}))
        run.log("%s: %d compared" % (cases[0].fam, len(cases)))
        c = cases[len(cases) // 2]
        run.sample({"family": c.fam, "mode": c.m, "input_hex": c.b.hex()[:400]})


def short(o):
    return "accepts" if o.o[0] == "A" else "rejects (%s)" % o.err[:80] if o.o[0] == "R" else crash_text(o.o)


# ---------------------------------------------------------------- C25
def lock_programs(run, prog, cases):
    """Recorded lock events: [(case, status, parse events, [events of each next])]."""
    out, code, err = drive(run, prog, ["locks"], ["%d %s" % (i, c.b.hex()) for i, c in enumerate(cases)], timeout=300, idle=30)

    def ev(s):
        return [[t[0], int(t[1:])] for t in s.split()]
    res = []
    for p in out:
        parts = p[3].split(";") if len(p) > 3 else []
        res.append((cases[int(p[0])], p[1], ev(p[2]) if len(p) > 2 else [], [ev(s) for s in parts]))
    if len(out) < len(cases):
        c = cases[len(out)]
        run.violation("%s: recording the locks of an iteration %s" % (c.fam, "does not end" if code == "timeout" else "ends the process (%s %s)" % (code, err)),
                      vlib.replay_record(c, "finishes", str(code), {"kind": "locks"}))
    return res


def validate_locks(run, recorded):
    """Trace validation of recorded lock events [(case, of the parse, of each next)]."""
    f = run.path("traces.nd")
    with open(f, "w") as h:
        for _, parse, items in recorded:
            h.write('{"t":%s}\n' % json.dumps([parse] + items, separators=(",", ":")))
    good = 0
    for l in tlc(run, "LockTrace", env={"TRACES": f}):
        if l.startswith('"Y '):
            good += 1
        elif l.startswith('"N ') or l.startswith('"O '):
            q = unquote(l).split(" ", 2)
            c, parse, items = recorded[int(q[1]) - 1]
            run.violation("%s: %s" % (c.fam, "locks are nested in a cyclic order" if q[0] == "O" else "illegal lock event: " + q[2]),
                          vlib.replay_record(c, "legal lock events", json.dumps([parse] + items), {"kind": "locks"}))
    return good


def locks_and_schedules(run, hooks, cases):
    """Lock traces against the lock model, and the model's schedules forced onto real threads."""
    progs = lock_programs(run, hooks, cases)
    run.log("%d lock programs recorded" % len(progs))
    # trace validation, single thread (parses that are rejected count, too)
    runs, which = [], []
    seen = set()
    for c, st, parse, items in progs:
        if st[:1] == "P":
            run.violation("%s: iterating %s" % (c.fam, st), vlib.replay_record(c, "finishes", st, {"kind": "locks"}))
            continue
        t = json.dumps([parse] + items, separators=(",", ":"))
        if t in seen:
            continue
        seen.add(t)
        runs.append('{"t":%s}' % t)
        which.append((c, parse, items))
    # the longest traces cost the most: a budget of events
    order = sorted(range(len(runs)), key=lambda i: len(runs[i]))
    budget, chosen = (3000000 if run.thorough() else 600000), []
    for i in order:
        budget -= len(runs[i]) // 8
        if budget < 0:
            break
        chosen.append(i)
    good = validate_locks(run, [which[i] for i in chosen])
    run.count("lock traces", len(chosen))
    run.log("%d different lock traces validated, %d legal" % (len(chosen), good))
    # every interleaving of two and three threads over pools of different shapes
    seen_prog = {}
    for c, parse, items in which:
        whole = [e for it in items for e in it]
        names = {}
        whole = [[o, names.setdefault(l, len(names) + 1)] for o, l in whole]
        t = json.dumps(whole)
        if whole and t not in seen_prog:
            seen_prog[t] = (c, whole)
    pick = sorted(seen_prog.values(), key=lambda x: len(x[1]))
    rnd = random.Random(run.seed)
    small = [p for p in pick if len(p[1]) <= 60]
    mid = [p for p in pick if 60 < len(p[1]) <= (500 if run.thorough() else 260)]
    jobs = [(p, 3) for p in rnd.sample(small, min(len(small), 16 if run.thorough() else 5))]
    jobs += [(p, 2) for p in rnd.sample(mid, min(len(mid), 24 if run.thorough() else 6))]
    plans = []
    for (c, whole), n in jobs:
        pf = run.path("prog.json")
        with open(pf, "w") as h:
            json.dump(whole, h)
        lines = tlc(run, "Locks", env={"PROG": pf, "THREADS": str(n), "PLANS": "contention"})
        for l in printed(lines, "D") + printed(lines, "S"):
            plans.append((c, n, json.loads(l), "deadlock of the model"))
        con = printed(lines)
        run.log("%d threads, %d lock events: %d contended states" % (n, len(whole), len(con)))
        run.count("interleaved lock programs")
        for l in rnd.sample(con, min(len(con), 150)):
            plans.append((c, n, json.loads(l), "contention"))
        sim = tlc(run, "Locks", env={"PROG": pf, "THREADS": str(n), "PLANS": "end"},
                  extra=("-simulate", "num=%d" % (60 if run.thorough() else 20), "-depth", str(3 * len(whole) + 5), "-seed", str(run.seed)), workers=1)
        for l in sorted(set(printed(sim))):
            plans.append((c, n, json.loads(l), "whole schedule"))
    lines = ["%d %s %d %s" % (i, c.b.hex(), n, ",".join(map(str, p))) for i, (c, n, p, _) in enumerate(plans)]
    at, hung = 0, 0
    followed = 0
    while at < len(lines) and hung < 2:
        out, code, err = drive(run, hooks, ["sched"], lines[at:], timeout=300, idle=60)
        for p in out:
            c, n, plan, why = plans[int(p[0])]
            run.count("schedules replayed (%s)" % why)
            if p[1] != "ok":
                run.violation("%s: %d threads iterating (%s): %s" % (c.fam, n, why, p[1]),
                              vlib.replay_record(c, "every thread finishes with the same items", p[1], {"kind": "schedule", "threads": n, "plan": plan}))
            else:
                followed += int(p[2])
        if len(out) == 0 or code == "timeout":
            if not run.violations:
                raise CheckError("replaying schedules gave no result: %s %s" % (code, err))
            break
        if code != 0:
            hung += 1
        at += len(out)
    run.extra["schedule_steps_followed"] = followed
    run.log("%d schedules replayed, %d steps as scheduled" % (len(plans), followed))
    if plans:
        run.sample({"family": plans[0][0].fam, "threads": plans[0][1], "plan": plans[0][2][:60], "input_hex": plans[0][0].b.hex()[:300]})


def c25(run):
    try:
        stress = build("sendsync")
    except vlib.BuildError as e:
        t = str(e)
        build("release")
        run.violation("a parsed class of the thread-safe build cannot be shared between threads" if "E0277" in t else
                      "the thread-safe build does not compile", {"kind": "build", "output": t[-3000:]})
        return
    try:
        hooks = build("hooks")
    except vlib.BuildError as e:
        # The code uses its mutex in a way that the tracing one does not offer: only the free-running threads are left.
        hooks = None
        run.notes.append("no lock traces: " + str(e)[-600:])
        run.log("the build with lock tracing failed; free-running threads only")
    run.log("built")
    # pools of every shape: items of every kind, and references to references
    cases = []
    for f, a in [("items", str(run.seed * 10 + i)) for i in range(6 if run.thorough() else 2)] + [("pool", ""), ("bootstrap", "")]:
        cases += [c for c in family(run, f, a) if c.exp[0] == "A" and c.m == "v"]
    cases += [Case(b, "v", "", "sample") for b in mutants.samples()]
    cases += [c for c in mutant_cases(run, 20000 if run.thorough() else 3000, "v")]
    if hooks:
        locks_and_schedules(run, hooks, cases)
    # free running threads
    classes = [(c, 60 if run.thorough() else 12) for c in cases if c.exp and c.exp[0] == "A"][::1 if run.thorough() or not hooks else 6]
    classes += [(Case(b, "v", "", "sample"), 400 if run.thorough() else 100) for b in mutants.samples()]
    out, code, err = drive(run, stress, ["stress"], ["%d %d %d %s" % (i, r, 8, c.b.hex()) for i, (c, r) in enumerate(classes)], timeout=400, idle=60)
    for p in out:
        c, r = classes[int(p[0])]
        run.count("stress runs")
        if p[1] not in ("ok", "R"):
            run.violation("%s: 8 threads iterating: %s" % (c.fam, p[1]), vlib.replay_record(c, "every thread finishes with the same items", p[1], {"kind": "stress"}))
    if len(out) < len(classes) and not run.violations:
        c = classes[len(out)][0]
        run.violation("%s: 8 threads iterating: %s %s" % (c.fam, code, err), vlib.replay_record(c, "finishes", str(code), {"kind": "stress"}))
    run.log("%d classes under stress" % len(out))
    run.sample({"family": classes[0][0].fam, "threads": 8, "rounds": classes[0][1], "input_hex": classes[0][0].b.hex()[:300]})


# ---------------------------------------------------------------- C26
def items_of(exp):
    return json.loads(exp[1:])[9]


def same(x):
    return json.dumps(x, separators=(",", ":"), ensure_ascii=False)


def op_name(o, k):
    return "%s%d" % (o, k - 1)


def c26(run):
    prog = build("release")
    progs = {"default": prog}
    cases = [c for a in range(4 if run.thorough() else 1) for c in family(run, "items", str(run.seed * 10 + a)) if c.exp[0] == "A" and c.m == "v"]
    cases += [c for f in ("pool", "big-pools") for c in family(run, f) if c.exp[0] == "A" and c.m == "v"]
    cases += [c for c in family(run, "names")[::40] if c.exp[0] == "A" and c.m == "v"]
    by_n = {}
    for c in cases:
        by_n.setdefault(len(items_of(c.exp)), []).append(c)
    rnd = random.Random(run.seed)
    todo = []

    def use(n, slots, hs, k):
        for h in hs:
            for c in rnd.sample(by_n[n], min(k, len(by_n[n]))):
                todo.append((c, h))
    # all histories that cover the transitions of the small models
    for n in sorted(x for x in by_n if x <= (6 if run.thorough() else 4)):
        slots = 3 if n <= 4 else 2
        lines = tlc(run, "Iterators", env={"ITEMS": str(n), "SLOTS": str(slots), "LONGEST": "0"})
        hs = [json.loads(x) for x in printed(lines)]
        run.log("%d items, %d iterators: %d transitions" % (n, slots, len(hs)))
        use(n, slots, hs, 2)
    # long histories over larger pools
    bigger = sorted(x for x in by_n if x > 4)
    for n in rnd.sample(bigger, min(len(bigger), 20 if run.thorough() else 6)) + bigger[-2:]:
        ln = 150
        lines = tlc(run, "Iterators", cfg="IteratorsLong.cfg", env={"ITEMS": str(n), "SLOTS": "4", "LONGEST": str(ln)},
                    extra=("-simulate", "num=%d" % (20 if run.thorough() else 4), "-depth", str(ln + 2), "-seed", str(run.seed)), workers=1)
        heads = {}
        for x in printed(lines):
            h = json.loads(x)
            heads[json.dumps(h[:-1])] = h
        use(n, 4, list(heads.values()), 3)
    # histories of one class follow each other so that it is decoded once
    todo.sort(key=lambda t: id(t[0]))
    run.log("%d histories over %d classes" % (len(todo), len({id(t[0]) for t in todo})))
    for variant in ("release", "threadsafe"):
        lines = ["%d %s %s" % (i, c.b.hex(), ",".join(op_name(o, k) for o, k, _ in h)) for i, (c, h) in enumerate(todo)]
        out, code, err = drive(run, build(variant), ["iter"], lines)
        for p in out:
            c, h = todo[int(p[0])]
            run.count("iterator histories (%s build)" % variant)
            its = [same(x) for x in items_of(c.exp)]
            got = p[1].split("\x01")
            want = []
            for (o, k, r) in h:
                if o in "cd":
                    want.append(".")
                elif o in "ntumfl":
                    want.append(its[r[0] - 1] if r else "-")
                elif o in "reg":
                    want.append("[" + ",".join(its[i - 1] for i in r) + "]")
                else:
                    want.append(str(r))
            bad = None
            if len(got) != len(want) + 1:
                bad = (len(got) - 1, "a result for every operation", p[1][:300])
            else:
                for i, (w, g) in enumerate(zip(want, got)):
                    if h[i][0] == "z":
                        lo, hi = (int(x) for x in g.split(":"))
                        if not lo <= int(w) <= hi:
                            bad = (i, "bounds around " + w, g)
                            break
                    elif w != g:
                        bad = (i, w, g)
                        break
                if bad is None and got[-1] != c.exp:
                    bad = (len(h), "the class unchanged", vlib.first_difference(c.exp, got[-1]))
            if bad:
                ops = [op_name(o, k) for o, k, _ in h[:bad[0] + 1]]
                run.violation("%s: after %s: specified %s, observed %s" % (c.fam, " ".join(ops[-12:]), bad[1][:120], bad[2][:120]),
                              vlib.replay_record(c, bad[1], bad[2], {"kind": "iter", "ops": ops, "variant": variant}))
        if len(out) < len(lines):
            c, h = todo[len(out)]
            run.violation("%s: an iterator history ends the process: %s %s" % (c.fam, code, err),
                          vlib.replay_record(c, "finishes", str(code), {"kind": "iter", "ops": [op_name(o, k) for o, k, _ in h], "variant": variant}))
        run.log("%s build: %d histories replayed" % (variant, len(out)))
    c, h = todo[0]
    run.sample({"input_hex": c.b.hex()[:300], "ops": [op_name(o, k) for o, k, _ in h]})


# ---------------------------------------------------------------- C27
def c27(run):
    prog = build("release")
    lines = tlc(run, "ClassNames", env={"DEPTH": "5" if run.thorough() else "4"})

    def hexed(t):
        t = t.strip("<> ")
        return bytes(int(x) for x in t.split(",") if x.strip()).hex()
    todo = []
    for x in printed(lines):
        a, b, e = x.split(" | ", 2)
        todo.append((hexed(a), hexed(b), e))
    run.log("%d texts with partners" % len(todo))
    out, code, err = drive(run, prog, ["names"], ["%d %s %s" % (i, a, b) for i, (a, b, _) in enumerate(todo)])
    for p in out:
        a, b, e = todo[int(p[0])]
        run.count("class names")
        if p[1] != e:
            run.violation("class name %r (with %r): specified %s, observed %s" % (bytes.fromhex(a), bytes.fromhex(b), e[:200], p[1][:200]),
                          {"kind": "names", "a": a, "b": b, "specified": e, "observed": p[1]})
    if len(out) < len(todo):
        a, b, e = todo[len(out)]
        run.violation("class name %r ends the process: %s %s" % (bytes.fromhex(a), code, err), {"kind": "names", "a": a, "b": b, "specified": e, "observed": str(code)})
    run.sample({"text": todo[len(todo) // 2][0], "partner": todo[len(todo) // 2][1], "specified": todo[len(todo) // 2][2][:300]})
    # as reported from parsed classes
    for f in ("names", "header"):
        vlib.conform(run, prog, family(run, f, props={"C27"}))


# ---------------------------------------------------------------- C28
PARSED = ["attr-base", "pool", "#items", "#classes", "names", "fields", "methods", "bootstrap", "header", "code-mix", "opcodes", "#programs", "module",
        "attr-tables", "encodings"]


def c28(run):
    prog = build("release")
    fams = list(PARSED)
    if run.thorough():
        fams += ["attr-dev", "attr-frame", "fdescs", "mdescs", "attr-names", "versions", "jumps", "switches", "deep-ann", "deep-attr", "lookups"]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        parts = list(ex.map(lambda f: family(run, f.lstrip("#"), args_of(run, f, 1)[0], expect=False), fams))
    cases = [c for p in parts for c in p] + mutant_cases(run, 60000 if run.thorough() else 8000, "vnlpd")
    # the same input at two places in memory, twice in a process (flag nondet), and in two
    # processes, the second one in another order and so after other parses
    a = observe(run, prog, cases)
    back = list(reversed(cases))
    b = list(reversed(observe(run, prog, back)))
    for c, x, y in zip(cases, a, b):
        run.count("parsed in two processes")
        if x.o[:1] == "?" or y.o[:1] == "?":
            continue
        if "nondet" in x.flags or "nondet" in y.flags:
            run.violation("%s: two parses of the same bytes in one process differ" % c.fam, vlib.replay_record(c, "the same", x.o, {"kind": "input", "error": x.err}))
        elif x.o != y.o or x.err != y.err:
            run.violation("%s: two processes differ: %s / %s" % (c.fam, short(x), short(y)), vlib.replay_record(c, x.o, y.o, {"kind": "runs", "errors": [x.err, y.err]}))
    run.log("%d inputs parsed again" % len(cases))
    # histories: the model's transitions over inputs chosen for their variety
    rnd = random.Random(run.seed)
    kinds = {}
    for i, x in enumerate(a):
        if x.o[:1] in "AR" and len(cases[i].b) < 4000:
            kinds.setdefault(re.sub(r"[0-9]+", "", x.err)[:70] if x.o == "R" else "accepted " + cases[i].fam, []).append(i)
    keys = sorted(kinds)
    rnd.shuffle(keys)
    run.log("%d kinds of outcomes" % len(keys))
    acc = [q for q in keys if q.startswith("accepted")]
    rej = [q for q in keys if not q.startswith("accepted")]
    for kind, k, kr in (("alive", 9, 9), ("worn", 12, 200)) if not run.thorough() else (("alive", 20, 20), ("worn", 20, 400)):
        pick = [rnd.choice(kinds[q]) for q in acc[:k] + rej[:kr]]
        lines = tlc(run, "Purity", env={"INPUTS": str(len(pick)), "HISTORIES": kind})
        hs = [json.loads(x) for x in printed(lines)]
        if kind == "worn":
            # what follows one input parsed over and over, as one history
            after = {}
            for h in hs:
                after.setdefault(h[0], []).extend(h[1:])
            times = 70000 if run.thorough() else 3000
            hs = [[h + str(times)] + t for h, t in sorted(after.items())]
        rnd.shuffle(hs)
        history_runs(run, prog, [cases[i] for i in pick], [a[i] for i in pick], hs)
    # one buffer, filled with inputs of the same length (and others) one after another
    sel = []
    for q in acc[:12] if run.thorough() else acc[:5]:
        c = cases[rnd.choice(kinds[q])]
        sel += [c] + [Case(v, c.m, c.p, c.fam) for v in near_variants(c.b, rnd)]
    lines = tlc(run, "Purity", env={"INPUTS": str(len(sel)), "HISTORIES": "buffer"})
    hs = [json.loads(x) for x in printed(lines)]
    rnd.shuffle(hs)
    history_runs(run, prog, sel, observe(run, prog, sel), hs)


def near_variants(b, rnd):
    """Inputs of the same length: without the magic number, of another version, cut off and
    filled up, with a byte changed here or there, upside down."""
    out = [b"\0" + b[1:], b[:6] + bytes([0, 45]) + b[8:], b[:len(b) // 2] + bytes(len(b) - len(b) // 2), b[:8] + b[-1:7:-1], bytes(len(b))]
    for _ in range(4):
        i = rnd.randrange(8, len(b))
        out.append(b[:i] + bytes([(b[i] + rnd.choice((1, 255, 128, 3))) % 256]) + b[i + 1:])
    return out


def history_runs(run, prog, sel, alone, hs):
    # sixteen callers, each with a share of the histories
    callers = [" ".join(t for h in hs[j::16] for t in h) for j in range(16)]
    pf = run.path("hist.txt")
    with open(pf, "w") as h:
        h.writelines(x + "\n" for x in callers)
    # what each must come to is the specification's word (the error text is the first process's)
    bad = judge(run, sel, [o.o for o in alone])
    for j in range(2):
        out, code, err = drive(run, prog, ["hist", pf], ["%s %s" % (c.m, c.b.hex()) for c in sel])
        got = {}
        for p in out:
            i = int(p[0]) - 1
            want = alone[i]
            got[i] = True
            if p[1] != want.o or (p[2] != want.err and "kept" not in p[3]):
                run.violation("%s: outcome depends on the history (%s): alone %s, here %s" % (sel[i].fam, p[3], short(want), p[1][:80] + " " + p[2][:80]),
                              vlib.replay_record(sel[i], want.o, p[1], {"kind": "history", "error_alone": want.err, "error_here": p[2], "where": p[3],
                                                                     "inputs": [[c.m, c.b.hex()] for c in sel], "histories": callers}))
        if len(got) < len(sel) and not run.violations:
            run.violation("parse histories end the process: %s %s" % (code, err), {"kind": "history", "inputs": [[c.m, c.b.hex()] for c in sel], "histories": callers})
        run.count("parses in histories and threads", 2 * sum(int(t.split("*")[1]) if "*" in t else 1 for h in hs for t in h))
    run.notes.append("%d of the %d history inputs deviate from the specification (other properties)" % (len(bad), len(sel)))
    run.log("%d histories over %d inputs, on one thread and on 16 at once" % (len(hs), len(sel)))
    run.sample({"inputs": [c.fam for c in sel][:10], "history": callers[0][:200]})


CHECKS = {"C01": c01, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28}
