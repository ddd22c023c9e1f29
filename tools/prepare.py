"""Explores, once for all checks, the families of the specification that the quick checks replay
(called by setup.sh): the behaviours depend on the specification and the seed alone, never on
/repo.  A check that finds a family here takes it, and explores it itself otherwise."""
import concurrent.futures as cf
import os
import shutil
import sys
import time

import checks
import special
import vlib

SLOW = ["opcodes", "attr-dev", "jumps", "attr-frame", "mdescs", "fdescs", "encodings", "names", "pool+1100/47", "attr-pairs", "#classes", "kit+65300",
        "attr-base+65300", "opcodes-few+65300", "#attr-rnd", "lookups", "attr-base"]


def wanted(seed):
    """[(family, argument, remode, expect)] of the quick checks, the ones used most first."""
    uses = {}

    def use(f, remode=None, expect=True, n=1):
        for i in range(n):
            k = (f.lstrip("#"), str(seed * 10 + i) if f[0] == "#" else "", remode and tuple(sorted(remode.items())), expect)
            uses[k] = uses.get(k, 0) + 1 + (20 if f in SLOW else 0)
    for fams in checks.FAMS.values():
        for f in fams:
            use(f)
    for f in special.SPECIFIED + ["names", "header"]:
        use(f)
    for f in special.PAIRED:
        use(f, special.BOTH)
    use("#items", n=2)
    for f in special.ALL + special.COMPARED + special.PARSED:
        if (f.lstrip("#"), str(seed * 10) if f[0] == "#" else "", None, True) not in uses:
            use(f, expect=False)
    return sorted(uses, key=lambda k: (not k[3], -uses[k]))


def main(budget):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    end = time.time() + budget
    vlib.SAVE = True
    here = vlib.spec_hash() + vlib.GEN
    if os.path.isdir(vlib.CACHE):
        for n in os.listdir(vlib.CACHE):
            if n != here:
                shutil.rmtree(os.path.join(vlib.CACHE, n))

    def one(job):
        f, arg, remode, expect = job
        if time.time() > end or os.path.exists(vlib.cache_file(f, arg, remode and dict(remode), expect)):
            return 0
        run = vlib.Run("P-%d" % (abs(hash(job)) % 10**9), "quick", seed)
        t = time.time()
        try:
            vlib.family(run, f, arg, remode=remode and dict(remode), expect=expect)
        except (vlib.CheckError, OSError, ValueError) as e:
            print("not explored: %s%s: %s" % (f, arg, str(e)[:500]), flush=True)
            return 0
        finally:
            run.close()
        if os.environ.get("VERIF_TIMES"):
            print("%6.1f s %s%s %s" % (time.time() - t, f, arg, "" if expect else "(inputs)"), flush=True)
        return 1
    with cf.ThreadPoolExecutor(4) as ex:
        jobs = wanted(seed)
        n = sum(ex.map(one, jobs))
    print("%d of %d families explored in %d s" % (n, len(jobs), time.time() - end + budget))


if __name__ == "__main__":
    main(int(sys.argv[1]) if len(sys.argv) > 1 else 1000)
