"""Seeded mutants of compiled classes: inputs for trace validation (spec/Judge.tla).

A mutant's outcome is not known beforehand: the real code's outcome is recorded and the
specification decides whether it is right.  Mutations know a little about where things are
(pool entries, the positions behind the pool), nothing about what should happen."""
import glob
import os
import random
import struct

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIZES = {3: 4, 4: 4, 5: 8, 6: 8, 7: 2, 8: 2, 9: 4, 10: 4, 11: 4, 12: 4, 15: 3, 16: 2, 17: 4, 18: 4, 19: 2, 20: 2}


def samples():
    return [open(f, "rb").read() for f in sorted(glob.glob(os.path.join(ROOT, "samples", "*.class")))]


def pool(b):
    """[(offset, tag, length)] of the pool's entries, and the end of the pool; None if it has no shape."""
    try:
        n = struct.unpack_from(">H", b, 8)[0]
        at, i, out = 10, 1, []
        while i < n:
            t = b[at]
            ln = 3 + struct.unpack_from(">H", b, at + 1)[0] if t == 1 else 1 + SIZES[t]
            out.append((at, t, ln))
            at += ln
            i += 2 if t in (5, 6) else 1
        if at + 8 > len(b):
            return None
        return out, at
    except (KeyError, IndexError, struct.error):
        return None


SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 32, 50, 51, 52, 53, 55, 127, 128, 196, 255]
WIDE = [0, 1, 2, 255, 256, 32767, 32768, 65534, 65535]


def mutate_once(b, rnd, pool_n):
    b = bytearray(b)
    info = pool(bytes(b))
    k = rnd.randrange(12)
    if info is None or not info[0]:
        k = rnd.choice((0, 1, 2, 5, 6))
        entries, end = [], min(10, len(b) - 1)
    else:
        entries, end = info
    if len(b) < 14:
        b += bytes(14)
    # Half of the positions behind the pool, where the structure is.
    at = rnd.randrange(max(len(b) - end, 1)) + min(end, len(b) - 1) if rnd.random() < 0.7 else rnd.randrange(len(b))
    at = min(at, len(b) - 4)
    if k == 0:
        b[at] ^= 1 << rnd.randrange(8)
    elif k == 1:
        b[at] = rnd.choice(SMALL) if rnd.random() < 0.8 else rnd.randrange(256)
    elif k == 2:
        v = struct.unpack_from(">H", b, at)[0] + rnd.choice((-2, -1, 1, 2, 4, 256, -256))
        struct.pack_into(">H", b, at, v & 0xFFFF)
    elif k in (3, 4):
        # another pool index (often one that exists), anywhere behind the pool or in an entry
        v = rnd.randrange(pool_n + 2) if rnd.random() < 0.85 else rnd.choice(WIDE)
        struct.pack_into(">H", b, at, v)
    elif k == 5:
        n = rnd.choice((1, 1, 2, 2, 4, 6))
        if rnd.random() < 0.5:
            del b[at:at + n]
        else:
            b[at:at] = bytes(rnd.choice(SMALL) for _ in range(n))
    elif k == 6:
        struct.pack_into(">I", b, at, rnd.choice((0, 1, 2, 3, 4, 5, 6, 8, 12, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 65536)))
    elif k == 7:
        # a reference inside a pool entry
        o, t, ln = rnd.choice([e for e in entries if e[1] not in (1, 3, 4, 5, 6)] or entries)
        p = o + rnd.choice([1, 3] if ln == 5 else [1, 2] if ln == 4 else [1])
        if t != 1:
            struct.pack_into(">H", b, min(p, len(b) - 2), rnd.randrange(pool_n + 2))
    elif k == 8:
        # the tag of an entry, to one of the same size
        o, t, ln = rnd.choice(entries)
        same = [x for x in SIZES if SIZES[x] == SIZES.get(t) and x != t]
        if same:
            b[o] = rnd.choice(same)
    elif k == 9:
        # a character of a text
        texts = [e for e in entries if e[1] == 1 and e[2] > 3]
        if texts:
            o, _, ln = rnd.choice(texts)
            p = o + 3 + rnd.randrange(ln - 3)
            c = rnd.choice(b"()V[;L/IJ.<>aZ$\x00\x80\xc0\xc1\xc2\xed\xa0\xb0\xe0\xef\xf0\xff")
            r = rnd.random()
            if r < 0.5:
                b[p] = c
            else:
                n = struct.unpack_from(">H", b, o + 1)[0]
                if r < 0.75:
                    b[p:p] = bytes([c])
                    n += 1
                else:
                    del b[p]
                    n -= 1
                struct.pack_into(">H", b, o + 1, n)
    elif k == 10:
        # two entries change places
        x, y = rnd.choice(entries), rnd.choice(entries)
        if x[0] > y[0]:
            x, y = y, x
        if x[0] < y[0]:
            tx, ty = bytes(b[x[0]:x[0] + x[2]]), bytes(b[y[0]:y[0] + y[2]])
            b[y[0]:y[0] + y[2]] = tx
            b[x[0]:x[0] + x[2]] = ty
    else:
        # the version
        struct.pack_into(">H", b, 6, rnd.choice((0, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 60, 61, 62, 66, 200, 65535)))
    return bytes(b)


def mutants(seeds, seed, n, limit=2600):
    rnd = random.Random(seed)
    seeds = [s for s in seeds if len(s) <= limit]
    out = []
    while len(out) < n:
        s = rnd.choice(seeds)
        pool_n = struct.unpack_from(">H", s, 8)[0]
        m = s
        for _ in range(rnd.choice((1, 1, 1, 2, 2, 3, 5))):
            m = mutate_once(m, rnd, pool_n)
        out.append(m)
    return out
