"""Containers and blocks over 4 GB, for the checks of the properties that depend on them."""
from .core import *

INV = ["CountOK", "ContentOK", "EachOK", "SizeOK", "SpreadOK", "UsageOK", "RoundOK", "BlocksOK", "KeptOK", "ReuseOK", "SpaceOK", "HeapOK"]


def obs(r, lo, hi, each=False):
    p = {lo, hi, hi + 1, max(0, hi - 1), max(0, lo - 1), (lo + hi) // 2} | {r.randrange(0, hi + 10) for _ in range(20)}
    p = sorted(p)[:40]
    return "%s %d %s" % ("e" if each else "o", len(p), " ".join(map(str, p)))


def table(r, want, bits):
    """A fixed table with few elements, near or far; want is the size requested."""
    n = r.randrange(20, 400)
    size = 16
    while size < want:
        size *= 2
    stride = r.choice([1, max(1, size // n), max(1, size // n) | 1, max(1, size // (2 * n)), 1 << max(0, size.bit_length() - 12)])
    if size >= 1 << 12 and r.random() < 0.6:
        stride = size >> r.choice([5, 6, 7, 8]) # all over the table
        n = size // stride
    n = max(1, min(n, size // stride))
    base = r.choice([0, r.getrandbits(bits), size // 2 - n // 2, (1 << 32) - n // 2])
    s = ["T hashtable %d %d %d %d" % (want, base, stride, n)]
    # an interval ends of elements never more than the capacity from the first in
    s += [obs(r, 0, 0), "i %d" % (n // 2), obs(r, 0, n // 2), "i %d" % (n - n // 2), obs(r, 0, n), "f %d" % (n // 3), obs(r, n // 3, n), "p %d" % (n // 4), obs(r, n // 3, n - n // 4), "D"]
    return s


def grown(r, kind, n, each, base=0, stride=1):
    s = ["T %s %d %d %d %d" % (kind, n // 2 if kind == "hashtable" else 0, base, stride, n)]
    each = each and not kind.startswith("trie")
    at = 0
    for x in sorted({n // 16, n // 4 - 1, n // 4, n // 2, n // 2 + 1, n - r.randrange(1, 1000), n}):
        s += ["i %d" % (x - at), obs(r, 0, x, each and x == n)]
        at = x
    f = n // 2 + r.randrange(1000)
    s += ["f %d" % f, obs(r, f, n), "p %d" % (n // 4), obs(r, f, n - n // 4)]
    return s + ["D"]


def same(r, kind, n, bits):
    """Many elements with the same hash, or with different ones in the same bucket."""
    trie = kind.startswith("trie")
    s = ["T %s %d %d %d %d" % (kind, r.choice([0, n]), r.getrandbits(31 if trie else bits), 0 if trie else r.choice([0, 0, 1 << 25]), n)]
    at = 0
    for x in sorted({r.randrange(1, n), n - 1, n}):
        s += ["i %d" % (x - at), obs(r, 0, x)]
        at = x
    f = r.randrange(n // 2)
    s += ["f %d" % f, obs(r, f, n), "p 30", obs(r, f, n - 30), "f %d" % (n - 40 - f), obs(r, n - 40, n - 30), "f 10", "o 2 0 %d" % (n - 35)]
    return s + ["D"]


def blocks(r, blk, ali, n, ptr):
    a = max(ali, ptr)
    s = ["A %d %d %d" % (blk, ali, (blk + a - 1) // a)]
    used, free = [], list(range(n))
    for _ in range(12):
        if free and r.random() < 0.65:
            k = r.randrange(1, len(free) + 1)
            x, free = free[:k], free[k:]
            used += x
            s.append("a %d %s" % (k, " ".join(map(str, x))))
        elif used:
            x = r.sample(used, r.randrange(1, len(used) + 1))
            used = [u for u in used if u not in set(x)]
            free += x
            s.append("x %d %s" % (len(x), " ".join(map(str, x))))
    if free:
        s.append("a %d %s" % (len(free), " ".join(map(str, free))))
    return s + ["E"]


def pools(c, inv):
    """Millions of blocks of an allocator."""
    jobs = []
    for b, m32 in (("", False), ("32", True)):
        r = c.rng("giant pools", b)
        s = []
        for blk, ali, n in ((16, 0, 3000000), (64, 64, 1500000), (r.randrange(17, 200), r.choice([0, 8, 16, 24, 32]), 700000), (2016, 8, 100000), (r.randrange(500, 5000), 16, 50000)):
            n = n * c.pick(1, 6) + r.randrange(10000)
            o = ["T pool %d %d 1 %d" % (blk, ali, 2 * n)]
            lo, hi = 0, 0
            for _ in range(8):
                x = r.randrange(1, n)
                if hi - lo < n // 2 and hi + x <= 2 * n:
                    o.append("i %d" % x)
                    hi += x
                else:
                    x = min(x, hi - lo)
                    o.append("%s %d" % (r.choice("fp"), x))
                    if o[-1][0] == "f":
                        lo += x
                    else:
                        hi -= x
            o += ["i %d" % (2 * n - hi), "f %d" % ((2 * n - lo) // 2), "o 0", "D"]
            s.append(o)
        jobs.append(lambda m32=m32, b=b, s=s: c.validate("giant/pools" + b, [exe(c, m32)], s, "TraceGiant", inv, giant=True))
    return jobs


def room():
    """GB of memory that can be used."""
    try:
        with open("/proc/meminfo") as f:
            return int([x for x in f if x.startswith("MemAvailable")][0].split()[1]) >> 20
    except (OSError, IndexError):
        return 0


def exe(c, m32=False):
    return c.build("h_giant.c", defs=("-DVF_WORK",), opt="-O2", m32=m32)


def tables(c, inv):
    """Fixed tables, also bigger than the memory."""
    r = c.rng("giant tables")
    want = [x + d for k in range(24, 34) for x, d in (((1 << k), 0), ((1 << k), -1), ((1 << (k - 1)), 1))]
    want += [r.randrange(1 << 31, 1 << 33) for _ in range(c.pick(3, 30))] + [3 << 30, (1 << 32) + 15, (1 << 32) - 16]
    w32 = [x + d for k in range(20, 29) for x, d in (((1 << k), 0), ((1 << (k - 1)), 1))]
    return [lambda: c.validate("giant/tables", [exe(c)], [table(r, w, 64) for w in want], "TraceGiant", inv, giant=True),
            lambda: c.validate("giant/tables32", [exe(c, True)], [table(c.rng("giant32", w), w, 32) for w in w32], "TraceGiant", inv, giant=True)]


def equals(c, inv, kind):
    """Lists of equal elements."""
    jobs = []
    for b, m32 in (("", False), ("32", True)):
        r = c.rng("giant equals", kind, b)
        s = [same(r, kind, n, 32 if m32 else 64) for n in c.pick([300, 5000, 70000, (1 << 18) + r.randrange(-1, 100000)], [300, 5000, 70000, 300000, (1 << 24) + r.randrange(1000)])]
        jobs.append(lambda m32=m32, b=b, s=s: c.validate("giant/equals%s/%s" % (b, kind), [exe(c, m32)], s, "TraceGiant", inv, giant=True))
    return jobs


def allocators(c, inv):
    r = c.rng("giant blocks")
    g = [(1 << 24, 0, 300), (1 << 24, 16, 270), ((1 << 32) + 8, 64, 4), ((1 << 32) - 8, 8, 3), (1 << 32, 1 << 21, 3), (1 << 20, 1 << 30, 6), ((5 << 30) + 1, 4096, 3), (100, 1 << 26, 70), (1 << 27, 24, 40),
         ((1 << 31) + 7, 1, 5), (1 << 16, 1 << 32, 3)]
    g32 = [(1 << 24, 0, 100), (1 << 30, 64, 1), ((1 << 28) + 1, 4096, 6), (100, 1 << 26, 20)]
    return [lambda: c.validate("giant/blocks", [exe(c)], [blocks(r, *a, 8) for a in g], "TraceGiant", inv, giant=True),
            lambda: c.validate("giant/blocks32", [exe(c, True)], [blocks(c.rng("giantb32", a), *a, 4) for a in g32], "TraceGiant", inv, giant=True)]


def elements(c, inv, kinds, each=False):
    """More than 4 GB of elements, really. Not to run with other jobs."""
    for kind in kinds:
        n = {"hashdyn": (1 << 27) + 5, "hashlin": (1 << 27) + 5, "hashtable": (1 << 27) + 5, "trie": (1 << 27) + 5, "trie_inplace": (1 << 26) + 5, "tree": (1 << 27) + 5, "list": (1 << 27) + 5}[kind]
        if room() < 14:
            c.cov.setdefault("skipped", []).append("giant/%s: not enough memory" % kind)
            continue
        r = c.rng("giant", kind)
        c.validate("giant/" + kind, [exe(c)], [grown(r, kind, n, each, base=r.choice([0, 1 << 20]))], "TraceGiant", inv, giant=True, timeout=600)
