"""C10, C11: the arrays."""
from .core import *
from .lists import flat_graph

NAMES = ["array", "arrayof", "arrayblk", "arrayblkof"]
SIZES = [1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33, 64, 100]


def array_graph(c, kind, bit, blk, top, values):
    cfg = """SPECIFICATION Spec
CONSTANTS
  Kind = "%s"
  Bit = %d
  Blk = %d
  Max = %d
  Values = {%s}
  Emit = TRUE
VIEW View
INVARIANTS InsideOK DisjointOK FreshOK UsageOK SpaceOK
PROPERTIES Refines FixedOK
CONSTRAINT EmitS
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
""" % (kind, bit, blk, top, ", ".join(map(str, range(values + 1))))
    return c.graph("Arrays", cfg, name="Arrays(%s, 2^%d, block %d, size %d, %d values)" % (kind, bit, blk, top, values), heap="8g", timeout=900)


def array_graph_jobs(c, mode, asan=True, sizes=None):
    """mode: 0 content, 1 addresses, 2 heap, 3 usage, 4 space"""
    def job(kind, bit, blk, top, values):
        obs, edges, parent = array_graph(c, kind, bit, blk, top, values)
        text = flat_graph("", obs, edges, parent)
        m = edges[len(edges) // 3]
        s = {"graph": "Arrays", "transition": {"from": obs[m[0]], "op": m[1], "to": obs[m[2]]}}
        defs = ("-DTOMMYDS_MODEL", "-DTOMMY_ARRAY_BIT=%d" % bit, "-DTOMMY_ARRAYOF_BIT=%d" % bit, "-DTOMMY_ARRAYBLK_SIZE=%d" % blk, "-DTOMMY_ARRAYBLKOF_SIZE=%d" % blk)
        jobs = []
        r = c.rng("arrayes", kind, mode)
        for k in ((0, 1) if kind == "seg" else (2, 3)):
            for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True})):
                if b == "asan" and not asan:
                    continue
                for es in ([8] if k in (0, 2) else [r.choice([1, 2, 4, 8]), r.choice(SIZES)]):
                    def run(k=k, kw=kw, b=b, es=es):
                        exe = c.build("h_array.c", defs=defs, optional=True, **kw)
                        if exe is None:
                            c.cov.setdefault("skipped", []).append("replay of %s/%s: the constants can't be provided to this code" % (NAMES[k], b))
                            return
                        c.replay_graph("%s/%d.%d.%d/%s/es%d" % (NAMES[k], bit, blk, top, b, es), [exe, "graph", str(mode), str(k), str(es)], text, len(edges), sample=s, asan=b == "asan", timeout=600)
                    jobs.append(run)
        c.parallel(*jobs)
    sizes = sizes or c.pick([("seg", 1, 2, 6, 2), ("blk", 1, 2, 6, 2), ("seg", 2, 2, 10, 1), ("blk", 1, 2, 9, 1)],
                            [("seg", 1, 2, 8, 2), ("blk", 1, 2, 8, 2), ("seg", 1, 2, 10, 1), ("blk", 2, 1, 10, 1), ("blk", 1, 3, 7, 2), ("seg", 2, 1, 9, 2)])
    return [lambda a=a: job(*a) for a in sizes]


def intervals(r, top, dense):
    cut = {0, top}
    for k in range(0, 36):
        for d in (-1, 0, 1):
            if r.random() < dense:
                cut.add((1 << k) + d)
    for m in (1, 2, 3, 4, 7, 8, 16, 64, 65, 100):
        for d in (-1, 0, 1):
            if r.random() < dense:
                cut.add(4096 * m + d)
    for _ in range(6):
        cut.add(r.randrange(top + 1))
        a = r.randrange(top + 1)
        cut |= {a, a + 1}
    cut = sorted(x for x in cut if 0 <= x <= top)
    return list(zip(cut, cut[1:]))


def element_size(r, top):
    """Any size, for at most 4 MB at the top."""
    if top > 6000 or r.random() < 0.5:
        return r.choice(SIZES)
    m = min(65535, (4 << 20) // (top + 1))
    return min(m, r.choice([r.randrange(100, 700), r.randrange(100, 70000), r.choice([128, 255, 256, 257, 511, 512, 1000, 1024, 4095, 4096, 4097, 8192, 32767, 32768, 65535])]))


def script(r, top, steps, dense=0.6, kind=None, ends="D"):
    kind = r.randrange(4) if kind is None else kind
    es = element_size(r, top) if top < 200000 else r.choice([1, 2, 3, 4, 5, 8])
    iv = intervals(r, top, dense)
    small = top <= 6000
    obs = 3 if small else 0
    out = ["T %d %d %d %d %s" % (kind, es, obs, len(iv), " ".join("%d %d" % x for x in iv)), "o"]
    size = 0
    style = r.choice(["grow", "insert", "mix", "mix"])
    for step in range(steps):
        x = r.random()
        at = [k for k, i in enumerate(iv) if i[0] == size]
        if at and x < {"grow": 0.05, "insert": 0.5, "mix": 0.25}[style]:
            out.append("i %d %d" % (at[0] + 1, r.randrange(7)))
            size = iv[at[0]][1]
        elif x < 0.5:
            c = r.choice(iv)[r.randrange(2)] + r.choice([0, 0, 0, -1, 1])
            if r.random() < 0.5:  # go up slowly
                c = min([i[1] for i in iv if i[1] > size] + [top], key=lambda v: v) if r.random() < 0.7 else size + r.randrange(0, 3)
            c = max(0, min(c, top))
            out.append("g %d" % c)
            size = max(size, c)
        else:
            k = [k for k, i in enumerate(iv) if i[1] <= size]
            if not k:
                continue
            k = r.choice(k + k[-3:] * 3)
            out.append("w %d %d" % (k + 1, r.randrange(7)))
        if not small and r.random() < 0.3:
            out.append("o")
    out += ["o", "D"]
    return out


def huge(r, kind, es, top, steps):
    """Sizes over 2^32 elements, or bytes (memory not touched isn't used)."""
    pts = {0, 1, 63, 64, 65, 4095, 4096}
    first = 17 if top > 1 << 20 else 2
    for k in range(first, 40):
        pts |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    for _ in range(30):
        pts.add(r.randrange(top))
    pts = sorted(p for p in pts if p < top)
    iv = [(p, p + 1) for p in pts]
    out = ["T %d %d 3 %d %s" % (kind, es, len(iv), " ".join("%d %d" % x for x in iv))]
    size = 0
    up = sorted(r.sample(pts, min(len(pts), steps // 3)) + [(1 << k) + d for k in range(first - 1, 40) for d in (0, 1)] + [top])
    for u in [u for u in up if u <= top]:
        out.append("g %d" % u)
        size = u
        for _ in range(2):
            k = [k for k, i in enumerate(iv) if i[1] <= size]
            if k:
                out.append("w %d %d" % (r.choice(k + k[-2:] * 2) + 1, r.randrange(7)))
    for k in range(len(iv)):
        out.append("w %d %d" % (k + 1, r.randrange(7)))
    out += ["o", "D"]
    return out


def array_traces(c, inv, n, steps, big, parts=1, salt="", lazy=True):
    """big: (n, top, steps)"""
    jobs = []
    for i in range(parts):
        for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True})):
            r = c.rng("array", b, i, salt)
            s = [script(r, r.choice([5, 40, 130, 300, 1100, 5000]), steps, kind=j % 4) for j in range(n if b == "fast" else n // 2)]
            jobs.append(lambda b=b, kw=kw, i=i, s=s: c.validate("arrays%s/%s%d" % (salt, b, i), [c.build("h_array.c", **kw)], s, "TraceArray", inv, asan=b == "asan"))
        for b, kw in (("big", {"opt": "-O2"}), ("big32", {"opt": "-O2", "m32": True}), ("bigasan", {"asan": True})):
            r = c.rng("arraybig", b, i, salt)
            d = 10 if b == "bigasan" else 1
            s = [script(r, max(10, (r.choice([big[1], (1 << r.randrange(10, big[1].bit_length())) + r.randrange(-2, 3), r.randrange(1, big[1])])) // d), big[2], 0.3, kind=j % 4) for j in range(big[0])]
            jobs.append(lambda b=b, kw=kw, i=i, s=s: c.validate("arrays%s/%s%d" % (salt, b, i), [c.build("h_array.c", **kw)], s, "TraceArray", inv, asan=b == "bigasan", timeout=400))
    if lazy:
        r = c.rng("arrayhuge", salt)
        s = [huge(r, 1, 1, (1 << 32) + 70, 30)]
        jobs.append(lambda: c.validate("arrays%s/huge" % salt, [c.build("h_array.c"), "lazy"], s, "TraceArray", inv))
        s2 = [huge(r, 0, 8, (1 << 28) + 70, 30), huge(r, 1, 3, (1 << 30) + 70, 30), huge(r, 3, 100, (1 << 24) + 70, 30), huge(r, 2, 8, (1 << 26) + 70, 30), huge(r, 3, 64, (1 << 26) + 70, 30)]
        # elements so big that the offsets don't fit in 32 bits at small positions
        s3 = [huge(r, 1, 65536, (1 << 16) + 7000, 24), huge(r, 1, 1 << 20, (1 << 12) + 70, 24), huge(r, 1, (1 << 21) - 1, (1 << 11) + 5, 24), huge(r, 1, (1 << 20) + 24, (1 << 12) + 70, 24)]
        s4 = [huge(r, 3, 1 << 20, 4096 + 77, 24), huge(r, 3, 1 << 21, 4096, 24), huge(r, 3, (1 << 21) - 1, 4096, 24), huge(r, 3, 1300003, 4096 + 70, 24)]
        for n, x in (("bigger", s3), ("bigger2", s4)):
            jobs.append(lambda n=n, x=x: c.validate("arrays%s/%s" % (salt, n), [c.build("h_array.c"), "lazy"], x, "TraceArray", inv))
        jobs.append(lambda: c.validate("arrays%s/huge2" % salt, [c.build("h_array.c"), "lazy"], s2, "TraceArray", inv))
    return jobs


VAL_INV = ["SizeOK", "ContentOK"]
ADDR_INV = ["InsideOK", "DisjointOK", "AlignedOK", "FixedOK"]


def asm(c):
    c.assumptions.append("positions accessed are below the size (the documented precondition); memory is zeroed by calloc() and aligned at 16 bytes, as malloc() does")


def check_values(c):
    asm(c)
    c.parallel(*(array_graph_jobs(c, 0) + array_traces(c, VAL_INV, c.pick(32, 120), c.pick(60, 150), c.pick((12, 1 << 19, 25), (16, 1 << 22, 40)), c.pick(1, 5))))


def check_addresses(c):
    asm(c)
    c.parallel(*(array_graph_jobs(c, 1) + array_traces(c, ADDR_INV, c.pick(32, 120), c.pick(60, 150), c.pick((12, 1 << 19, 25), (16, 1 << 22, 40)), c.pick(1, 5))))


CHECKS = {"C10": check_values, "C11": check_addresses}
