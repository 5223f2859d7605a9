"""C12: the allocator."""
from .core import *
from . import giant
from .lists import flat_graph

CFG = """SPECIFICATION Spec
CONSTANTS
  Ptr = %d
  SegSize = %d
  Grid <- GridDef
  Max = %d
  Gap = 16
  Emit = %s
VIEW View
INVARIANTS InsideOK DisjointOK AlignedOK SizesOK UsageOK SpaceOK
PROPERTIES ReuseOK KeepOK
CONSTRAINT EmitS
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
"""
MC = "---- MODULE MC ----\nEXTENDS BlockAlloc\nGridDef == %s\n====\n"


def alloc_graph_jobs(c, mode, grid=None, top=None):
    """mode: 0 blocks, 1 usage, 2 heap"""
    top = top or c.pick(5, 7)
    grid = grid or c.pick([(1000, 8, 64, 16), (1300, 64, 4096, 48), (2000, 16, 4096, 16), (5000, 8, 64, 48), (1, 1024, 4096, 16)],
                          [(1000, 8, 64, 16), (1300, 64, 4096, 48), (2000, 16, 4096, 16), (5000, 8, 64, 48), (1, 1024, 4096, 16), (700, 4096, 8192, 4096), (2012, 4, 64, 48), (990, 24, 96, 32)])

    def job(g):
        obs, edges, parent = c.graph("MC", CFG % (8, 4032, top, "TRUE"), text=MC % ("{<<%d, %d, %d, %d>>}" % g), name="BlockAlloc%s" % (g,))
        text = flat_graph(str(top), obs, edges, parent)
        m = edges[len(edges) // 3]
        s = {"graph": "BlockAlloc", "transition": {"from": obs[m[0]], "op": m[1], "to": obs[m[2]]}}
        jobs = []
        for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True})):
            jobs.append(lambda kw=kw, b=b: c.replay_graph("alloc%s/%s" % (g, b), [c.build("h_alloc.c", **kw), "graph", str(mode)] + [str(x) for x in g], text, len(edges), sample=s, asan=b == "asan", timeout=400))
        c.parallel(*jobs)
    return [lambda g=g: job(g) for g in grid]


def script(r, steps, ptr):
    b = r.choice([r.randrange(1, 40), r.randrange(1, 300), r.choice([8, 16, 24, 32, 64, 128, 256, 512]), r.randrange(300, 4100), r.randrange(3900, 4100), r.choice([5000, 20000]), r.choice([r.randrange(4100, 20000), r.randrange(4100, 140000), 4096, 8192, 65535, 65536, 65537])])
    a = r.choice([0, 1, 2, 4, ptr, ptr, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 3 * ptr, 5 * ptr] + [r.choice([8192, 16384, 32768, 65536, 131072, 9 * ptr, 40 * ptr])])
    if r.random() < 0.25:
        a = b = r.choice([16, 32, 64, 128, 256])
    m = 4096 if a <= 4096 and 4096 % max(a, 16) == 0 else a * 16
    o = r.choice([16 * r.randrange(m // 16), 16 * r.randrange(m // 16), m - 16, 0, 16, m - ptr * 2])
    o -= o % 16
    per = max(1, (4032 - ptr) // max(1, b))
    cap = min(400, max(6, 3 * per))
    out = ["T %d %d %d %d" % (b, a, m, o)]
    used = []
    goal = r.randrange(1, cap + 1)
    for _ in range(steps):
        if len(used) == goal or r.random() < 0.02:
            goal = r.choice([0, 1, cap, r.randrange(cap + 1)])
        n = r.choice([1, 1, 1, 2, r.randrange(1, cap // 4 + 2)])
        if len(used) < goal:
            n = min(n, cap - len(used))
            s = set(used)
            new = []
            i = 0
            while len(new) < n:
                if i not in s:
                    new.append(i)
                i += 1
            used += new
            out.append("a %d" % n)
        elif used:
            n = min(n, len(used))
            k = r.choice(["lifo", "fifo", "rand"])
            f = used[-n:][::-1] if k == "lifo" else used[:n] if k == "fifo" else r.sample(used, n)
            used = [u for u in used if u not in set(f)]
            out.append("f %d %s" % (n, " ".join(map(str, f))))
        if r.random() < 0.01:
            out += ["D", "I"]
            used = []
    out.append("D")
    return out


def alloc_traces(c, inv, n, steps, parts=1, salt=""):
    jobs = []
    for i in range(parts):
        for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True})):
            r = c.rng("alloc", b, i, salt)
            s = [script(r, steps, 4 if b == "m32" else 8) for _ in range(n)]
            jobs.append(lambda b=b, kw=kw, i=i, s=s: c.validate("alloc%s/%s%d" % (salt, b, i), [c.build("h_alloc.c", **kw)], s, "TraceAlloc", inv, asan=b == "asan"))
    return jobs


INV = ["InsideOK", "AlignedOK", "DisjointOK", "DataOK", "UsageOK", "ReuseOK", "HeapOK"]


def check_alloc(c):
    c.assumptions.append("only blocks in use are deallocated; malloc() gives addresses multiple of 16")

    def grid(name, g, top):
        c.model("MC", CFG % (8, 4032, top, "FALSE"), name="BlockAlloc/" + name, text=MC % g, timeout=900)
    al = "{0, 1, 2, 4, 8, 16, 24, 32, 40, 64, 128, 512, 1024, 4096}"
    mis = "{0, 16, 32, 48, 64, 496, 1008, 2032, 4064, 4080}"
    jobs = [
        lambda: grid("big blocks", "{<<b, a, 4096, o>> : b \\in %s, a \\in %s, o \\in %s}" % ("(3996..4036) \\cup {900, 1000, 1001, 1340, 1344, 2008, 2012, 2016, 2020, 5000, 8192}", al, mis), c.pick(2, 3)),
        lambda: grid("small blocks", "{<<b, a, 4096, o>> : b \\in {1, 8, 9, 16, 24, 33, 64}, a \\in {1, 8, 32, 64}, o \\in %s}" % c.pick("{16, 4080}", "{0, 16, 48, 4080}"), 1),
        lambda: grid("histories", "{<<1000, 8, 64, 16>>, <<1300, 64, 4096, 48>>, <<2000, 16, 4096, 16>>, <<5000, 8, 64, 48>>}", c.pick(5, 7)),
    ]
    jobs += alloc_graph_jobs(c, 0)
    jobs += alloc_traces(c, INV, c.pick(40, 150), c.pick(50, 120), c.pick(1, 5))
    jobs += giant.allocators(c, ["RoundOK", "BlocksOK", "KeptOK", "ReuseOK", "UsageOK", "HeapOK"])
    jobs += giant.pools(c, ["RoundOK", "ContentOK", "UsageOK", "HeapOK"])
    c.parallel(*jobs)


CHECKS = {"C12": check_alloc}
