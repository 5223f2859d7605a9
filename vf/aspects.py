"""C13, C16, C20: properties common to all the containers."""
from .core import *
from . import maps, lists, trees, arrays, alloc, gen, giant

MAPS = ["hashtable", "hashdyn", "hashlin", "trie", "trie_inplace"]


def stops(c, kind, inv, n, steps, asan=False, m32=False):
    """Many short histories, starting with many elements, ended at any point."""
    r = c.rng("stops", kind, asan, m32)
    s = []
    for i in range(n):
        pre = []
        k = r.randrange(2, 11)
        want = (1 << k) + r.choice([-1, 0, 1, r.randrange(-(1 << (k - 1)), 1 << (k - 1))])
        base = r.getrandbits(31)
        if maps.is_trie(kind):
            fam = gen.trie_keys(r, r.choice(gen.TRIE_FAMILIES), 8)
            fam = [f | 1 for f in fam]
            base &= 0x0ffffffe
            pre = [(min(want, 1500), base, 2 * r.choice([1, 3, 64, 1000]))]
            hs = list(dict.fromkeys(f & 0xffffffff for f in fam))
        else:
            hs = gen.hash_family(r, r.choice(gen.HASH_FAMILIES), 12)
            while want > 0:
                z = min(want, r.choice([want, r.randrange(1, want + 1)]))
                pre.append((z, base, r.choice([1, 3, 0x9E3779B97F4A7C15])))
                base += r.getrandbits(40)
                want -= z
        w = gen.walk(r, kind, hs, r.choice([1, 2, 3]), r.randrange(1, steps), prefill=pre, foreach=not maps.is_trie(kind), param=r.choice([1, 100, 1000]))
        # big blocks go away too
        for b in range(len(pre)):
            if r.random() < 0.5:
                at = r.randrange(1 + len(pre), len(w))
                w.insert(at, "r %d" % (len(hs) + 1 + b))
        w[0] = w[0].replace(" %s 1 " % kind, " %s %d " % (kind, 1 if len(pre) < 4 and sum(p[0] for p in pre) < 300 else 0), 1)
        s.append(w)
    c.validate("%s/stops%s%s" % (kind, "-asan" if asan else "", "-m32" if m32 else ""), [c.build("h_map.c", asan=asan, m32=m32)], s, "TraceMap", inv, asan=asan)


def map_jobs(c, inv, mode, kinds=MAPS, salt="", asan=True, fast=True):
    jobs = []
    for kind in kinds:
        maps.base_asm(c, kind) if kind == kinds[0] else None
        jobs += maps.model_jobs(c, kind, foreach=mode, hows=None if c.thorough else ["plain"], which=None if c.thorough else 1, asan=asan, fast=fast or c.thorough, small=not c.thorough)
        if c.thorough:
            jobs += maps.trace_jobs(c, kind, inv, walks=(30, 1500), asan=(30, 1000), m32=(20, 1000), batches=(8, 80, 100000), parts=3, salt=salt)
        else:
            jobs += maps.trace_jobs(c, kind, inv, walks=(12, 400), asan=(10 if asan else 0, 300), m32=(6, 300), batches=(4, 40, 10000), salt=salt, conf=False)
        for kw in ({}, {"asan": True}, {"m32": True}):
            if "asan" in kw and not asan:
                continue
            jobs.append(lambda kind=kind, kw=kw: stops(c, kind, inv, c.pick(60, 400), 60, **kw))
    return jobs


def heap(c):
    jobs = map_jobs(c, ["HeapOK"], 4, salt="-heap", fast=False)
    jobs += lists.list_graph_jobs(c, 2)
    jobs += lists.list_traces(c, ["HeapOK"], c.pick(12, 40), c.pick(300, 800), c.pick(1, 3), "heap")
    jobs += trees.tree_graph_jobs(c, [(3, True)], c.pick([(5, 2)], [(6, 2), (8, 1)]))
    jobs += trees.tree_traces(c, ["HeapOK"], c.pick((12, 300), (40, 800)), c.pick((4, 20, 5000), (8, 60, 50000)), c.pick(1, 3), "heap")
    jobs += arrays.array_graph_jobs(c, 2, sizes=c.pick([("seg", 1, 2, 6, 1), ("blk", 1, 2, 7, 1)], [("seg", 1, 2, 9, 1), ("blk", 1, 2, 9, 1), ("blk", 2, 1, 9, 1)]))
    jobs += arrays.array_traces(c, ["HeapOK"], c.pick(24, 80), c.pick(40, 100), c.pick((8, 1 << 17, 20), (12, 1 << 20, 40)), c.pick(1, 3), "heap", lazy=c.thorough)
    jobs += alloc.alloc_graph_jobs(c, 2, top=c.pick(4, 6))
    jobs += alloc.alloc_traces(c, ["HeapOK"], c.pick(20, 80), c.pick(50, 120), c.pick(1, 3), "heap")
    jobs += giant.tables(c, ["HeapOK"]) + giant.allocators(c, ["HeapOK"])
    c.parallel(*jobs)
    if c.thorough:
        giant.elements(c, ["HeapOK"], MAPS)


def usage(c):
    jobs = map_jobs(c, ["UsageOK", "TrieEmptyOK"], 2, salt="-usage", asan=False)
    jobs += trees.tree_graph_jobs(c, [(4, False)], c.pick([(5, 2)], [(6, 2)]))
    jobs += trees.tree_traces(c, ["UsageOK"], c.pick((12, 300), (40, 800)), c.pick((4, 20, 5000), (8, 60, 50000)), c.pick(1, 3), "usage")
    jobs += arrays.array_graph_jobs(c, 3, asan=False, sizes=c.pick([("seg", 1, 2, 6, 1), ("blk", 1, 2, 7, 1)], [("seg", 1, 2, 9, 1), ("blk", 1, 2, 9, 1), ("blk", 2, 1, 9, 1)]))
    jobs += arrays.array_traces(c, ["UsageOK"], c.pick(24, 80), c.pick(40, 100), c.pick((8, 1 << 17, 20), (12, 1 << 20, 40)), c.pick(1, 3), "usage", lazy=True)
    jobs += alloc.alloc_graph_jobs(c, 1, top=c.pick(4, 6))
    jobs += alloc.alloc_traces(c, ["UsageOK"], c.pick(20, 80), c.pick(50, 120), c.pick(1, 3), "usage")
    jobs += giant.tables(c, ["UsageOK"]) + giant.allocators(c, ["UsageOK"]) + giant.pools(c, ["UsageOK"])
    c.parallel(*jobs)
    giant.elements(c, ["UsageOK"], MAPS + c.pick([], ["tree"]))


def space(c):
    jobs = arrays.array_graph_jobs(c, 4, asan=False)
    jobs += arrays.array_traces(c, ["SpaceOK", "SizeOK"], c.pick(32, 120), c.pick(40, 100), c.pick((12, 1 << 19, 20), (16, 1 << 22, 40)), c.pick(1, 3), "space", lazy=True)
    jobs += alloc.alloc_graph_jobs(c, 1)
    jobs += alloc.alloc_traces(c, ["SpaceOK", "ReuseOK"], c.pick(40, 150), c.pick(50, 120), c.pick(1, 3), "space")
    jobs += giant.pools(c, ["SpaceOK"])
    c.parallel(*jobs)


def iteration(c):
    c.assumptions.append("the function called doesn't change the container, other than releasing the element it receives")
    jobs = map_jobs(c, ["IterationOK"], 1, ["hashtable", "hashdyn", "hashlin"], salt="-iter")
    jobs += lists.list_graph_jobs(c, 1)
    jobs += lists.list_traces(c, ["IterationOK", "ForwardOK"], c.pick(20, 60), c.pick(300, 800), c.pick(1, 3), "iter")
    jobs += trees.tree_graph_jobs(c, [(1, False), (1, True)], c.pick([(5, 2)], [(6, 2), (9, 1)]))
    jobs += trees.tree_traces(c, ["IterationOK"], c.pick((20, 300), (60, 800)), c.pick((8, 20, 20000), (8, 60, 200000)), c.pick(1, 3), "iter")
    c.parallel(*jobs)
    if c.thorough:
        giant.elements(c, ["EachOK", "ContentOK"], ["hashtable", "hashdyn", "hashlin", "tree", "list"], True)


def inner(c):
    maps.base_asm(c, "trie")
    jobs = maps.model_jobs(c, "trie", foreach=8, asan=False)
    jobs += maps.trace_jobs(c, "trie", ["NodesOK", "CountOK"], walks=c.pick((16, 500), (60, 1500)), asan=(0, 0), m32=c.pick((8, 400), (30, 1000)),
                            batches=(0, 0, 0), parts=c.pick(1, 4), salt="-inner")
    for i in range(c.pick(2, 6)):
        r = c.rng("inner", i)
        jobs.append(lambda r=r, i=i: c.validate("trie/fresh%d" % i, [c.build("h_map.c", opt="-O2", m32=i % 2 == 1), "fresh"],
                    maps.trie_batches(r, "trie", c.pick(12, 30), c.pick(50, 120), c.pick(5000, 100000)), "TraceMap", ["NodesOK", "CountOK"], timeout=600))
    c.parallel(*jobs)


CHECKS = {"C24": inner, "C26": space, "C13": heap, "C16": usage, "C20": iteration}
