"""C08, C09: the tree."""
from .core import *
from . import giant
from .lists import flat_graph


def tree_graph(c, maxkey, copies):
    cfg = """SPECIFICATION Spec
CONSTANTS
  MaxKey = %d
  Copies = %d
  Emit = TRUE
VIEW View
INVARIANTS OrderOK BalanceOK CostOK
PROPERTY Refines
CONSTRAINT EmitS
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
""" % (maxkey, copies)
    return c.graph("Tree", cfg, name="Tree(%d keys, %d copies)" % (maxkey, copies), heap="8g", timeout=900)


def tree_graph_jobs(c, modes, sizes):
    """modes: list of (mode of the driver, ASan)."""
    def job(maxkey, copies):
        obs, edges, parent = tree_graph(c, maxkey, copies)
        m = edges[len(edges) // 3]
        s = {"graph": "Tree", "transition": {"from": obs[m[0]], "op": m[1], "to": obs[m[2]]}}
        jobs = []
        for mode, asan in modes:
            r = c.rng("treebase", maxkey, mode, asan)
            base = sorted(r.sample(r.choice([range(-2 ** 31, 2 ** 31 - 1), range(-5, 40), range(0, maxkey)]), maxkey))
            text = flat_graph("%d %s" % (maxkey, " ".join(map(str, base))), obs, edges, parent)
            jobs.append(lambda mode=mode, asan=asan, text=text: c.replay_graph("tree/%d.%d/mode%d%s" % (maxkey, copies, mode, "/asan" if asan else ""),
                        [c.build("h_tree.c", asan=asan), "graph", str(mode)], text, len(edges), sample=s, asan=asan, timeout=800))
        c.parallel(*jobs)
    return [lambda a=a: job(*a) for a in sizes]


def header(obs, shape, group, blocks):
    return "T %d %d %d %d %s" % (obs, shape, group, len(blocks), " ".join("%d %d %d" % b for b in blocks))


def single_walk(r, steps, cap=40, end=True, copies=3, loop=False):
    """Operations on single keys."""
    n = r.choice([4, 8, 12, 20, 33, cap])
    kind = r.choice(["dense", "rand", "wide"])
    if kind == "dense":
        b = r.randrange(-20, 20)
        keys = [b + i for i in range(n)]
    elif kind == "rand":
        keys = sorted(r.sample(range(-10 ** 9, 10 ** 9), n))
    else:
        keys = sorted(r.sample(range(-2 ** 31, 2 ** 31 - 1), n - 2) + [-2 ** 31, 2 ** 31 - 1])
    keys = sorted(set(keys))
    n = len(keys)
    order = list(range(1, n + 1))
    style = r.choice(["rand", "shuffled", "shuffled", "sorted"])
    if style != "sorted":
        r.shuffle(order)
    keys = [keys[i - 1] for i in order]
    # groups compatible with the order: contiguous keys divided by the size (truncated division isn't monotone only around zero, it's non decreasing)
    out = [header(1, 1, r.choice([1, 2, 3, 5, 100, 10 ** 8]), [(1, k, 0) for k in keys])]
    m = [0] * (n + 1)
    goal = r.randrange(n + 1)
    seq = None
    for _ in range(steps):
        cnt = sum(1 for x in m if x)
        if cnt == goal or r.random() < 0.01:
            goal = r.choice([0, n, r.randrange(n + 1), r.randrange(n + 1)])
            seq = r.choice([None, "asc", "desc", "root"])
        x = r.random()
        k = r.randrange(1, n + 1)
        if seq in ("asc", "desc"):
            want = [i for i in range(1, n + 1) if bool(m[i]) != (cnt < goal)]
            if want and r.random() < 0.9:
                k = (min if seq == "asc" else max)(want, key=lambda i: keys[i - 1])
        if x < 0.04:
            out.append("s %d" % k)
        elif x < 0.08:
            out.append("c %d" % k)
        elif x < 0.10:
            out.append(r.choice("fa"))
        elif cnt < goal or (cnt == goal and r.random() < 0.5):
            c = r.randrange(1, copies + 1)
            if m[k] == c:
                c = c % copies + 1
            out.append("i %d %d 0" % (k, c))
            m[k] = m[k] or c
        elif m[k] and r.random() < 0.5:
            out.append("x %d %d 0" % (k, m[k]))
            m[k] = 0
        else:
            out.append("r %d 0" % k)
            m[k] = 0
    if end:
        out.append(r.choice("FA"))
    return out


def coprime(r, n):
    import math
    while True:
        x = r.randrange(2, 2 ** 31 - 1)
        if math.gcd(x, n) == 1:
            return x


def block_walk(r, steps, top, shape, nb=None):
    """Operations on blocks of keys, in ascending, descending or scattered order."""
    nb = nb or r.randrange(2, 6)
    blocks = []
    sizes = [max(1, r.choice([r.randrange(1, 8), r.randrange(1, top + 1), top, (1 << r.randrange(1, max(2, top.bit_length() - 1))) - r.randrange(2)])) for _ in range(nb)]
    inter = r.random() < 0.5
    base = r.randrange(-1000, 1000)
    for i, s in enumerate(sizes):
        if inter:
            blocks.append((s, base + i, nb))
        else:
            blocks.append((s, base, 1))
            base += s + r.randrange(1, 5)
    out = [header(1 if sum(sizes) < 400 else 0, shape, 1000, blocks)]
    m = [0] * nb
    for step in range(steps):
        b = r.randrange(nb)
        s = sizes[b]
        o = r.choice([0, 1, coprime(r, s) if s > 2 else 0, coprime(r, s) if s > 2 else 1])
        if not m[b]:
            m[b] = r.randrange(1, 4)
            out.append("i %d %d %d" % (b + 1, m[b], o))
        else:
            x = r.random()
            if x < 0.2:
                out.append("i %d %d %d" % (b + 1, m[b] % 3 + 1, o))
            elif x < 0.6:
                out.append("x %d %d %d" % (b + 1, m[b], o))
                m[b] = 0
            elif x < 0.95:
                out.append("r %d %d" % (b + 1, o))
                m[b] = 0
            else:
                out.append("s %d" % (b + 1))
        x = r.random()
        if x < 0.2:
            out.append("o")
        elif x < 0.5:
            out.append("b")
        if r.random() < 0.1:
            out.append(r.choice("fa"))
        if shape:
            out.append("p")
    out += ["o", r.choice("FA")]
    return out


def tree_traces(c, inv, walks, batches, parts=1, salt="", cost=False):
    """walks, batches: (n, steps) and (n, steps, top)"""
    jobs = []
    for i in range(parts):
        for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True})):
            r = c.rng("tree", b, i, salt)
            n = walks[0] if b == "fast" else max(1, walks[0] // 2)
            s = [single_walk(r, walks[1]) for _ in range(n)]
            jobs.append(lambda b=b, kw=kw, i=i, s=s: c.validate("tree%s/%s%d" % (salt, b, i), [c.build("h_tree.c", **kw)], s, "TraceTree", inv, asan=b == "asan", timeout=500))
        for b, kw in (("fast", {"opt": "-O2"}), ("asan", {"asan": True})):
            r = c.rng("treeb", b, i, salt)
            top = batches[2] if b == "fast" else batches[2] // 10
            s = [block_walk(r, batches[1], r.choice([top, top // 10, 300]), 0) for _ in range(batches[0])]
            jobs.append(lambda b=b, kw=kw, i=i, s=s: c.validate("tree%s/blocks-%s%d" % (salt, b, i), [c.build("h_tree.c", **kw)], s, "TraceTree", inv, asan=b == "asan", timeout=500))
    return jobs


SET_INV = ["ResultOK", "ContentOK", "CountOK", "OrderOK", "CompareOK"]
BAL_INV = ["BalanceOK", "DifferenceOK", "CostOK"]


def asm(c):
    c.assumptions.append("the comparison is a total order for the elements and is the same for the whole life of the tree; a custom comparison of a search is compatible with it (the documented preconditions)")


def check_set(c):
    asm(c)
    jobs = tree_graph_jobs(c, [(0, False), (0, True)], c.pick([(5, 2)], [(6, 2), (5, 3), (8, 1)]))
    jobs += tree_traces(c, SET_INV, c.pick((40, 400), (120, 1500)), c.pick((8, 30, 20000), (12, 80, 300000)), c.pick(1, 5))
    c.parallel(*jobs)
    if c.thorough:
        giant.elements(c, ["CountOK", "ContentOK", "EachOK"], ["tree"], True)


def check_balance(c):
    asm(c)
    c.assumptions.append("the shape of the tree is the one seen by searches: the number of comparisons to find each element is its depth")
    jobs = tree_graph_jobs(c, [(2, False), (2, True)], c.pick([(7, 1)], [(9, 1), (6, 2)]))
    jobs += tree_traces(c, BAL_INV, c.pick((40, 400), (120, 1500)), c.pick((8, 30, 100000), (12, 80, 1000000)), c.pick(1, 5))

    def shapes(i):
        r = c.rng("shapes", i)
        s = [block_walk(r, c.pick(30, 60), r.choice([20, 60, 200, 600]), 1) for _ in range(c.pick(12, 40))]
        c.validate("tree/shapes%d" % i, [c.build("h_tree.c")], s, "TraceTree", BAL_INV + ["CountOK"], timeout=500)

    def huge():
        r = c.rng("huge")
        s = []
        for n in c.pick([2400000, 400000], [2400000, 9000000]):
            m = n // 8 + r.randrange(1000)
            o = [r.choice([0, 1]), coprime(r, m)]
            s.append([header(0, 0, 1000, [(n, -n // 2, 2), (m, -n // 2 + 1 + 2 * r.randrange(n // 2), 2)]),
                      "i 1 1 %d" % o[0], "b", "i 2 1 %d" % o[1], "b", "x 2 1 %d" % r.choice([0, 1]), "b", "i 2 2 0", "r 1 %d" % r.choice([0, 1]), "b", "F"])
        c.validate("tree/huge", [c.build("h_tree.c", opt="-O2")], s, "TraceTree", BAL_INV + ["CountOK"], timeout=600)
    jobs.append(huge)
    # the balance, for trees of any height
    jobs.append(lambda: c.inductive("BalanceProof", "None", safe=None))
    jobs.append(lambda: c.model("BalanceAgree", "SPECIFICATION Spec\nCONSTANT MaxHeight = %d\nINVARIANT ContractOK\nCHECK_DEADLOCK FALSE\n" % c.pick(3, 4)))
    jobs += [lambda i=i: shapes(i) for i in range(c.pick(1, 4))]
    c.parallel(*jobs)


CHECKS = {"C08": check_set, "C09": check_balance}
