"""C22: work done by all the operations."""
from .core import *
from . import maps

INV = ["SingleOK", "TreeOK", "LinearOK", "SortOK", "CreditOK"]
CFG = """SPECIFICATION ASpec
CONSTANTS
  Kind = "%s"
  Bit = %d
  Limit = %d
  Rate = %d
  Burst = 8
  Place = %d
  %s
VIEW AView
INVARIANTS CreditOK SizeOK ShapeOK
CHECK_DEADLOCK FALSE
"""


def thrash_job(c):
    """The specification tells a policy with no distance between the thresholds from the right one."""
    r = c.tlc("Amortized", CFG % ("hashdyn", 4, 100, 16, 0, "DynShrink <- ThrashShrink"))
    if r.code != 12 or "CreditOK" not in r.text:
        raise CheckError("Amortized doesn't reject thresholds without hysteresis (exit %s)\n%s" % (r.code, r.text[-2000:]))
    c.log("model Amortized: rejects thresholds without hysteresis")


def around(r, n):
    """A size near n, or near a power of two under it."""
    p = 1 << r.randrange(4, n.bit_length())
    return max(2, r.choice([n, r.randrange(n // 2, n), r.randrange(2, n), p, p + 1, p - 1, p // 2 + 1, p - p // 4]))


def moves(r, n, removes, style=None):
    """Any mixture of growing, shrinking, and of staying near a threshold."""
    o = []
    for _ in range(r.randrange(3, 9)):
        m = around(r, n)
        x = r.random()
        if x < 0.35 or not removes:
            o.append("i %d %d" % (m, r.randrange(3)))
        elif x < 0.6:
            o.append("r %d %d" % (m, r.choice(removes)))
        elif x < 0.8:
            o.append("z %d %d" % (min(2 * n, 2 * m), r.choice(removes)))
        else:
            o.append("y %d %d %d" % (min(n, m), r.choice(removes), r.choice([1, 2, 3, 7, 64, 1000, around(r, n)])))
    return o


def script(r, kind, n, mode=0):
    o = []
    seek = ["s 2000"]
    see = ["u 10"]
    any3 = [0, 1, 2]
    if kind == "list":
        o = ["T list 0 0", "i %d %d" % (n, r.randrange(3)), "u 10", "c 2000", "f", "C"]
        o += ["S %d" % h for h in r.sample(range(8), 4)]
        o += moves(r, n, any3) + ["u 5", "c 100", "f"] + ["S %d" % r.randrange(8) for _ in range(2)] + ["r %d 2" % n, "C"]
    elif kind == "tree":
        # the removes of the driver can give an order to the elements: everything is still logarithmic
        o = ["T tree %d 0" % mode, "i %d 0" % n] + seek + see + ["f"] + moves(r, n // 2, [0, 1, 2, 3, 4]) + seek + see + ["f", "r %d %d" % (n // 2, r.randrange(5))] + seek
    elif kind == "hashtable":
        size = r.choice([0, 16, n]) if mode != 0 else r.choice([n, 2 * n])
        fit = 2 * size >= 4 * n or mode in (1,)
        o = ["T hashtable %d %d" % (mode, size), "i %d 0" % n] + see + (seek if size >= n or mode in (1, 5) else []) + ["f"] + moves(r, n // 2, any3) + ["f"] + ["r %d 2" % n] + (["r 100 3"] if size >= n else []) + see
    elif kind in ("hashdyn", "hashlin"):
        bykey = [0, 1, 2, 3, 4] if mode not in (4, 7) else any3
        o = ["T %s %d 0" % (kind, mode), "i %d 0" % n] + (seek if mode in (0, 1, 2, 3, 5, 6) else []) + see
        for _ in range(2):
            o += moves(r, n, bykey) + (seek if mode in (0, 1, 2, 3, 5, 6) else []) + see + ["f"]
        o += ["r %d %d" % (n, r.choice(bykey)), "f"]
    elif kind in ("trie", "trieinp"):
        bykey = [0, 1, 2, 3, 4]
        o = ["T %s %d 0" % (kind, mode), "i %d 0" % n] + seek + see + moves(r, n, bykey) + seek + see + ["r %d %d" % (n, r.choice(bykey))] + seek + see
    elif kind in ("array", "arrayof", "arrayblk", "arrayblkof"):
        size = r.choice([1, 3, 4, 8, 12, 24, 64, 100]) if kind.endswith("of") else 0
        o = ["T %s 0 %d" % (kind, size)]
        for _ in range(4):
            o += r.choice([["i %d 0" % around(r, n)], ["g %d 1" % around(r, n // 2)], ["g %d %d" % (r.randrange(1, 100), r.randrange(1, max(2, n // 100)))], ["g 1 %d" % around(r, n)], ["g 1000 0"]])
            o += ["i 1 0", "x 1000", "u 10"]
        if size <= 8:
            o += ["G %d" % ((1 << 23) - r.randrange(5000)), "i 1 0", "x 1000", "u 10", "i 10000 0"]
    elif kind == "alloc":
        al = r.choice([1, 2, 4, 8, 16, 64])
        size = r.choice([1, 8, 16, 24, 64, 200, 1000, 4000, 5000])
        m = n if size < 1000 else n // 20
        o = ["T alloc 0 %d" % (size << 16 | al), "i %d 0" % m] + see + moves(r, m, any3) + see + ["r %d 2" % m, "i %d 0" % m]
    return o + ["D"]


MODES = {"tree": [0, 2, 3, 4], "hashtable": [0, 1, 2, 5, 6], "hashdyn": [0, 1, 2, 3, 4, 5, 6, 7], "hashlin": [0, 1, 2, 3, 4, 5, 6, 7],
         "trie": [0, 1, 2, 3, 4, 5, 6, 7], "trieinp": [0, 1, 2, 3, 4, 5, 6, 7]}
KINDS = ["list", "tree", "hashtable", "hashdyn", "hashlin", "trie", "trieinp", "array", "arrayof", "arrayblk", "arrayblkof", "alloc"]


def cost(c):
    c.assumptions.append("work is measured in basic blocks executed inside the library (-fsanitize-coverage=trace-pc), its inline functions included, plus the memory cleared or copied; the heap and the user functions are excluded")
    c.assumptions.append("constants are several times the measured ones: only work growing with the number of elements is told apart")
    jobs = [lambda: c.model("Amortized", CFG % ("hashdyn", 4, c.pick(200, 400), 16, 0, ""), name="Amortized/hashdyn"),
            lambda: thrash_job(c)]
    jobs += maps.proofs(c, ["hashdyn"])
    for p in c.pick([5], [0, 5, 63]):
        jobs.append(lambda p=p: c.model("Amortized", CFG % ("hashlin", c.pick(3, 4), c.pick(80, 150), 12, p, ""), name="Amortized/hashlin", timeout=900))
    n = c.pick(100000, 700000)
    for kind in KINDS:
        for b, kw in (("O1", {}), ("O2", {"opt": "-O2"}), ("m32", {"m32": True})):
            for i in range(c.pick(1, 3)):
                r = c.rng("cost", kind, b, i)
                s = []
                for mode in MODES.get(kind, [0, 0, 0, 0]):
                    s.append(script(r, kind, r.choice([n, n, n // 2, n + n // 3]), mode))
                jobs.append(lambda kind=kind, b=b, kw=kw, s=s: c.validate("%s/%s" % (kind, b), [c.build("h_work.c", cov=True, lib="libwork.c", **kw)], s, "TraceCost", INV, timeout=400))
    c.parallel(*jobs)


CHECKS = {"C22": cost}
