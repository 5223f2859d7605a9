"""C01..C05: the multimap containers."""
from .core import *
from . import gen, giant

CORE = ["ResultOK", "ContentOK", "CountOK"]

# kind -> specification, its constants as a function of the scale, invariants of it, defines of the scaled build
SPEC = {
    "hashtable": ("HashTable", ["TypeOK", "PlacedOK", "IterationOK", "SizeOK"]),
    "hashdyn": ("HashDyn", ["TypeOK", "PlacedOK", "IterationOK", "SizeOK"]),
    "hashlin": ("HashLin", ["TypeOK", "PlacedOK", "IterationOK", "SizeOK", "WorkOK"]),
    "trie": ("Trie", ["OnlyOK", "CountOK", "PlacedOK", "ShapeOK", "UsageOK", "NodesOK"]),
    "trie_inplace": ("TrieInplace", ["OnlyOK", "CountOK", "PlacedOK", "ShapeOK"]),
}


class Model:
    """An instance of one of the implementation shaped specifications."""
    def __init__(self, kind, hashes, layers, fillers=(), consts=None, name=""):
        self.kind = kind
        self.hashes = hashes
        self.layers = layers
        self.fillers = sorted(fillers)
        self.consts = consts or {}
        self.name = name

    def graph(self, c, timeout=900):
        spec, inv = SPEC[self.kind]
        text = "---- MODULE MC ----\nEXTENDS %s\nHashOfDef == <<%s>>\nLayersOfDef == <<%s>>\nFillersDef == {%s}\n====\n" % (
            spec, ", ".join(map(str, self.hashes)), ", ".join(map(str, self.layers)), ", ".join(map(str, self.fillers)))
        cfg = """SPECIFICATION Spec
CONSTANTS
%s
  HashOf <- HashOfDef
  LayersOf <- LayersOfDef
  Fillers <- FillersDef
  Emit = TRUE
VIEW View
INVARIANTS %s
PROPERTY Refines
CONSTRAINT EmitS
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
""" % ("\n".join("  %s = %s" % kv for kv in self.consts.items()), " ".join(inv))
        return c.graph("MC", cfg, name="%s%s" % (spec, self.name), text=text, timeout=timeout, heap="8g")


def graph_text(kind, param, bases, obs, edges, parent):
    """Input of the graph mode of h_map."""
    o = ["%s %d %d %s" % (kind, param, len(bases), " ".join("%x" % b for b in bases)), str(len(obs))]
    for s, p in zip(obs, parent):
        q = []
        for k in s:
            q.append(len(k))
            q += k
        if p is None:
            o.append("-1 0 0 0 %d %s" % (len(q), " ".join(map(str, q))))
        else:
            o.append("%d %d %d %d %d %s" % (p[0], p[1][0], p[1][1], p[1][2], len(q), " ".join(map(str, q))))
    o.append(str(len(edges)))
    for a, op, b in edges:
        o.append("%d %d %d %d %d %d" % (a, op[0], op[1], op[2], op[3], b))
    return "\n".join(o) + "\n"


def realise(r, hashes, how, keep, bits=64):
    """Other values for the hashes, equal if and only if they are equal, keeping the low bits."""
    m = {}
    x = r.getrandbits(bits)
    for h in hashes:
        if h in m:
            continue
        if how == "plain":
            v = h
        elif how == "high":  # any bits over the ones that matter
            v = (h & ((1 << keep) - 1)) | (r.getrandbits(bits) >> keep << keep)
        elif how == "ones":
            v = (h & ((1 << keep) - 1)) | (((1 << bits) - 1) >> keep << keep)
            if h >> keep:
                v ^= (h >> keep) << (bits - 8)
        elif how == "xor":
            v = h ^ x
        elif how == "top":  # the same key in the upper part
            v = ((1 << bits) - 1) ^ h
        v &= (1 << bits) - 1
        while v in m.values():
            v = (v & ((1 << keep) - 1)) | (r.getrandbits(bits) >> keep << keep)
        m[h] = v
    return [m[h] for h in hashes]


def replay_model(c, model, builds, hows, keep, bits=64, foreach=1, param=None):
    """Model checks the model and takes all its transitions on the real code, with each build and realisation of the hashes."""
    obs, edges, parent = model.graph(c)
    jobs = []
    for bname, exe, asan in builds:
        if exe is None:
            c.cov.setdefault("skipped", []).append("replay of %s in the build %s: the constants can't be provided to this code" % (model.kind, bname))
            continue
        for how in hows if not asan else hows[:1]:
            r = c.rng("realise", model.kind, model.name, how)
            b = realise(r, model.hashes, how, keep, bits)
            text = graph_text(model.kind, model.consts.get("Size", 0) if param is None else param, b, obs, edges, parent)
            mid = edges[len(edges) // 2]
            sample = {"graph": model.kind + model.name, "transition": {"from": obs[mid[0]], "op": mid[1], "to": obs[mid[2]]}}
            jobs.append(lambda n="%s%s/%s/%s" % (model.kind, model.name, bname, how), e=exe, a=asan, t=text, s=sample:
                        c.replay_graph(n, [e, "graph", str(foreach)], t, len(edges), sample=s, asan=a, timeout=600))
    c.parallel(*jobs)


# ------------------------------------------------------------------- traces
def is_trie(kind):
    return kind.startswith("trie")


DUPS = [(1, 130), (2, 60), (3, 20), (4, 9)] # (keys, objects with the same key)


def hash_walks(r, kind, n, steps, big):
    """Scripts of random walks on the hash tables, around the thresholds of the sizes."""
    out = []
    for i in range(n):
        fam = gen.HASH_FAMILIES[(i + r.randrange(2)) % len(gen.HASH_FAMILIES)]
        nk, layers = r.choice([(n, l) for n in (6, 12, 24, 40) for l in (1, 2, 3, 5)] + DUPS)
        hs = gen.hash_family(r, fam, nk)
        pre = []
        total = 0
        if r.random() < big:  # start near a threshold of a bigger size
            t = 1 << r.randrange(5, 11)
            want = max(1, t - r.randrange(0, 30))
            while want > 0 and len(pre) < 4:
                s = min(want, r.randrange(1, want + 1)) if len(pre) < 3 else want
                mul = r.choice([1, 1, 3, 1 << 20, (1 << 20) + 1, 0x9E3779B97F4A7C15])
                pre.append((s, r.getrandbits(64), mul))
                want -= s
                total += s
        param = r.choice([1, 0, 5, 16, 17, 30, 64, 100, 1000])
        way = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 34, 40, 47, 48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257]
        if r.random() < 0.3:
            way = None
        out.append(gen.walk(r, kind, hs, layers, steps, param=param, waypoints=way, prefill=pre))
    return out


def hash_batches(r, kind, n, steps, top):
    """Scripts of operations on big blocks of keys."""
    out = []
    for i in range(n):
        blocks = []
        for _ in range(r.randrange(2, 6)):
            s = r.choice([1, 2, 7, r.randrange(1, 60), r.randrange(1, 600), r.randrange(1, top)])
            mul = r.choice([1, 1, 0x9E3779B97F4A7C15, 0x9E3779B1, 5, 1 + (1 << 33)])
            if s <= 60:
                mul = r.choice([mul, 0, 1 << 20, 1 << 31])
            blocks.append((s, r.getrandbits(64), mul))
        out.append(gen.batch(r, kind, blocks, r.choice([1, 2, 3]), steps, param=top if kind == "hashtable" and top > 20000 else r.choice([0, 16, 100, top])))
    return out


def trie_walks(r, kind, n, steps, bits=32):
    out = []
    for i in range(n):
        fam = gen.TRIE_FAMILIES[(i + r.randrange(2)) % len(gen.TRIE_FAMILIES)]
        nk, layers = r.choice([(n, l) for n in (5, 10, 20, 40) for l in (1, 1, 2, 3, 5)] + DUPS)
        keys = gen.trie_keys(r, fam, nk, bits)
        out.append(gen.walk(r, kind, keys, layers, steps, foreach=False))
    return out


def trie_batches(r, kind, n, steps, top, bits=32):
    out = []
    for i in range(n):
        nb = r.randrange(2, 6)
        blocks = []
        style = r.choice(["class", "region"])
        if style == "class":  # interleaved
            sh = r.randrange(0, max(1, bits - 24))
            base = r.choice([0, r.getrandbits(bits - 1) >> 1])
            for b in range(nb):
                s = r.choice([1, 7, r.randrange(1, 600), r.randrange(1, top)])
                blocks.append((s, (base + (b << sh)), nb << sh))
            lim = 1 << bits
            blocks = [(max(1, min(s, (lim - 1 - b) // m)), b, m) for s, b, m in blocks]
        else:
            w = 1 << (bits - 3)
            for b, g in enumerate(r.sample(range(8), nb)):
                s = r.choice([1, 7, r.randrange(1, 600), r.randrange(1, top)])
                m = r.choice([1, 3, max(1, w // (s + 1))])
                off = r.choice([0, w - 1 - (s - 1) * m])
                blocks.append((s, g * w + max(0, off), m))
        out.append(gen.batch(r, kind, blocks, r.choice([1, 2, 3]), steps, foreach=False))
    return out


# (defines, bits of the keys) of the documented configurations of the tries
TRIE_CONF = {
    "trie": [((), 32), (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_BIT=64"), 64), (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_TREE_MAX=4"), 32),
             (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_TREE_MAX=2", "-DTOMMY_TRIE_BIT=48"), 48), (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_TREE_MAX=32"), 32),
             (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_TREE_MAX=16", "-DTOMMY_TRIE_BIT=40"), 40)],
    "trie_inplace": [((), 32), (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_INPLACE_BIT=64"), 64), (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_INPLACE_TREE_MAX=2"), 32),
                     (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_INPLACE_TREE_MAX=8", "-DTOMMY_TRIE_INPLACE_BIT=48"), 48), (("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_INPLACE_TREE_MAX=16"), 32)],
}


def trace_jobs(c, kind, inv, walks=(24, 700), asan=(10, 400), m32=(10, 400), batches=(6, 40, 20000), parts=1, cov=False, salt="", conf=True):
    """Jobs validating traces of the real code with its real constants."""
    jobs = []

    def job(name, exe, scripts, **kw):
        return lambda: c.validate("%s%s/%s" % (kind, salt, name), [exe() if callable(exe) else exe], scripts, "TraceMap", inv, **kw)
    w = trie_walks if is_trie(kind) else (lambda r, k, n, s: hash_walks(r, k, n, s, 0.4))
    bt = trie_batches if is_trie(kind) else hash_batches
    for i in range(parts):
        if walks[0]:
            jobs.append(job("walks%d" % i, lambda: c.build("h_map.c", cov=cov), w(c.rng(kind, "walk", salt, i), kind, *walks)))
        if asan[0]:
            jobs.append(job("asan%d" % i, lambda: c.build("h_map.c", asan=True), w(c.rng(kind, "asan", salt, i), kind, *asan), asan=True))
        if m32[0]:
            jobs.append(job("m32-%d" % i, lambda: c.build("h_map.c", m32=True), w(c.rng(kind, "m32", salt, i), kind, *m32)))
        if batches[0]:
            jobs.append(job("batches%d" % i, lambda: c.build("h_map.c", cov=cov, opt="-O2"), bt(c.rng(kind, "batch", salt, i), kind, *batches)))
    if is_trie(kind) and conf:
        for n, (defs, bits) in enumerate(TRIE_CONF[kind][1:]):
            def cj(defs=defs, bits=bits, n=n):
                exe = c.build("h_map.c", defs=defs, optional=True)
                if exe is None:
                    c.cov.setdefault("skipped", []).append("configuration %s: it can't be provided to this code" % " ".join(defs))
                    return
                r = c.rng(kind, "conf", salt, n)
                scripts = trie_walks(r, kind, c.pick(6, 40), c.pick(250, 600), bits) + trie_batches(r, kind, 1, 20, 2000, bits)
                c.validate("%s%s/conf%d" % (kind, salt, n), [exe], scripts, "TraceMap", inv)
            jobs.append(cj)
    return jobs


def base_asm(c, kind):
    c.assumptions += [
        "objects are inserted in at most one container through a node, and removed only if contained (the documented preconditions)",
        "the specification is checked for all the histories over the keys and sizes of its instance; on the real code all its transitions, and the traces recorded, are checked",
    ]


def models(c, kind):
    """(model, defines of the build, low bits of the hash that matter, hows, bits)"""
    r = c.rng("model", kind)
    q = not c.thorough
    o = []
    if kind == "hashtable":
        o.append((Model(kind, [3, 3, 19, 35, 4], [2, 1, 2, 1, 1], (), {"Size": 5}, "/16"), (), 8, ["plain", "high", "ones"], 64))
        if not q:
            o.append((Model(kind, [3, 3, 19, 35, 4, 2 ** 30 + 3], [2, 1, 2, 1, 1, 1], (), {"Size": 5}, "/16b"), (), 8, ["plain", "high", "ones"], 64))
            o.append((Model(kind, [1, 33, 17, 1, 49, 2], [2, 1, 1, 2, 1, 1], (), {"Size": 20}, "/32"), (), 8, ["plain", "high", "ones"], 64))
    elif kind == "hashdyn":
        d = ("-DTOMMYDS_MODEL", "-DTOMMY_HASHDYN_BIT=2")
        o.append((Model(kind, [1, 1, 5, 17, 25, 2, 3, 7, 0, 12, 31], [2, 1, 1, 1, 1] + [1] * 6, range(6, 12), {"Bit": 2}, "/2"), d, 7, ["plain", "high", "ones"], 64))
        if not q:
            o.append((Model(kind, [1, 1, 5, 17, 9, 33, 2, 3, 7, 0, 12, 31, 19, 4], [2, 1, 1, 1, 1, 1] + [1] * 8, range(7, 15), {"Bit": 2}, "/2b"), d, 8, ["plain", "high", "ones"], 64))
            o.append((Model(kind, [0, 2, 0, 4, 12, 1, 3, 7, 6, 15], [2, 1, 2, 1, 1] + [1] * 5, range(6, 11), {"Bit": 1}, "/1"), ("-DTOMMYDS_MODEL", "-DTOMMY_HASHDYN_BIT=1"), 7, ["plain", "high", "ones"], 64))
    elif kind == "hashlin":
        d = ("-DTOMMYDS_MODEL", "-DTOMMY_HASHLIN_BIT=2")
        o.append((Model(kind, [1, 1, 5, 17, 2, 3, 7, 0, 12, 31], [2, 1, 1, 1] + [1] * 6, range(5, 11), {"Bit": 2}, "/2"), d, 7, ["plain", "high", "ones"], 64))
        if not q:
            o.append((Model(kind, [1, 1, 5, 17, 25, 2, 3, 7, 0, 12, 31, 6], [2, 1, 1, 1, 1] + [1] * 7, range(6, 13), {"Bit": 2}, "/2b"), d, 8, ["plain", "high", "ones"], 64))
            o.append((Model(kind, [0, 0, 8, 4, 12, 1, 3, 7, 6, 15, 9], [2, 1, 1, 1, 1] + [1] * 6, range(6, 12), {"Bit": 1}, "/1"), ("-DTOMMYDS_MODEL", "-DTOMMY_HASHLIN_BIT=1"), 8, ["plain", "high", "ones"], 64))
    elif kind == "trie":
        d = ("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_BIT=8", "-DTOMMY_TRIE_TREE_MAX=2")
        o.append((Model(kind, [0, 1, 2, 4, 8, 64, 255], [2, 1, 2, 1, 1, 1, 1], (), {"KeyBit": 8, "TreeBit": 1}, "/8.1"), d, 0, ["plain", "xor", "top"], 8))
        o.append((Model(kind, [0, 1, 8, 9, 2 ** 9, 2 ** 20, 2 ** 21], [2, 1, 2, 1, 1, 1, 1], (), {"KeyBit": 32, "TreeBit": 3}, "/32.3"), (), 0, ["plain", "xor", "top"], 32))
        if not q:
            for i in range(3):
                ks = gen.trie_keys(r, "deep", 8, 10)
                o.append((Model(kind, ks, [2, 2, 1, 1, 1, 1, 1, 1], (), {"KeyBit": 10, "TreeBit": 1 + i}, "/10.%d" % (1 + i)),
                          ("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_BIT=10", "-DTOMMY_TRIE_TREE_MAX=%d" % (2 << i)), 0, ["plain", "xor", "top"], 10))
    else:
        d = ("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_INPLACE_BIT=8", "-DTOMMY_TRIE_INPLACE_TREE_MAX=2")
        o.append((Model(kind, [0, 1, 2, 4, 5, 7], [2, 1, 2, 1, 1, 1], (), {"KeyBit": 8, "TreeBit": 1}, "/8.1"), d, 0, ["plain", "xor", "top"], 8))
        o.append((Model(kind, [0, 1, 2, 5, 21], [2, 1, 2, 1, 1], (), {"KeyBit": 32, "TreeBit": 2}, "/32.2"), (), 0, ["plain", "xor", "top"], 32))
        if not q:
            o.append((Model(kind, [0, 1, 2, 4, 5, 7, 6], [1, 1, 2, 1, 1, 1, 1], (), {"KeyBit": 8, "TreeBit": 1}, "/8.1b"), d, 0, ["plain", "xor", "top"], 8))
            for i in range(2):
                ks = gen.trie_keys(r, "deep", 6, 10)
                o.append((Model(kind, ks, [2, 2, 1, 1, 1, 1], (), {"KeyBit": 10, "TreeBit": 1 + i}, "/10.%d" % (1 + i)),
                          ("-DTOMMYDS_MODEL", "-DTOMMY_TRIE_INPLACE_BIT=10", "-DTOMMY_TRIE_INPLACE_TREE_MAX=%d" % (2 << i)), 0, ["plain", "xor", "top"], 10))
    return o


def model_jobs(c, kind, foreach=1, hows=None, asan=True, which=None, fast=True, small=False):
    jobs = []
    for model, defs, keep, hs, bits in models(c, kind)[:which]:
        if small and kind == "trie_inplace":
            model = Model(kind, [0, 1, 2, 4, 5], [2, 1, 2, 1, 1], (), model.consts, model.name + "s")
        def job(model=model, defs=defs, keep=keep, hs=hs, bits=bits):
            b = [("fast", c.build("h_map.c", defs=defs, optional=bool(defs)), False)] if fast else []
            if asan:
                b.append(("asan", c.build("h_map.c", defs=defs, asan=True, optional=bool(defs)), True))
            replay_model(c, model, b, hows or hs, keep, bits, foreach)
        jobs.append(job)
    return jobs


def huge_script(r, kind, n, bits=32):
    """Millions of elements, a few operations on all of them."""
    m = n // 16 + r.randrange(1000)
    if is_trie(kind):
        blocks = [(n, r.randrange(1000), r.choice([1, 3, 2 * r.randrange(1, (1 << bits) // n // 4) + 1])), (m, (1 << bits) - m - r.randrange(1000), 1)]
    else:
        blocks = [(n, r.getrandbits(64), r.choice([1, 0x9E3779B97F4A7C15])), (m, r.getrandbits(64), 1)]
    o = [gen.header(kind, 0, n if kind == "hashtable" else 16, blocks), "i 1 1", "o", "i 2 1", "i 2 2", "o"]
    if not is_trie(kind):
        o.append(r.choice("fa"))
    return o + ["r 2", "x 1 1", "o", "i 1 2", "r 1", "o", "r 2", "D"]


def multimap(kind):
    def check(c):
        base_asm(c, kind)
        if c.thorough:
            tj = trace_jobs(c, kind, CORE, walks=(60, 2000), asan=(30, 1500), m32=(30, 1500), batches=(10, 80, 200000), parts=6)
        else:
            tj = trace_jobs(c, kind, CORE, walks=(24, 1000), parts=2)
            tj += trace_jobs(c, kind, CORE, walks=(0, 0), asan=(0, 0), m32=(0, 0), batches=(4, 30, 400000), salt="/large", conf=False)
        h = [huge_script(c.rng("huge", i), kind, n) for i, n in enumerate(c.pick([2300000], [2300000, 9000000]))]
        tj.insert(0, lambda: c.validate(kind + "/huge", [c.build("h_map.c", opt="-O2")], h, "TraceMap", CORE, timeout=600))
        if kind == "hashtable":
            tj += giant.tables(c, ["CountOK", "ContentOK"])
        tj += giant.equals(c, ["CountOK", "ContentOK"], kind)
        c.parallel(*(model_jobs(c, kind, foreach=0) + tj))
        giant.elements(c, ["CountOK", "ContentOK"], [kind])
    return check


CHECKS = {
    "C01": multimap("hashtable"),
    "C02": multimap("hashdyn"),
    "C03": multimap("hashlin"),
    "C04": multimap("trie"),
    "C05": multimap("trie_inplace"),
}


# ------------------------------------------------------------------ C14, C15
SIZE_CFG = """SPECIFICATION Spec
CONSTANTS
  Kind = "%s"
  Bit = %d
  Limit = %d
VIEW View
INVARIANTS SizeOK ShapeOK UsedOK WorkOK
CHECK_DEADLOCK FALSE
"""


def zigzag(r, kind, top, steps, muls=(1, 0x9E3779B97F4A7C15, 0x9E3779B1 | 1, 5)):
    """Blocks of any size, different keys well spread, going up and down to reach sizes between 1 and top in any phase."""
    blocks = []
    base = r.getrandbits(60)
    mul = r.choice(muls)
    sizes = []
    t = top
    while t > 1:
        sizes += [t, max(1, t // 3), r.randrange(1, t + 1)]
        t //= 4
    sizes += [1, 1, 2, 3, 5]
    for s in sizes:
        blocks.append((s, base & gen.M64, mul))
        base += s * mul
    out = [gen.header(kind, 0, r.choice([1, 16, 17, 1000]), blocks)]
    inn = set()
    for _ in range(steps):
        b = r.randrange(len(blocks))
        x = r.random()
        if b in inn:
            inn.discard(b)
            out.append("r %d" % (b + 1) if x < 0.5 else "x %d 1" % (b + 1))
        else:
            inn.add(b)
            out.append("i %d 1" % (b + 1))
    for b in sorted(inn, key=lambda b: r.random()):
        out.append("r %d" % (b + 1))
    out.append("D")
    return out


def boundary(r, kind, base, span, rounds):
    """Single elements around a number of elements reached with a block, going back and forth."""
    h = r.getrandbits(64)
    mul = r.choice([1, 0x9E3779B97F4A7C15])
    blocks = [(base, h, mul)] + [(s, (h + mul * (base + 1000 * i)) & gen.M64, mul) for i, s in enumerate([1, 2, 3, 5, 8, 13, 21, 34, 55, span], 1)]
    out = [gen.header(kind, 0, 16, blocks), "i 1 1"]
    inn = set()
    for _ in range(rounds):
        b = r.randrange(2, len(blocks) + 1)
        out.append(("x %d 1" if r.random() < 0.5 else "r %d") % b if b in inn else "i %d 1" % b)
        inn ^= {b}
    out += ["r 1", "D"]
    return out


def size_scripts(r, kind, n, top, steps, rounds):
    o = [zigzag(r, kind, r.choice([top, top // 8, 1000, 100]), steps) for _ in range(n)]
    for t in [8, 16, 32, 64, 128, 256, 512, 1024, 4096, 8192]:
        for d in (0, -r.randrange(1, 60)):
            if t + d > 0:
                o.append(boundary(r, kind, t + d, r.randrange(20, 90), rounds))
    return o


AGREE_CFG = "SPECIFICATION ASpec\nCONSTANTS\n  Kind = \"%s\"\n  First = %d\n  Limit = %d\nVIEW AView\nINVARIANTS AgreeOK SizeOK\nCHECK_DEADLOCK FALSE\n"


def proofs(c, kinds):
    """The sizes, for any number of elements."""
    jobs = []
    for kind, cinit, first in (("hashlin", "LinC", 64), ("hashdyn", "DynC", 16)):
        if kind in kinds:
            jobs.append(lambda cinit=cinit: c.inductive("SizeProof", cinit))
            jobs.append(lambda kind=kind, first=first: c.model("SizeAgree", AGREE_CFG % (kind, first, c.pick(1000, 5000)), name="SizeAgree/" + kind))
    return jobs


def sizing(c):
    base_asm(c, "hashdyn")
    jobs = []
    for kind, bit in (("hashdyn", 4), ("hashlin", 6)):
        jobs.append(lambda kind=kind, bit=bit: c.model("HashSize", SIZE_CFG % (kind, bit, c.pick(1000, 5000)), name="HashSize/" + kind))
    jobs += proofs(c, ["hashlin", "hashdyn"])
    for kind in ("hashtable", "hashdyn", "hashlin"):
        inv = ["SizeOK", "CountOK", "SpreadOK"]
        n = c.pick(6, 30)
        jobs += model_jobs(c, kind, foreach=0, hows=["plain"], asan=False, which=1)
        jobs.append(lambda kind=kind: c.validate(kind + "/sizes", [c.build("h_map.c", opt="-O2")],
                    size_scripts(c.rng("size", kind), kind, n, c.pick(1 << 16, 1 << 20), c.pick(60, 200), c.pick(40, 200)), "TraceMap", inv, timeout=600))
        jobs.append(lambda kind=kind: c.validate(kind + "/huge", [c.build("h_map.c", opt="-O2")],
                    [huge_script(c.rng("huge", kind), kind, c.pick(2300000, 17000000))], "TraceMap", inv, timeout=600))
        jobs.append(lambda kind=kind: c.validate(kind + "/sizes32", [c.build("h_map.c", opt="-O2", m32=True)],
                    size_scripts(c.rng("size32", kind), kind, n // 2, 1 << 14, c.pick(40, 100), c.pick(30, 100)), "TraceMap", inv, timeout=600))
        jobs.append(lambda kind=kind: c.validate(kind + "/walks", [c.build("h_map.c")],
                    hash_walks(c.rng("sizewalk", kind), kind, c.pick(12, 100), c.pick(500, 1500), 0.5), "TraceMap", inv))
        # every requested size of the fixed table
    r = c.rng("requests")
    req = list(range(0, 70)) + [x + d for x in (127, 128, 255, 256, 1000, 1024, 4096, 65536, 1 << 20) for d in (-1, 0, 1)] + [r.randrange(1, 1 << 21) for _ in range(20)]
    jobs.append(lambda: c.validate("hashtable/requests", [c.build("h_map.c")],
                [[gen.header("hashtable", 0, p, [(min(p * 2 + 3, 3000), r.getrandbits(64), 1)]), "i 1 1", "o", "r 1", "D"] for p in req], "TraceMap", ["SizeOK", "CountOK", "SpreadOK"]))
    for bit in (2, 3):
        for kind, d in (("hashdyn", "-DTOMMY_HASHDYN_BIT=%d"), ("hashlin", "-DTOMMY_HASHLIN_BIT=%d")):
            def sj(bit=bit, kind=kind, d=d):
                exe = c.build("h_map.c", defs=("-DTOMMYDS_MODEL", d % bit), optional=True)
                if exe:
                    c.validate("%s/scaled%d" % (kind, bit), [exe], hash_walks(c.rng("scaled", kind, bit), kind, c.pick(6, 30), c.pick(300, 1000), 0.1), "TraceMap", ["SizeOK", "CountOK", "SpreadOK"])
            jobs.append(sj)
    inv = ["SizeOK", "CountOK", "SpreadOK"]
    c.parallel(*(jobs + giant.tables(c, inv)))
    if c.thorough:
        giant.elements(c, inv, ["hashtable", "hashdyn", "hashlin"])


def work(c):
    base_asm(c, "hashlin")
    c.assumptions.append("work is measured in basic blocks executed inside the library (-fsanitize-coverage=trace-pc), the heap excluded; keys are well spread")
    jobs = [lambda: c.model("HashSize", SIZE_CFG % ("hashlin", 6, c.pick(1000, 5000)), name="HashSize/hashlin"),
            lambda: c.model("HashSize", SIZE_CFG % ("hashlin", 2, 400), name="HashSize/hashlin2")] + proofs(c, ["hashlin"])
    jobs += model_jobs(c, "hashlin", foreach=0, hows=["plain"], asan=False, which=1)
    inv = ["WorkOK", "CountOK"]
    for i in range(c.pick(2, 8)):
        r = c.rng("work", i)
        jobs.append(lambda r=r, i=i: c.validate("hashlin/work%d" % i, [c.build("h_map.c", cov=True, opt="-O2")],
                    size_scripts(r, "hashlin", c.pick(8, 20), c.pick(1 << 17, 1 << 20), c.pick(60, 200), c.pick(40, 200)), "TraceMap", inv, timeout=800))
    c.parallel(*jobs)


CHECKS["C14"] = sizing
CHECKS["C15"] = work
