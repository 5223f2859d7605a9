"""Generators of scripts for the drivers. A script is the list of the lines of one trace."""
M64 = (1 << 64) - 1


def bitrev(x, n):
    r = 0
    for i in range(n):
        r = r << 1 | (x >> i & 1)
    return r


# ---------------------------------------------------------------- hash values
def hash_family(r, name, n):
    """n hash values, not necessarily different."""
    if name == "seq":
        b = r.choice([0, 0, r.getrandbits(64), M64 - n // 2])
        return [(b + i) & M64 for i in range(n)]
    if name == "rand":
        return [r.getrandbits(64) for _ in range(n)]
    if name == "rand32":
        return [r.getrandbits(32) for _ in range(n)]
    if name == "chain":  # all in the same bucket, at any size
        s = r.choice([20, 31, 32, 40, 50])
        lo = r.getrandbits(s)
        return [(lo + (i << s)) & M64 for i in range(n)]
    if name == "two":  # two chains, separated by a single bit
        s = r.randrange(0, 12)
        lo = r.getrandbits(64) & ~(1 << s)
        return [((lo & ((1 << 20) - 1)) | (i << 20) | (r.getrandbits(1) << s)) & M64 for i in range(n)]
    if name == "same":  # few different hash values
        v = [r.getrandbits(64) for _ in range(max(1, n // 6))]
        return [r.choice(v) for _ in range(n)]
    if name == "rev":
        return [bitrev(i, 10) | (r.getrandbits(20) << 44) for i in range(n)]
    if name == "bits":  # single bits and extremes
        v = [0, M64, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 1 << 31] + [1 << i for i in range(64)] + [M64 ^ (1 << i) for i in range(64)]
        return [v[i % len(v)] for i in range(n)]
    if name == "mix":
        o = []
        while len(o) < n:
            f = r.choice(["seq", "rand", "chain", "two", "same", "rev", "bits"])
            o += hash_family(r, f, r.randrange(1, 1 + max(1, n // 3)))
        o = o[:n]
        r.shuffle(o)
        return o
    raise ValueError(name)


HASH_FAMILIES = ["seq", "rand", "rand32", "chain", "two", "same", "rev", "bits", "mix", "mix"]


def trie_keys(r, name, n, bits=32):
    """n different keys of the given number of bits."""
    top = 1 << bits
    s = []
    seen = set()

    def add(k):
        k %= top
        if k not in seen and len(s) < n:
            seen.add(k)
            s.append(k)
    tries = 0
    while len(s) < n and tries < 100 * n:
        tries += 1
        if name == "dense":
            if not s:
                b = r.choice([0, top - n, r.getrandbits(bits), (1 << (bits - 1)) - n // 2])
            add(b + len(s))
        elif name == "stride":
            if not s:
                sh = r.randrange(0, bits - 6)
                b = r.choice([0, r.getrandbits(bits)])
            add(b + (tries - 1) * (1 << sh))
        elif name == "rand":
            add(r.getrandbits(bits))
        elif name == "deep":  # prefixes in common of any length
            if not s or r.random() < 0.15:
                add(r.getrandbits(bits))
            else:
                k = r.choice(s)
                add(k ^ (1 << r.randrange(bits)))
                add(k ^ r.getrandbits(r.randrange(1, bits)))
        elif name == "low":  # only the last bits are different
            if not s:
                b = r.getrandbits(bits) & ~255
            add(b | r.getrandbits(8))
            if tries > 300:
                add(b ^ r.getrandbits(bits))
        elif name == "ends":
            add(r.choice([tries, top - tries, (1 << (bits - 1)) + tries, 1 << r.randrange(bits), top - 1 - (1 << r.randrange(bits)), r.getrandbits(bits)]))
        else:
            raise ValueError(name)
    while len(s) < n:
        add(r.getrandbits(bits))
    return s


TRIE_FAMILIES = ["dense", "stride", "rand", "deep", "deep", "low", "ends"]


class MapModel:
    """What the driver believes is in the container, to choose only meaningful operations."""
    def __init__(self, nblk, layers):
        self.mm = [[] for _ in range(nblk + 1)]
        self.layers = layers
        self.objs = [None]  # present objects, for uniform choice
        self.n = 0

    def absent(self, k):
        return [l for l in range(1, self.layers + 1) if l not in self.mm[k]]

    def ins(self, k, l):
        self.mm[k].append(l)
        self.n += 1
        return "i %d %d" % (k, l)

    def rem(self, k):
        if self.mm[k]:
            self.mm[k].pop(0)
            self.n -= 1
        return "r %d" % k

    def rmx(self, k, l, how="x"):
        self.mm[k].remove(l)
        self.n -= 1
        return "%s %d %d" % (how, k, l)


def header(kind, obs, param, blocks):
    return "T %s %d %d %d %s" % (kind, obs, param, len(blocks), " ".join("%d %x %x" % b for b in blocks))


def walk(r, kind, hashes, layers, steps, param=16, waypoints=None, foreach=True, prefill=None, end=None, obs=1):
    """Random walk of single operations on single keys, following waypoints of the number of objects.
    prefill: list of (size, base, mul) of blocks inserted at the start as a whole."""
    prefill = prefill or []
    blocks = [(1, h, 0) for h in hashes] + prefill
    n1 = len(hashes)
    ident = not kind.startswith("trie")
    m = MapModel(len(blocks), layers)
    out = [header(kind, obs, param, blocks)]
    for i in range(len(prefill)):
        out.append(m.ins(n1 + 1 + i, 1))
    m.n = 0
    cap = n1 * layers
    goal = None
    style = None
    for step in range(steps):
        if goal is None or m.n == goal or r.random() < 0.003:
            goal = r.choice(waypoints) if waypoints else r.randrange(0, cap + 1)
            goal = min(goal, cap)
            style = r.choice(["key", "obj", "mix", "mix", "newest", "oldest"])
        x = r.random()
        if x < 0.02:
            out.append("s %d" % r.randrange(1, n1 + 1))
            continue
        if ident and x > 0.96:  # search of an object, contained or not, or remove of one not contained
            k = r.randrange(1, n1 + 1)
            l = r.choice(m.mm[k]) if m.mm[k] and r.random() < 0.8 else r.randrange(1, layers + 1)
            out.append("%s %d %d" % ("R" if l not in m.mm[k] and r.random() < 0.5 else "S", k, l))
            continue
        if x < 0.04 and foreach:
            out.append(r.choice("fa"))
            continue
        up = m.n < goal if r.random() < 0.85 else r.random() < 0.5
        if m.n == 0:
            up = True
        if m.n == cap:
            up = False
        if up:
            for _ in range(50):
                k = r.randrange(1, n1 + 1)
                a = m.absent(k)
                if a:
                    out.append(m.ins(k, r.choice(a)))
                    break
        else:
            for _ in range(200):
                k = r.randrange(1, n1 + 1)
                if m.mm[k]:
                    s = style if style != "mix" else r.choice(["key", "obj", "newest", "oldest"])
                    how = "R" if ident and r.random() < 0.3 else "x"
                    if s == "key":
                        out.append(m.rem(k))
                    elif s == "obj":
                        out.append(m.rmx(k, r.choice(m.mm[k]), how))
                    elif s == "newest":
                        out.append(m.rmx(k, m.mm[k][-1], how))
                    else:
                        out.append(m.rmx(k, m.mm[k][0], how))
                    break
                elif r.random() < 0.05:
                    out.append(m.rem(k))  # a miss
                    break
    out.append(end or (r.choice("DFA") if foreach else "D"))
    return out


def batch(r, kind, blocks, layers, steps, param=16, foreach=True, obs_every=4, extra_ops=0, end=None):
    """Operations on whole blocks."""
    ident = not kind.startswith("trie")
    m = MapModel(len(blocks), layers)
    out = [header(kind, 0, param, blocks)]
    n = len(blocks)
    for step in range(steps):
        k = r.randrange(1, n + 1)
        x = r.random()
        a = m.absent(k)
        if x < 0.5 and a:
            out.append(m.ins(k, r.choice(a)))
        elif x < 0.75:
            out.append(m.rem(k))
        elif x < 0.95 and m.mm[k]:
            out.append(m.rmx(k, r.choice(m.mm[k]), r.choice("xR") if ident else "x"))
        elif x < 0.97:
            out.append("S %d %d" % (k, r.randrange(1, layers + 1)) if ident and r.random() < 0.5 else "s %d" % k)
        elif foreach:
            out.append(r.choice("fa"))
        if step % obs_every == obs_every - 1:
            out.append("o")
    out.append("o")
    out.append(end or (r.choice("DFA") if foreach else "D"))
    return out
