"""C17, C18, C19: hashes and bit functions."""
from .core import *

SINGLE = "CONSTANTS\n"
BITS_INV = ["OneOK", "RefOK", "EnumOK", "ZeroOK", "ConstOK", "BulkOK", "KnownOK"]


def bit_values(r, n):
    out = set()
    for i in range(64):
        for d in (-2, -1, 0, 1, 2):
            out.add((1 << i) + d & (1 << 64) - 1)
        out.add((1 << 64) - 1 >> i)
        out.add((1 << 64) - 1 << i & (1 << 64) - 1)
        for j in range(i):
            if (i + j) % 3 == 0:
                out.add(1 << i | 1 << j)
                out.add((1 << i) - (1 << j))
    for _ in range(n):
        v = r.getrandbits(64)
        out.add(v)
        out.add(v & 0xffffffff)
        out.add(v >> r.randrange(64))
        out.add(v << r.randrange(64) & (1 << 64) - 1)
    for b in range(256):
        out.add(int.from_bytes(bytes(r.choice([0, 1, 0x7f, 0x80, 0x81, 0xff, b]) for _ in range(4)), "little"))
    return sorted(out)


CONFIGS = [("native", {}), ("portable", {"defs": ("-DVF_PORTABLE",)}), ("msvc", {"defs": ("-DVF_MSVC", "-I" + os.path.join(HARNESS, "msvc"))}),
           ("m32", {"m32": True}), ("m32-portable", {"m32": True, "defs": ("-DVF_PORTABLE",)}), ("m32-msvc", {"m32": True, "defs": ("-DVF_MSVC", "-I" + os.path.join(HARNESS, "msvc"))}),
           ("clang", {"cc": "clang"}), ("O0", {"opt": "-O0"}), ("O3", {"opt": "-O3"}), ("asan", {"asan": True})]


def check_bits(c):
    c.cap = 800 # nothing here depends on loops that a defect can make endless
    c.assumptions.append("the MSVC path is compiled by gcc with a stand-in of the intrinsics; 64 bits inputs are enumerated on families of 2^32 values and sampled elsewhere")
    fns = "hi32 hi64 hi lo32 lo64 lo up32 up64 up zero".split()

    def one(name, kw):
        r = c.rng("bits", name)
        s = [["c"]] + [["s %s %x" % (f, v)] for v in bit_values(r, c.pick(30, 400)) for f in fns]
        s += [["b %x %d" % (r.getrandbits(64), c.pick(3000000, 300000000))]]
        kw = dict(kw)
        kw.setdefault("opt", "-O2")
        c.validate("bits/" + name, [c.build("h_bits.c", lib=None, **kw)], s, "TraceBits", BITS_INV, asan=name == "asan", timeout=600)

    c.parallel(*[lambda n=n, k=k: one(n, k) for n, k in CONFIGS])
    # all the words of 32 bits, and families of 2^32 words of 64 bits
    fam = [(0, 0), (32, 0), (32, 1), (32, 0x80000000), (32, 0xffffffff)]
    for name, kw in CONFIGS:
        if name not in c.pick(("native", "portable", "m32", "m32-portable"), [n for n, k in CONFIGS if n != "asan"]):
            continue
        s = [["e %s 0 0" % f] for f in ("hi32", "lo32", "up32")] + [["z"]]
        if not name.startswith("m32") or c.thorough:
            s += [["e %s %d %x" % (f, sh, b)] for f in ("hi64", "lo64", "up64") for sh, b in c.pick(fam[:3], fam)]
        kw = dict(kw)
        kw.setdefault("opt", "-O2")
        c.validate("enum/" + name, [c.build("h_bits.c", lib=None, **kw)], s, "TraceBits", BITS_INV, timeout=900)


def back64(p, v):
    """the word whose value before the step p of the hash of 64 bits is v: the steps are odd multiplications and xors with a right shift"""
    M = (1 << 64) - 1
    st = [("a", (1 << 21) - 1, 0), ("x", 0, 24), ("m", 265, 0), ("x", 0, 14), ("m", 21, 0), ("x", 0, 28), ("m", (1 << 31) + 1, 0)]
    for k, m, s in reversed(st[:p]):
        if k == "x":
            x = v
            for _ in range(64 // s):
                x = v ^ x >> s
            v = x
        else:
            v = (v + (k == "a")) * pow(m, -1, 1 << 64) & M
    return v


INT_INV = ["ValueOK", "RefOK", "ReverseOK", "AllOK", "BulkOK", "KnownOK"]


def check_int(c):
    c.cap = 800 # nothing here depends on loops that a defect can make endless
    c.assumptions.append("the 64 bits hash is bijective because each shape of step is, as model checked for small widths; values are sampled, or enumerated on families")
    c.model("StepShapes", "SPECIFICATION Spec\nCONSTANT MaxW = %d\nINVARIANTS Bijective Inverse\nCHECK_DEADLOCK FALSE\n" % c.pick(8, 11))

    def one(name, kw):
        r = c.rng("int", name)
        v = bit_values(r, c.pick(100, 1500))
        v = sorted(set(v) | {back64(r.randrange(1, 8), x) for x in v for _ in range(c.pick(1, 3)) if c.thorough or r.random() < .3})
        s = [["s 64 %x" % x] for x in v] + [["s 32 %x" % x] for x in sorted({x & 0xffffffff for x in v})]
        s += [["b %x %d" % (r.getrandbits(64), c.pick(30000000, 2000000000))]]
        s += [["w %d %d" % (c.pick(3, 4), p)] for p in range(8)]
        s += [["f %x %x %d %d 0" % (m, a, sh, c.pick(1 << 24, 1 << 30))] for m, a, sh in ((1, 0, 0), (1, 0, 32), (1, 1 << 63, 0), (r.getrandbits(64) | 1, r.getrandbits(64), 0), (1 << 20, r.getrandbits(64), 0), (1, 0, 16), (1, (1 << 64) - (1 << 23), 0))]
        # the values of one half of an intermediate word, with the other half at an extreme
        s += [["f 1 %x %d %d %d" % (a, sh, c.pick(1 << 20, 1 << 27), p)] for p in range(1, 8) for a, sh in
              ((0, 0), (0, 32), (0, 44), (1 << 63, 0), (1 << 31, 0), ((1 << 32) - (1 << 19), 0), ((1 << 64) - (1 << 32), 0), ((1 << 64) - (1 << 19), 0), ((1 << 63) - (1 << 19), 0), ((1 << 32) - (1 << 19), 32))]
        kw = dict(kw)
        kw.setdefault("opt", "-O2")
        c.validate("int/" + name, [c.build("h_int.c", lib=None, **kw)], s, "TraceInt", INT_INV, asan=name == "asan", timeout=800)
    use = [("native", {}), ("portable", {"defs": ("-DVF_PORTABLE",)}), ("m32", {"m32": True}), ("clang", {"cc": "clang"}), ("O0", {"opt": "-O0"})]
    c.parallel(*[lambda n=n, k=k: one(n, k) for n, k in use])
    # every word of 32 bits
    for name, kw in use[:c.pick(1, 5)]:
        kw = dict(kw)
        kw.setdefault("opt", "-O2")
        c.validate("all/" + name, [c.build("h_int.c", lib=None, **kw)], [["a"]] + ([["f 1 0 0 %d 0" % (1 << 32)], ["f 1 0 32 %d 0" % (1 << 32)]] + [["f 1 0 %d %d %d" % (sh, 1 << 32, p)] for p in (1, 3, 5, 7) for sh in (0, 32)] if c.thorough else []), "TraceInt", INT_INV, timeout=800)


HASH_INV = ["OneOK", "ValueOK", "RefOK", "BulkOK", "KnownOK"]


def hash_script(c, name):
    r = c.rng("hash", name)
    s = []
    for k in ("u32", "u64", "str"):
        def init():
            return r.choice([0, 1, r.getrandbits(32), r.getrandbits(64), r.getrandbits(64), r.getrandbits(32) << 32, 0xffffffff, (1 << 64) - 1, 0xdeadbeef, 0x21524111])
        lens = list(range(0, 50)) * c.pick(2, 12) + [r.randrange(50, 400) for _ in range(c.pick(10, 100))]
        for n in lens:
            st = r.randrange(5)
            pool = [[0, 0xff], [1, 0x80, 0x81, 0x7f], list(range(32, 127)), None, None][st]
            d = [r.choice(pool) if pool else r.getrandbits(8) for _ in range(n)]
            if k == "str":
                d = [x or r.choice([1, 0x80, 0xff]) for x in d]
            s.append(["s %s %x %s" % (k, init(), "".join("%02x" % x for x in d) or "-")])
        s.append(["b %s %x %d %d" % (k, r.getrandbits(60), c.pick(400000, 8000000), c.pick(500, 4000))])
        s.append(["t %s %x %d" % (k, r.getrandbits(60), c.pick(1000000, 20000000))])
        s.append(["x %s %x %d" % (k, r.getrandbits(60), c.pick(64, 200))])
    return s


def check_hash(c):
    c.cap = 800 # nothing here depends on loops that a defect can make endless
    c.assumptions.append("lengths up to 500 bytes and a few over 2^32; big endian machines are represented by the portable build")
    cfg = [("native", {}), ("portable", {"lib": "libcfg.c", "defs": ("-DVF_PORTABLE",)}), ("msvc", {"lib": "libcfg.c", "defs": ("-DVF_MSVC", "-I" + os.path.join(HARNESS, "msvc"))}),
           ("m32", {"m32": True}), ("m32-portable", {"m32": True, "lib": "libcfg.c", "defs": ("-DVF_PORTABLE",)}),
           ("clang", {"cc": "clang", "opt": "-O2"}), ("O0", {"opt": "-O0"}), ("O3", {"opt": "-O3"}), ("asan", {"asan": True}),
           ("asan-portable", {"asan": True, "lib": "libcfg.c", "defs": ("-DVF_PORTABLE",)})]

    def one(name, kw):
        kw = dict(kw)
        kw.setdefault("opt", "-O2")
        c.validate("hash/" + name, [c.build("h_hash.c", **kw)], hash_script(c, name), "TraceHash", HASH_INV, asan="asan" in name, timeout=600)

    def huge(k, name, kw):
        r = c.rng("huge", k, name)
        s = [["h %s %x %d" % (k, r.getrandbits(60), n)] for n in ((1 << 32) + 12 * r.randrange(4) + r.randrange(1, 12),) + c.pick((), ((1 << 31) + r.randrange(24), (1 << 32), (1 << 32) + 12, (3 << 31) + r.randrange(24)))]
        c.validate("huge %s/%s" % (k, name), [c.build("h_hash.c", opt="-O2", **kw)], s, "TraceHash", HASH_INV, timeout=800)
    jobs = [lambda n=n, k=k: one(n, k) for n, k in cfg]
    for k in ("u32", "u64", "str"):
        jobs.append(lambda k=k: huge(k, "native", {}))
        if c.thorough:
            jobs.append(lambda k=k: huge(k, "portable", {"lib": "libcfg.c", "defs": ("-DVF_PORTABLE",)}))
    c.parallel(*jobs)


CHECKS = {"C17": check_hash, "C18": check_int, "C19": check_bits}
