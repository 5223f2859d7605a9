"""C25: the same behaviour in every build."""
from .core import *
from . import maps, lists, trees, arrays, alloc, bits, multi

PLATFORM = ("-include", os.path.join(HARNESS, "platform.h"))
# the options of who compiles the library; the first of each size is the reference
BUILDS = [
    [("gcc-O1", {}),
     ("gcc-O0", {"opt": "-O0"}),
     ("gcc-O3-native-ndebug", {"opt": "-O3", "extra": ("-march=native", "-DNDEBUG")}),
     ("gcc-Os-uchar", {"opt": "-Os", "extra": ("-funsigned-char", "-ftrivial-auto-var-init=pattern")}),
     ("clang-O3-ndebug", {"cc": "clang", "opt": "-O3", "extra": ("-DNDEBUG",)}),
     ("g++-O2", {"cc": "g++", "opt": "-O2"}),
     ("portable", {"opt": "-O2", "lib": "libcfg.c", "defs": ("-DVF_PORTABLE",), "extra": PLATFORM}),
     ("msvc", {"opt": "-O2", "lib": "libcfg.c", "defs": ("-DVF_MSVC", "-I" + os.path.join(HARNESS, "msvc")), "extra": PLATFORM}),
     ("uninitialized", {"cc": "clang", "extra": ("-fsanitize=memory", "-fno-sanitize-recover=all")})],
    [("m32-gcc-O1", {"m32": True}),
     ("m32-gcc-O3-ndebug", {"m32": True, "opt": "-O3", "extra": ("-DNDEBUG",)}),
     ("m32-clang-O2", {"m32": True, "cc": "clang", "opt": "-O2", "extra": ("-funsigned-char",)}),
     ("m32-bounds", {"m32": True, "asan": True}),
     ("m32-portable", {"m32": True, "opt": "-O2", "lib": "libcfg.c", "defs": ("-DVF_PORTABLE",), "extra": PLATFORM})],
]
OPTIONAL = {"m32-bounds", "uninitialized", "g++-O2", "m32-clang-O2", "msvc", "m32-portable", "portable", "gcc-O3-native-ndebug"}


def histories(c, m32):
    """(name, driver, arguments, scripts, specification, invariants)"""
    r = c.rng("builds", m32)
    q = lambda a, b: c.pick(a, b)
    o = []
    for k in ("hashtable", "hashdyn", "hashlin"):
        o.append((k, "h_map.c", (), maps.hash_walks(r, k, q(14, 60), q(400, 1500), 0.4) + maps.hash_batches(r, k, q(4, 12), 40, q(20000, 100000)), "TraceMap",
                  maps.CORE + ["HeapOK", "UsageOK", "SizeOK", "IterationOK"]))
    for k in ("trie", "trie_inplace"):
        o.append((k, "h_map.c", (), maps.trie_walks(r, k, q(14, 60), q(400, 1500)) + maps.trie_batches(r, k, q(4, 12), 40, q(20000, 100000)), "TraceMap",
                  maps.CORE + ["HeapOK", "UsageOK", "NodesOK"]))
    o.append(("list", "h_list.c", (), [lists.list_script(r, q(300, 1000)) for _ in range(q(16, 60))], "TraceList", lists.LIST_INV + ["KeptOK", "HeapOK"]))
    o.append(("sort", "h_list.c", ("sort",), [["%d %s" % (len(k), " ".join(map(str, k)))] for k in lists.sort_inputs(r, q(200, 600), q((2, 20000), (6, 100000)))], "TraceSort", lists.SORT_INV))
    o.append(("tree", "h_tree.c", (), [trees.single_walk(r, q(300, 1000)) for _ in range(q(14, 60))] + [trees.block_walk(r, 20, q(2000, 20000), 0) for _ in range(q(4, 12))], "TraceTree",
              trees.SET_INV + ["HeapOK", "UsageOK"]))
    o.append(("array", "h_array.c", (), [arrays.script(r, r.choice([5, 40, 130, 300, 1100, 5000, 70000]), 40, kind=j % 4) for j in range(q(32, 120))], "TraceArray", arrays.VAL_INV + arrays.ADDR_INV + ["HeapOK", "UsageOK"]))
    o.append(("alloc", "h_alloc.c", (), [alloc.script(r, q(50, 120), 4 if m32 else 8) for _ in range(q(24, 100))], "TraceAlloc", alloc.INV))
    o.append(("multi", "h_multi.c", (), [multi.script(r, q(150, 500), q(80, 300)) for _ in range(q(10, 40))], "TraceMulti", multi.INV))
    v = bits.bit_values(r, q(30, 300))
    o.append(("int", "h_int.c", (), [["s 64 %x" % x] for x in v] + [["s 32 %x" % x] for x in sorted({x & 0xffffffff for x in v})] + [["b %x %d" % (r.getrandbits(64), q(300000, 5000000))]], "TraceInt", bits.INT_INV))
    fns = ("hi32", "hi64", "lo32", "lo64", "up32", "up64", "zero")
    o.append(("bits", "h_bits.c", (), [["s %s %x" % (f, x)] for x in v for f in fns] + [["b %x %d" % (r.getrandbits(64), q(300000, 5000000))]], "TraceBits", bits.BITS_INV))
    o.append(("hash", "h_hash.c", (), bits.hash_script(c, "builds"), "TraceHash", bits.HASH_INV))
    return o


def builds(c):
    c.assumptions += ["the options of the compilers used here represent those of the users; big endian machines are represented by the portable paths, MSVC by a stand-in of its intrinsics",
                      "a trace identical to one accepted by the specification is accepted by it"]

    def one(name, main, args, scripts, module, inv, group):
        ref = None
        for bname, kw in group:
            exe = c.build(main, plain=True, optional=bname in OPTIONAL, **kw)
            if exe is None:
                c.cov.setdefault("skipped", []).append("build %s of %s" % (bname, main))
                continue
            path = c.validate("%s/%s" % (name, bname), [exe] + list(args), scripts, module, inv, timeout=400, asan=bname in ("uninitialized", "m32-bounds"), same=ref, keep=ref is None)
            ref = ref or path
        if ref:
            os.unlink(ref)
    jobs = []
    for group in BUILDS:
        for h in histories(c, group is BUILDS[1]):
            jobs.append(lambda h=h, group=group: one(*h, group))
    c.parallel(*jobs)


CHECKS = {"C25": builds}
