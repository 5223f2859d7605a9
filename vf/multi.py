"""C21, C23: many containers sharing the objects and the allocators; readers of the same container."""
from .core import *
from .lists import flat_graph

INV = ["ResultOK", "VisitOK", "ContentOK", "FrameOK", "QuietOK", "SharedOK", "HeapOK"]
LISTS = {"list"}
TREES = {"tree"}
HASHES = {"hashtable", "hashdyn", "hashlin"}
TRIES = {"trie", "trie2", "trieinp"}
MAPS = HASHES | TRIES
ARRAYS = {"array", "arrayof", "arrayblk", "arrayblkof"}
CFG = """SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsDef
  Key <- KeyDef
  NK = %d
  Emit = %s
VIEW View
INVARIANTS UniqueOK SetOK %s
PROPERTIES Frame
CONSTRAINT EmitS
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
"""


def tla(x):
    return "<<" + ", ".join('"%s"' % v if isinstance(v, str) else str(v) for v in x) + ">>"


def module(kinds, keys):
    return "---- MODULE MC ----\nEXTENDS MultiIndex\nKindsDef == %s\nKeyDef == %s\n====\n" % (tla(kinds), tla(keys))


def model_job(c, kinds, keys):
    c.model("MC", CFG % (max(keys), "FALSE", "Commute"), text=module(kinds, keys), name="MultiIndex %s, %d objects" % ("+".join(kinds), len(keys)), timeout=900)


SCALED = ("-DTOMMYDS_MODEL", "-DTOMMY_HASHDYN_BIT=2", "-DTOMMY_HASHLIN_BIT=2")


def graph_job(c, kinds, keys, hashes):
    name = "+".join(kinds)
    obs, edges, parent = c.graph("MC", CFG % (max(keys), "TRUE", ""), text=module(kinds, keys), name="MultiIndex %s, %d objects" % (name, len(keys)))
    header = "%d %s %d %s %d %s" % (len(kinds), " ".join(kinds), len(keys), " ".join(map(str, keys)), max(keys), " ".join("%x" % h for h in hashes))
    text = flat_graph(header, obs, edges, parent)
    m = edges[len(edges) // 3]
    s = {"graph": "MultiIndex " + name, "transition": {"from": obs[m[0]], "op": m[1], "to": obs[m[2]]}}
    c.parallel(*[lambda b=b, kw=kw: c.replay_graph("multi %s/%s" % (name, b), [c.build("h_multi.c", **kw), "graph"], text, len(edges), sample=s, asan=b == "asan", timeout=600)
                 for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True}), ("scaled", {"defs": SCALED}))])


def calls(kinds, line):
    """If the operation calls the comparison or visit function."""
    o, i, _ = map(int, line.split()[1:])
    k = kinds[i - 1]
    return o in (7, 8) or (k in TREES and o in (1, 2, 3, 4)) or (k in HASHES and o in (3, 4))


def nestable(kinds, a, b):
    """Nestable in TraceMulti.tla."""
    def touched(o):
        return {i + 1 for i, k in enumerate(kinds) if k == "trie2"} if o[0] == 11 else set(o[1:]) if o[0] == 6 else {o[1]}
    a, b = ([int(x) for x in l.split()[1:]] for l in (a, b))
    return not touched(a) & touched(b) or (a[0] in (4, 8) and b[0] in (4, 8))


def script(r, steps, big):
    pool = ["list", "list", "tree", "tree", "hashtable", "hashdyn", "hashdyn", "hashlin", "hashlin", "trie", "trie", "trie", "trie2", "trie2", "trieinp", "trieinp", "array", "arrayof", "arrayblk", "arrayblkof", "alloc"]
    style = r.choice([0, 1, 2, 3, 4, 4])
    if style == 0:
        kinds = r.sample(pool, 8)
    elif style == 1:
        kinds = ["trie", "trie", "trie", "alloc", "trie2", "trie2"]
    elif style == 2:
        k = r.choice(sorted(MAPS | TREES | LISTS))
        kinds = [k] * 3 + r.sample(pool, 2)
    elif style == 4: # operations with callbacks
        kinds = ["list"] * 3 + r.sample(["tree", "tree", "hashdyn", "hashlin", "hashtable", "hashdyn"], 2)
    else:
        kinds = ["list", "tree", "hashtable", "hashdyn", "hashlin", "trie", "trie2", "trieinp", "array", "arrayof", "arrayblk", "arrayblkof", "alloc"]
    no = r.choice([4, 12, 40, big])
    nk = r.choice([1, 3, min(no, 8), min(no, 40), min(no, 60)])
    keys = [r.randrange(1, nk + 1) for _ in range(no)]
    hs = set()
    while len(hs) < nk + 1:
        hs.add(r.choice([r.getrandbits(32), r.getrandbits(5), r.getrandbits(3) << 29, r.getrandbits(8), 0x80000000 + r.getrandbits(4), r.getrandbits(6) << 26 | 5, r.getrandbits(10)]))
    hs = list(hs)
    r.shuffle(hs)
    out = ["T %d %s %d %s %d %s" % (len(kinds), " ".join(kinds), no, " ".join(map(str, keys)), nk, " ".join("%x" % h for h in hs))]
    cont = [[] for _ in kinds]
    goals = [r.randrange(no + 1) for _ in kinds]

    def ins(i, o, head=False):
        k = kinds[i]
        if k == "list" and any(kinds[j] == "list" and o in cont[j] for j in range(len(kinds))):
            return False
        if k not in ARRAYS and o in cont[i]:
            return False
        if k == "tree" and any(keys[x - 1] == keys[o - 1] for x in cont[i]):
            out.append("o 1 %d %d" % (i + 1, o))
            return True
        if head:
            cont[i].insert(0, o)
            out.append("o 5 %d %d" % (i + 1, o))
        else:
            cont[i].append(o)
            out.append("o 1 %d %d" % (i + 1, o))
        return True
    def step(i):
        k = kinds[i]
        x = r.random()
        if len(cont[i]) == goals[i] or r.random() < 0.01:
            goals[i] = r.choice([0, r.randrange(no + 1), no])
        if x < 0.08 and k in MAPS | TREES:
            out.append("o 4 %d %d" % (i + 1, r.randrange(1, nk + 2)))
        elif x < 0.12 and k in LISTS | TREES | HASHES:
            out.append("o 8 %d 0" % (i + 1))
        elif x < (0.4 if style == 4 else 0.16) and k in LISTS:
            js = [j for j in range(len(kinds)) if j != i and kinds[j] == "list"]
            if js and r.random() < (0.15 if style == 4 else 0.5):
                j = r.choice(js)
                cont[i] += cont[j]
                cont[j] = []
                out.append("o 6 %d %d" % (i + 1, j + 1))
            else:
                cont[i].sort(key=lambda o: keys[o - 1])
                out.append("o 7 %d 0" % (i + 1))
        elif x < 0.18 and k in ARRAYS and cont[i]:
            o = r.randrange(1, no + 1)
            cont[i][0] = o
            out.append("o 10 %d %d" % (i + 1, o))
        elif x > 0.993 and k not in ("trie", "trie2", "alloc"):
            cont[i] = []
            out.append("o 9 %d 0" % (i + 1))
        elif x > 0.99 and "trie2" in kinds:
            for j in range(len(kinds)):
                if kinds[j] == "trie2":
                    cont[j] = []
            out.append("o 11 1 0")
        elif (len(cont[i]) < goals[i] or r.random() < 0.1) and not (k in ARRAYS and len(cont[i]) > 3 * no):
            for _ in range(4):
                if ins(i, r.randrange(1, no + 1), k == "list" and r.random() < 0.5):
                    break
        elif k not in ARRAYS and (cont[i] or r.random() < 0.2):
            if k in MAPS | TREES and r.random() < 0.4:
                kk = r.randrange(1, nk + 2) if r.random() < 0.5 or not cont[i] else keys[r.choice(cont[i]) - 1]
                f = [o for o in cont[i] if keys[o - 1] == kk]
                if f:
                    cont[i].remove(f[0])
                out.append("o 3 %d %d" % (i + 1, kk))
            elif cont[i]:
                o = r.choice(cont[i])
                cont[i].remove(o)
                out.append("o 2 %d %d" % (i + 1, o))
    cur = r.randrange(len(kinds))
    for _ in range(steps):
        if r.random() < 0.3:
            cur = r.randrange(len(kinds))
        n = len(out)
        step(cur)
        if len(out) == n + 1 and r.random() < (0.7 if style == 4 else 0.3) and calls(kinds, out[n]):
            step(r.randrange(len(kinds)))
            if len(out) == n + 2 and nestable(kinds, out[n], out[n + 1]):
                # the second inside a callback of the first
                inner = out.pop()
                out[n] = "n %s %d %s" % (out[n][2:], r.choice([0, 0, 1, 2, 5, 20]), inner[2:])
    out.append("D")
    return out


def threads(c, exe, n):
    """Recorder running the scripts in n threads at the same time."""
    def record(scripts, path, timeout):
        names = []
        for i in range(n):
            names.append("%s.t%d" % (path, i))
            with open(names[-1], "w") as f:
                f.write("\n".join("\n".join(s) for s in scripts[i::n]) + "\n")
        code, _, err = c.run([exe] + names, timeout=timeout, asan=True)
        if code == 66:
            code = 3
            err = "data race between threads using different containers\n" + err
        data = b""
        for x in names:
            d = open(x + ".out", "rb").read() if os.path.exists(x + ".out") else b""
            data += d[:d.rfind(b"\n") + 1]
        with open(path, "wb") as f:
            f.write(data)
        return code, err, data.count(b"\n")
    return record


def thread_job(c, name, n, kw, i):
    exe = c.build("h_multi.c", **kw)
    r = c.rng("threads", name, i)
    s = [script(r, c.pick(150, 400), c.pick(60, 200)) for _ in range(n * c.pick(4, 8))]
    c.validate("threads/%s%d" % (name, i), [], s, "TraceMulti", INV, recorder=threads(c, exe, n))


def tsan_works(c):
    p = os.path.join(c.dir, "tsan.c")
    with open(p, "w") as f:
        f.write("int main(void) { return 0; }\n")
    try:
        return subprocess.run(["gcc", "-fsanitize=thread", p, "-o", p + ".x"], capture_output=True).returncode == 0 and subprocess.run([p + ".x"], capture_output=True, timeout=60).returncode == 0
    except Exception:
        return False


def check_multi(c):
    c.assumptions.append("an object has one node for each instance (one for all the lists); shared allocators are used by tries and by direct users")
    jobs = [lambda: model_job(c, ["hashdyn", "list", "tree"], [1, 1, 2]), lambda: model_job(c, ["trie2", "list", "list", "trieinp"], [1, 2]), lambda: model_job(c, ["trie", "alloc", "array"], [1, 1])]
    graphs = [(["trie", "trie", "alloc"], [1, 1, 2], [0x80000001, 0x80000002, 0x10000000]),
              (["hashdyn", "hashlin"], [1, 1, 2, 3], [5, 0x15, 6, 7]),
              (["trie", "trie2", "trieinp", "hashdyn"], [1, 2], [0xfffffff1, 0xfffffff3, 3]),
              (["tree", "tree", "hashtable"], [2, 1, 2], [7, 7 + 16, 1]),
              (["list", "list", "hashlin"], [2, 1, 2], [7, 7 + 64, 1]),
              (["hashlin", "hashlin", "array"], [1, 2], [7, 7 + 64, 1])]
    if c.thorough:
        graphs += [(["hashdyn", "hashdyn", "hashlin"], [1, 1, 2], [5, 0x15, 6]), (["trieinp", "trieinp", "trie"], [1, 1, 2], [0, 0xffffffff, 1]),
                   (["trie2", "trie2", "trie"], [1, 2, 3], [0, 0xffffffff, 1, 2]), (["list", "tree", "hashlin", "arrayblk"], [1, 2], [1, 3, 2])]
    jobs += [lambda g=g: graph_job(c, *g) for g in graphs]
    for i in range(c.pick(1, 5)):
        for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True}), ("scaled", {"defs": SCALED})):
            r = c.rng("multi", b, i)
            s = [script(r, c.pick(220, 500), c.pick(120, 300)) for _ in range(c.pick(24, 60))]
            jobs.append(lambda b=b, kw=kw, i=i, s=s: c.validate("multi/%s%d" % (b, i), [c.build("h_multi.c", **kw)], s, "TraceMulti", INV, asan=b == "asan"))
    TH = ("-DVF_THREADS",)
    for i in range(c.pick(1, 4)):
        for name, kw in (("fast", {"defs": TH, "opt": "-O2"}), ("scaled", {"defs": TH + SCALED}), ("m32", {"defs": TH, "m32": True})):
            jobs.append(lambda i=i, name=name, kw=kw: thread_job(c, name, 6, kw, i))
        if tsan_works(c):
            jobs.append(lambda i=i: thread_job(c, "tsan", 4, {"defs": TH, "extra": ("-fsanitize=thread",)}, i))
        elif i == 0:
            c.assumptions.append("the thread sanitizer can't run here: threads are checked only from the traces")
    c.parallel(*jobs)


SCALED_BLK = SCALED + ("-DTOMMY_ARRAYBLK_SIZE=4", "-DTOMMY_ARRAYBLKOF_SIZE=4", "-DTOMMY_ARRAY_BIT=1", "-DTOMMY_ARRAYOF_BIT=1")
RINV = INV + ["ReadOnlyOK", "ReadersOK"]
RCFG = """SPECIFICATION Spec
CONSTANTS
  Readers = %d
  Buckets = %d
  Nodes = %d
  Keys = %d
  Design = "%s"
INVARIANTS %s
%sCHECK_DEADLOCK FALSE
"""


def readers_model(c, n, b, nodes, keys, design, inv, live=False):
    c.model("Readers", RCFG % (n, b, nodes, keys, design, inv, "PROPERTY Ends\n" if live else ""), name="Readers %s, %d threads" % (design, n), timeout=900)


def readers_reject(c, n, design, inv):
    """The specification tells the designs that write from the one that only reads."""
    r = c.tlc("Readers", RCFG % (n, 1, 3, 3, design, inv, ""))
    if r.code != 12 or inv not in r.text:
        raise CheckError("Readers doesn't reject %s (exit %s)\n%s" % (design, r.code, r.text[-2000:]))
    c.log("model Readers: rejects %s, %d threads, for %s" % (design, n, inv))


def with_readers(r, s, every, most, times):
    """Threads reading everything, here and there in the script."""
    o = []
    for i, l in enumerate(s):
        if i > 1 and (l == "D" or r.random() < 1.0 / every):
            o.append("P %d %d %d" % (r.randrange(2, most + 1), times, r.getrandbits(20)))
        o.append(l)
    return o


def readers_job(c, name, i, kw, times, env=None):
    r = c.rng("readers", name, i)
    s = [with_readers(r, script(r, c.pick(120, 300), c.pick(60, 200)), c.pick(10, 8), c.pick(4, 8), times) for _ in range(c.pick(20, 50))]
    exe = c.build("h_multi.c", **kw)

    def record(scripts, path, timeout):
        code, _, err = c.run([exe], "\n".join("\n".join(x) for x in scripts) + "\n", timeout=timeout, asan=True, outfile=path)
        if code == 66:
            code = 3
            err = "data race between threads that only read\n" + err
        return code, err, open(path, "rb").read().count(b"\n") if os.path.exists(path) else 0
    c.validate("readers/%s%d" % (name, i), [], s, "TraceMulti", RINV, recorder=record)


def arena_graph(c, kinds, keys, hashes):
    """Everything reachable in a small scope, with memory that can't be written while it's read."""
    obs, edges, parent = c.graph("MC", CFG % (max(keys), "TRUE", ""), text=module(kinds, keys), name="MultiIndex %s, %d objects" % ("+".join(kinds), len(keys)))
    header = "%d %s %d %s %d %s" % (len(kinds), " ".join(kinds), len(keys), " ".join(map(str, keys)), max(keys), " ".join("%x" % h for h in hashes))
    m = edges[len(edges) // 3]
    c.replay_graph("readonly %s" % "+".join(kinds), [c.build("h_multi.c", defs=("-DVF_ARENA",) + SCALED), "graph"], flat_graph(header, obs, edges, parent), len(edges),
                   sample={"graph": "MultiIndex", "transition": {"from": obs[m[0]], "op": m[1], "to": obs[m[2]]}}, timeout=600)


def check_readers(c):
    c.assumptions.append("reads are: searches, buckets, heads and tails, counts, access to elements, iterations, memory usage, hash and bit functions; not a remove that finds nothing")
    c.assumptions.append("memory made read only is the one of the containers, of the elements, and all that was allocated: writes to other memory are left to the thread sanitizer, and to the results")
    jobs = [lambda: readers_model(c, 2, 2, 3, 3, "loads", "Unchanged ExactOK", True),
            lambda: readers_model(c, 3, 2, 3, 2, "loads", "Unchanged ExactOK", c.thorough),
            lambda: readers_model(c, 1, 1, 3, 3, "front", "ResultOK"),
            lambda: readers_model(c, 1, 1, 3, 3, "cache", "ResultOK")]
    for n, design, inv in ((2, "front", "ResultOK"), (2, "cache", "ResultOK"), (2, "hint", "Unchanged"), (1, "front", "Unchanged")):
        jobs.append(lambda n=n, design=design, inv=inv: readers_reject(c, n, design, inv))
    if c.thorough:
        jobs += [lambda: readers_model(c, 3, 2, 4, 3, "loads", "Unchanged ExactOK"), lambda: readers_model(c, 4, 2, 3, 2, "loads", "Unchanged ExactOK")]
    graphs = [(["trie", "trieinp"], [1, 1, 2], [0x80000001, 0x80000002, 0x10000000]), (["hashdyn", "hashlin"], [1, 1, 2], [5, 0x15, 6]),
              (["tree", "hashtable"], [2, 1, 2], [7, 7 + 16, 1]), (["list", "list", "array"], [2, 1], [1, 2, 3])]
    jobs += [lambda g=g: arena_graph(c, *g) for g in graphs]
    AR = ("-DVF_ARENA",)
    RD = ("-DVF_READERS",)
    for i in range(c.pick(2, 8)):
        for name, kw in (("fast", {"defs": AR}), ("O2", {"defs": AR, "opt": "-O2"}), ("m32", {"defs": AR, "m32": True}), ("scaled", {"defs": AR + SCALED_BLK})):
            def job(name=name, kw=kw, i=i):
                r = c.rng("readonly", name, i)
                s = [script(r, c.pick(220, 500), c.pick(120, 300)) for _ in range(c.pick(20, 60))]
                c.validate("readonly/%s%d" % (name, i), [c.build("h_multi.c", **kw)], s, "TraceMulti", RINV)
            jobs.append(job)
        for name, kw in (("fast", {"defs": RD, "opt": "-O2"}), ("scaled", {"defs": RD + SCALED_BLK, "opt": "-O2"}), ("m32", {"defs": RD, "m32": True})):
            jobs.append(lambda name=name, kw=kw, i=i: readers_job(c, name, i, kw, c.pick(20, 100)))
        if tsan_works(c):
            jobs.append(lambda i=i: readers_job(c, "tsan", i, {"defs": RD, "extra": ("-fsanitize=thread",)}, 3))
        elif i == 0:
            c.assumptions.append("the thread sanitizer can't run here: writes out of the memory of the containers are seen only from the results")
    c.parallel(*jobs)


CHECKS = {"C21": check_multi, "C23": check_readers}
