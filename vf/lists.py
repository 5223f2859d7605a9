"""C06, C07: lists and their sort."""
from .core import *
from . import giant


def flat_graph(header, obs, edges, parent):
    """Input for harness/graph.h; operations are tuples with the result as last."""
    o = [header, str(len(obs))]
    for s, p in zip(obs, parent):
        q = flatten(s)
        op = p[1][:-1] if p else []
        o.append("%d %d %s %d %s" % (p[0] if p else -1, len(op), " ".join(map(str, op)), len(q), " ".join(map(str, q))))
    o.append(str(len(edges)))
    for a, op, b in edges:
        o.append("%d %d %s %d %d" % (a, len(op) - 1, " ".join(map(str, op[:-1])), op[-1], b))
    return "\n".join(o) + "\n"


def flatten(s):
    """List of lists as lengths and values; plain integers as they are."""
    q = []
    for k in s:
        if isinstance(k, list):
            q.append(len(k))
            q += flatten(k)
        else:
            q.append(k)
    return q


def list_graph(c, nodes, lists, keys):
    text = "---- MODULE MC ----\nEXTENDS List\nKeyOfDef(n) == <<%s>>[n]\n====\n" % ", ".join(map(str, keys))
    cfg = "SPECIFICATION Spec\nCONSTANTS\n  Nodes = %d\n  Lists = %d\n  KeyOf <- KeyOfDef\n  Emit = TRUE\nVIEW View\nINVARIANTS ListOK DisjointOK\nPROPERTY Refines\nCONSTRAINT EmitS\nACTION_CONSTRAINT EmitE\nCHECK_DEADLOCK FALSE\n" % (nodes, lists)
    return c.graph("MC", cfg, name="List(%d nodes, %d lists)" % (nodes, lists), text=text)


def list_graph_jobs(c, iterate, sizes=None):
    def job(nodes, lists, keys):
        obs, edges, parent = list_graph(c, nodes, lists, keys)
        text = flat_graph("%d %d %s" % (lists, nodes, " ".join(map(str, keys))), obs, edges, parent)
        m = edges[len(edges) // 3]
        s = {"graph": "List", "transition": {"from": obs[m[0]], "op": m[1], "to": obs[m[2]]}}
        c.parallel(
            lambda: c.replay_graph("list/%d.%d/fast" % (nodes, lists), [c.build("h_list.c"), "graph", str(iterate)], text, len(edges), sample=s),
            lambda: c.replay_graph("list/%d.%d/asan" % (nodes, lists), [c.build("h_list.c", asan=True), "graph", str(iterate)], text, len(edges), asan=True, timeout=800))
    sizes = sizes or c.pick([(5, 2, [2, 1, 2, 1, 3])], [(6, 2, [2, 1, 2, 1, 3, 3]), (5, 3, [1, 1, 2, 2, 0])])
    return [lambda a=a: job(*a) for a in sizes]


def list_script(r, steps, sort=True, foreach=True):
    nl = r.choice([1, 2, 3, 5])
    nn = r.choice([3, 6, 12, 30, 60, 200])
    keys = [r.randrange(r.choice([1, 2, 4, nn])) for _ in range(nn)]
    out = ["T %d %d %s" % (nl, nn, " ".join(map(str, keys)))]
    seqs = [[] for _ in range(nl + 1)]
    goal = r.randrange(nn + 1)
    for _ in range(steps):
        n = sum(map(len, seqs))
        if n == goal or r.random() < 0.01:
            goal = r.randrange(nn + 1)
        x = r.random()
        l = r.randrange(1, nl + 1)
        if x < 0.03 and nl > 1:
            b = r.choice([b for b in range(1, nl + 1) if b != l])
            seqs[l] += seqs[b]
            seqs[b] = []
            out.append("c %d %d" % (l, b))
        elif x < 0.06 and sort:
            seqs[l].sort(key=lambda i: keys[i - 1])
            out.append("s %d" % l)
        elif x < 0.08 and foreach:
            out.append(r.choice("fa"))
        elif (n < goal or r.random() < 0.1) and n < nn:
            used = set(i for s in seqs for i in s)
            i = r.choice([i for i in range(1, nn + 1) if i not in used])
            if r.random() < 0.5:
                seqs[l].insert(0, i)
                out.append("h %d %d" % (l, i))
            else:
                seqs[l].append(i)
                out.append("t %d %d" % (l, i))
        elif n:
            l = r.choice([l for l in range(1, nl + 1) if seqs[l]])
            i = r.choice([seqs[l][0], seqs[l][-1], r.choice(seqs[l])])
            seqs[l].remove(i)
            out.append("r %d %d" % (l, i))
    if foreach:
        out.append(r.choice("FA"))
    return out


LIST_INV = ["ResultOK", "ForwardOK", "BackwardOK", "EndsOK"]


def list_traces(c, inv, n, steps, parts=1, salt=""):
    jobs = []
    for i in range(parts):
        for b, kw in (("fast", {}), ("asan", {"asan": True}), ("m32", {"m32": True})):
            r = c.rng("list", b, i, salt)
            jobs.append(lambda b=b, kw=kw, i=i, s=[list_script(r, steps) for _ in range(n if b == "fast" else n // 2)]:
                        c.validate("list/%s%d" % (b, i), [c.build("h_list.c", **kw)], s, "TraceList", inv, asan=b == "asan"))
    return jobs


def sort_inputs(r, n, big):
    """Keys of lists to sort."""
    out = []
    for i in range(n):
        x = r.random()
        if x < 0.5:
            z = r.randrange(1, 70)
        elif x < 0.8:
            z = (1 << r.randrange(3, 11)) + r.randrange(-2, 3)
        else:
            z = r.randrange(1, 1500)
        out.append(pattern(r, z))
    for _ in range(big[0]):
        z = r.choice([big[1], (1 << (big[1].bit_length() - 1)) + r.randrange(-1, 2), r.randrange(1, big[1])])
        out.append(pattern(r, z))
    return out


def pattern(r, z):
    p = r.choice(["rand", "few", "two", "asc", "desc", "equal", "descdup", "saw", "organ", "near", "blocks", "rotate", "interleave", "bits"])
    if p == "rand":
        return [r.randrange(-2 ** 31, 2 ** 31 - 1) for _ in range(z)]
    if p == "few":
        k = r.choice([2, 3, 5, 16])
        return [r.randrange(k) for _ in range(z)]
    if p == "two":
        return [r.randrange(2) for _ in range(z)]
    if p == "asc":
        return sorted(r.randrange(r.choice([3, z + 1])) for _ in range(z))
    if p == "desc":
        return [z - i for i in range(z)]
    if p == "descdup":
        return sorted((r.randrange(1 + z // 2) for _ in range(z)), reverse=True)
    if p == "equal":
        return [7] * z
    if p == "saw":
        m = r.randrange(1, 1 + z)
        return [i % m for i in range(z)]
    if p == "organ":
        return [min(i, z - i) for i in range(z)]
    if p == "near":
        k = list(range(z))
        for _ in range(1 + z // 20):
            i, j = r.randrange(z), r.randrange(z)
            k[i], k[j] = k[j], k[i]
        return k
    if p == "blocks":
        b = r.choice([1, 2, 3, 4, 8, 16])
        return [-(i // b) for i in range(z)]
    if p == "rotate":
        m = r.randrange(z)
        return [(i + m) % z for i in range(z)]
    if p == "interleave":
        return [i // 2 if i % 2 else z - i // 2 for i in range(z)]
    return [bin(i).count("1") for i in range(z)]


SORT_INV = ["PermutationOK", "SortedOK", "StableOK", "BackwardOK", "CompareOK", "CostOK", "OrderedCostOK", "BigOK"]


def sorts(c, name, inputs, **kw):
    return c.validate("sort/" + name, [c.build("h_list.c", **kw), "sort"], [["%d %s" % (len(k), " ".join(map(str, k)))] for k in inputs],
                      "TraceSort", SORT_INV, asan=kw.get("asan", False), timeout=400)


def check_list(c):
    c.assumptions.append("nodes are inserted in a list at a time and removed from the list containing them; the second list of a concatenation is initialized again (the documented preconditions)")
    jobs = list_graph_jobs(c, 0)
    jobs += list_traces(c, LIST_INV + ["KeptOK"], c.pick(20, 60), c.pick(300, 1000), c.pick(1, 6))
    c.parallel(*jobs)
    giant.elements(c, ["CountOK", "ContentOK", "EachOK"], ["list"], True)


def check_sort(c):
    c.assumptions.append("the comparison is a total preorder")

    def exhaustive(n, keys):
        t = time.time()
        cfg = "SPECIFICATION Spec\nCONSTANTS\n  MaxLen = %d\n  Keys = {%s}\n  Emit = TRUE\nINVARIANTS ChainsOK ResultOK CostOK EmitR\nCHECK_DEADLOCK FALSE\n" % (n, ", ".join(map(str, range(1, keys + 1))))
        r = c.tlc("MergeSort", cfg, timeout=900)
        if r.code != 0:
            raise CheckError("TLC rejects MergeSort: " + r.text[-3000:])
        c.note_model("MergeSort(length %d, %d keys)" % (n, keys), r, time.time() - t)
        res = {}
        with open(r.out) as f:
            for line in f:
                if line.startswith('"@R '):
                    v = parse_tla(line[4:].strip()[:-1])
                    res[tuple(v[0])] = v[1]
        os.unlink(r.out)
        # the same inputs on the real code have the same result
        ins = sorted(res)
        for kw in ({}, {"asan": True}):
            text = "\n".join("%d %s" % (len(k), " ".join(map(str, k))) for k in ins) + "\n"
            for attempt in (1, 2):
                code, out, err = c.run([c.build("h_list.c", **kw), "sort"], text, asan=bool(kw), timeout=300)
                bad = None
                lines = out.splitlines()
                for k, line in zip(ins, lines):
                    e = json.loads(line)
                    if e["out"] != res[k] or e["bad"] or not e["bwok"]:
                        bad = "sort of %s gives %s, the specification %s%s" % (list(k), e["out"], res[k], ", and prev pointers or compared elements are wrong" if e["bad"] or not e["bwok"] else "")
                        break
                if not bad and (code != 0 or len(lines) != len(ins)):
                    bad = "the driver ends with %s at the input %s" % (code, ins[min(len(lines), len(ins) - 1)])
                if not bad:
                    break
            if bad:
                raise Violation(bad, bad + "\n" + err[-5000:])
            c.cov["graph_replays"].append({"graph": "MergeSort inputs%s" % ("/asan" if kw else ""), "transitions_replayed": len(ins)})
            c.log("replay of %d inputs of MergeSort on the real code" % len(ins))
    jobs = [lambda: exhaustive(*c.pick((7, 3), (9, 3)))]
    if c.thorough:
        jobs.append(lambda: exhaustive(7, 4))
    for i in range(c.pick(1, 6)):
        jobs.append(lambda i=i: sorts(c, "fast%d" % i, sort_inputs(c.rng("sort", i), c.pick(250, 400), c.pick((4, 40000), (6, 200000)))))
        jobs.append(lambda i=i: sorts(c, "asan%d" % i, sort_inputs(c.rng("sorta", i), c.pick(100, 200), c.pick((1, 20000), (2, 60000))), asan=True))
        jobs.append(lambda i=i: sorts(c, "m32-%d" % i, sort_inputs(c.rng("sort32", i), c.pick(100, 200), c.pick((1, 20000), (2, 60000))), m32=True))
    # sizes around the powers of two, up to millions
    r = c.rng("huge")
    hs = [((1 << b) + r.randrange(-2, 3), p) for b in range(15, c.pick(21, 24)) for p in (r.sample(range(6), 2))] + [(c.pick(3, 20) * 10 ** 6 + r.randrange(10 ** 6), p) for p in (0, r.randrange(1, 6))]
    hs += [((1 << 25) + r.randrange(-2, 1000), r.choice([1, 2])), ((1 << 26) + r.randrange(-2, 3), 5)] # the fast ones
    jobs.append(lambda: c.validate("sort/huge", [c.build("h_list.c", opt="-O2"), "sort"], [["-%d %d" % h] for h in hs], "TraceSort", SORT_INV, timeout=600))
    # every length, ordered and reversed
    jobs.append(lambda: sorts(c, "ordered", [list(range(z)) for z in range(1, 130)] + [list(range(z, 0, -1)) for z in range(1, 130)]))
    jobs += list_traces(c, LIST_INV + ["CompareOK"], c.pick(8, 30), 300, 1, "sort")
    c.parallel(*jobs)


CHECKS = {"C06": check_list, "C07": check_sort}
