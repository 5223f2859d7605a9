#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of the checks (see DESIGN.md)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import checks
MAP = "TLC checks the implementation shaped specification %s (refinement of Multimap) over all the histories of small instances; every transition of its graph is replayed on the real code (normal and ASan builds, several hash realisations), and traces of random, zigzag and bulk histories recorded with the real constants (64 and 32 bits) are validated by TLC against Multimap/TraceMap."
NOTES = {
    "C01": MAP % "HashTable.tla",
    "C02": MAP % "HashDyn.tla",
    "C03": MAP % "HashLin.tla",
    "C04": MAP % "Trie.tla" + " Also for other documented widths and branch numbers.",
    "C05": MAP % "TrieInplace.tla" + " Also for other documented widths and branch numbers.",
    "C06": "TLC checks List.tla, a pointer level specification of the lists, against the sequence of elements for all the histories on a few elements and lists; all its transitions are replayed on the real code and recorded histories are validated by TLC (TraceList).",
    "C07": "TLC checks MergeSort.tla (the algorithm of the code) for all the inputs of small length against stability, order and comparison bounds, the inputs are replayed on the real code, and recorded sorts of big lists are validated by TLC (TraceSort) with the number of comparisons.",
    "C08": "TLC checks Tree.tla (AVL) against the ordered set for all the histories on a few keys, every transition is replayed on the real code, and recorded histories are validated by TLC (TraceTree).",
    "C09": "Apalache proves that the rebalance of Tree.tla gives AVL trees for subtrees of any height (BalanceProof.tla, BalanceAgree.tla) and TLC checks it for all the histories on a few keys; the shape of the real tree is reconstructed from the comparisons done by searches and validated by TLC in every state replayed or recorded, with the number of comparisons of each operation.",
    "C10": "TLC checks Arrays.tla (segments and blocks) with small constants, its transitions are replayed on the real code, and recorded histories with the real constants are validated by TLC (TraceArray).",
    "C11": "As C10, for the addresses of the elements: fixed for ever, disjoint, inside the owned memory and aligned.",
    "C12": "TLC checks BlockAlloc.tla for a grid of block sizes, alignments and heap addresses, and traces of the real allocator on a heap with controlled addresses, also with blocks over 4 GB (TraceGiant), are validated by TLC (TraceAlloc).",
    "C13": "TLC validates the calls of the heap recorded from the real code in every kind of history of every container (ledger: owned once, released once, per operation budgets), in plain and ASan builds, and the replays of the graphs release everything in every reachable state of the specifications.",
    "C14": "Apalache proves the size policy for any number of elements (inductive invariants of SizeProof.tla, real constants) and TLC checks it for all the histories of counts (HashSize.tla, SizeAgree.tla) and of the small instances (HashDyn.tla, HashLin.tla); the sizes recorded from the real code, up to 2^16 elements and at each change of the number of buckets, are validated by TLC (TraceMap), and so the fixed tables up to 2^33 buckets (TraceGiant).",
    "C15": "Apalache proves the bound for any number of elements (inductive invariants of SizeProof.tla); TLC checks that each operation does a bounded number of splits and merges for all the histories of counts (HashSize.tla) and of small instances (HashLin.tla); the basic blocks executed by each real operation, in histories with reversals up to 2^17 elements, are validated by TLC against a constant bound.",
    "C16": "TLC validates, after each operation of recorded histories and replayed graphs, that the usage reported is the heap owned, as accounted by an instrumented heap, plus the nodes of the elements of the specification; also over 4 GB of buckets, nodes or blocks (TraceGiant).",
    "C17": "TLC computes the hashes with Lookup3.tla, an executable specification in 16 bits limbs, and compares them with those recorded from the real code for all the lengths, alignments and random contents, against inaccessible memory, in 64 and 32 bits builds and with the portable paths.",
    "C18": "TLC evaluates IntHash.tla and compares it with recorded values; the real 32 bits function is enumerated on all the 2^32 inputs for bijectivity; each step of the 64 bits one is inverted by the specification on recorded values.",
    "C19": "TLC characterises the bit functions (Bits.tla); the real ones are enumerated on all the 2^32 inputs and on structured 64 bits ones, in compiler specific and portable builds, and what is recorded is validated by TLC.",
    "C20": "Every state of the graphs of the specifications is iterated in the real code with callbacks that free and overwrite the elements (normal and ASan builds) and recorded histories with iterations are validated by TLC (TraceMap, TraceTree, TraceList).",
    "C22": "Apalache proves the amortized cost of the dynamic table for any number of elements (inductive invariants of SizeProof.tla); TLC checks Amortized.tla (tokens paying the work of every history of the resizing tables: the credit never ends, and it does with thresholds without hysteresis); the work done by each operation of the real code, in basic blocks of an instrumented build, is recorded along adversarial histories of all the containers at sizes up to millions of elements, and validated by TLC against TraceCost.tla (bound of each operation, and the same token account).",
    "C23": "TLC checks Readers.tla, all the interleavings of the loads of readers of a bucket: with loads only each reader gets what it gets alone, and the designs that write (move to front, caches) are rejected; the assumption that reads only load is checked on the real code with the memory of containers, elements and heap made read only during every observation of replayed graphs and recorded histories; threads reading the same containers at the same time are recorded (also under the thread sanitizer) and validated by TLC (TraceMulti).",
    "C24": "TLC checks, in every state of Trie.tla, that the inner nodes are as many as the prefixes that different keys have in common (NodesOK); every transition is replayed on the real code comparing the memory got from the allocator with the nodes of the specification, also with other widths and branches; recorded histories are validated by TLC (TraceMap NodesOK): the number is computed from the digits of the keys contained, or, for thousands of keys, compared with a trie made from scratch.",
    "C25": "Recorded histories of every container, of the allocator, of sorts and of hashes are validated by TLC against the specifications for a reference build of 32 and one of 64 bits; the same histories are run in the other builds (C and C++, GCC and clang, -O0 to -O3, NDEBUG, unsigned char, portable and MSVC paths, MemorySanitizer) and their traces, if not identical to the ones accepted, are validated by TLC.",
    "C26": "TLC checks the bounds of the memory taken in every state of Arrays.tla and BlockAlloc.tla; their transitions are replayed on the real code, comparing the bytes owned in an instrumented heap with the bounds, and recorded histories with the real constants, up to more than 2^32 elements, are validated by TLC (SpaceOK of TraceArray and TraceAlloc).",
    "C21": "TLC checks MultiIndex.tla, the composition of instances of all the containers (operations on different instances commute), its transitions are replayed on the real code, and recorded interleavings on many instances sharing objects and the allocator, nested in callbacks, and in parallel threads, are validated by TLC, with a complete observation of all the instances after each operation.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
assert set(NOTES) >= {p["id"] for p in props}
LEVEL = {}
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {
        "guard": "TOMMYDS_MODEL",
        "enable": "-DTOMMYDS_MODEL with -D for each sizing constant (vf/core.py build, defaults in harness/heap.h), only for the scaled-down replays and the other trie configurations; everything else is built without it",
        "source_commits": ["e53de8e"],
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification checked with TLC, bound to the code by transition replay and trace validation",
        "level": "model_checking",
        "level_note": NOTES[p["id"]],
    } for p in props if p["id"] in checks.CHECKS],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in checks.CHECKS],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
