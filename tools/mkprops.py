#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
T = "tommyds/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": [T + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
HOOK = "TOMMYDS_MODEL (sizing constants provided at compile time), only for the scaled-down replay"

prop("C01", "Fixed hashtable is an insertion-ordered multimap",
 "After any sequence of inserts, removes by key and removes of a known element, the fixed-size hashtable contains exactly the elements inserted and not yet removed, and count reports how many. Searching a key, or walking the bucket of its hash, yields exactly the elements having that key, the oldest inserted first, and nothing for absent keys, even if different keys have the same hash or share a bucket. Removing by key removes and returns the oldest element with that key, or returns nothing and changes nothing. Elements inserted with another hash are never returned, also if the comparison function finds them equal; the argument of the comparison can be anything, also null.",
 ["histories", "inputs"], "every operation history, every assignment of hash values to keys (equal, colliding in any number of low bits, using the high bits), every requested table size",
 "check.c inserts and removes mostly distinct sequential keys and checks totals and misses; orders among equal keys, removals from the middle of long chains and colliding hash values are never looked at.",
 ["tommyhashtbl.c", "tommyhashtbl.h", "tommylist.h"],
 [("bucket list append", "tommyhashtbl.c: tommy_hashtable_insert"), ("first match removal", "tommyhashtbl.c: tommy_hashtable_remove"), ("circular prev list", "tommylist.h: tommy_list_remove_existing")],
 [("bucket", "one list of nodes for each hash modulus", "tommyhashtbl.h")],
 ["return values of insert/search/remove", "bucket walk", "foreach", "count"], None)

prop("C02", "Dynamic hashtable is an insertion-ordered multimap across resizes",
 "After any sequence of inserts, removes by key and removes of a known element, whatever resizes they cause, the dynamic hashtable contains exactly the elements inserted and not yet removed, and count reports how many. Searching a key, or walking the bucket of its hash, yields exactly the elements having that key, the oldest inserted first, and nothing for absent keys, even if different keys have the same hash or share a bucket. Removing by key removes and returns the oldest element with that key, or returns nothing and changes nothing. Elements inserted with another hash are never returned, also if the comparison function finds them equal; the argument of the comparison can be anything, also null.",
 ["histories", "inputs"], "every operation history, including those going back and forth over every resize threshold, and every assignment of hash values to keys",
 "check.c only grows to a million elements and then shrinks to zero, without equal keys: no history alternates around a threshold and no chain is observed before and after a resize.",
 ["tommyhashdyn.c", "tommyhashdyn.h", "tommylist.h"],
 [("bucket split on grow and concat on shrink", "tommyhashdyn.c: tommy_hashdyn_resize"), ("grow/shrink thresholds", "tommyhashdyn.c: hashdyn_grow_step, hashdyn_shrink_step")],
 [("bucket/bucket_max", "vector of lists and its size", "tommyhashdyn.h")],
 ["return values of insert/search/remove", "bucket walk", "foreach", "count"], HOOK)

prop("C03", "Linear hashtable is an insertion-ordered multimap at any resize step",
 "After any sequence of inserts, removes by key and removes of a known element, also when a progressive grow or shrink is in progress, is reversed or restarted, the linear hashtable contains exactly the elements inserted and not yet removed, and count reports how many. Searching a key, or walking the bucket of its hash, yields exactly the elements having that key, the oldest inserted first, and nothing for absent keys, even if different keys have the same hash or share a bucket. Removing by key removes and returns the oldest element with that key, or returns nothing and changes nothing. Elements inserted with another hash are never returned, also if the comparison function finds them equal; the argument of the comparison can be anything, also null.",
 ["histories", "inputs"], "every operation history, including every interleaving of inserts and removes during a progressive resize in both directions, and every assignment of hash values to keys",
 "check.c fills and empties the table monotonically, so the reversal of a resize in progress and lookups between two resize steps with colliding keys are never exercised or checked.",
 ["tommyhashlin.c", "tommyhashlin.h", "tommylist.h"],
 [("progressive split", "tommyhashlin.c: hashlin_grow_step"), ("progressive merge", "tommyhashlin.c: hashlin_shrink_step"), ("bucket selection with split position", "tommyhashlin.h: tommy_hashlin_bucket_ref")],
 [("low_max/split/state", "progress of the resize", "tommyhashlin.h")],
 ["return values of insert/search/remove", "bucket walk", "foreach", "count"], HOOK)

prop("C04", "Trie is an insertion-ordered multimap on integer keys",
 "After any sequence of inserts, removes by key and removes of a known element, the trie contains exactly the elements inserted and not yet removed, and count reports how many. The bucket of a key is exactly the list of the elements with that key, the oldest inserted first, and empty for absent keys, whatever prefixes of bits the keys have in common. Removing by key removes and returns the oldest element with that key, or returns nothing and changes nothing.",
 ["histories", "inputs", "configurations"], "every operation history, every set of keys in the supported width (sharing any number of leading or trailing bits, smallest and biggest key), the documented key widths and branch numbers",
 "check.c uses consecutive or strided distinct keys inserted and removed in a few fixed orders; the expansion and reduction of deep shared prefixes in arbitrary histories and the lists of equal keys under it are not checked.",
 ["tommytrie.c", "tommytrie.h", "tommylist.h", "tommyalloc.c"],
 [("expansion to inner nodes", "tommytrie.c: trie_bucket_insert"), ("reduction of inner nodes", "tommytrie.c: trie_bucket_remove_existing")],
 [("bucket/map", "tagged pointers to list or inner node", "tommytrie.c")],
 ["return values of search/remove", "bucket walk", "count"], HOOK)

prop("C05", "In-place trie is an insertion-ordered multimap on integer keys",
 "After any sequence of inserts, removes by key and removes of a known element, the in-place trie contains exactly the elements inserted and not yet removed, and count reports how many. The bucket of a key is exactly the list of the elements with that key, the oldest inserted first, and empty for absent keys, also after removing elements that were used as inner nodes. Removing by key removes and returns the oldest element with that key, or returns nothing and changes nothing.",
 ["histories", "inputs", "configurations"], "every operation history, every set of keys in the supported width (sharing any number of leading or trailing bits, smallest and biggest key), the documented key widths and branch numbers",
 "check.c uses consecutive or strided distinct keys in a few fixed orders; which element becomes the inner node after a removal depends on the history, and those histories are not enumerated.",
 ["tommytrieinp.c", "tommytrieinp.h"],
 [("inner node substitution", "tommytrieinp.c: trie_inplace_bucket_remove"), ("list of equal keys", "tommytrieinp.c: tommy_trie_inplace_list_*")],
 [("map", "branches stored in the element itself", "tommytrieinp.h")],
 ["return values of search/remove", "bucket walk", "count"], HOOK)

prop("C06", "List operations keep the exact element sequence in both directions",
 "After any sequence of insertions at head and tail, removals, concatenations and sorts, walking a list forward yields exactly the expected sequence of elements and walking it backward from the tail yields the reverse of it. Head, tail, emptiness and count agree with that sequence, the element returned by a removal is the one removed, its node is left as it was, with the pointers at the next and previous elements, and a concatenation gives the elements of the first list followed by those of the second. The elements are opaque values, never looked at: any pointer is good, also null.",
 ["histories"], "every operation history over any number of lists, including empty and single element ones",
 "check.c checks lists mainly through sort and count; head/tail updates in every order of removal, and concatenations of empty, single and long lists followed by other operations, are sampled in a few points.",
 ["tommylist.h", "tommylist.c"],
 [("circular prev and 0 terminated next lists", "tommylist.h")],
 [("next/prev", "links of the node", "tommytypes.h")],
 ["forward and backward walks", "head/tail/count/empty", "foreach"], None)

prop("C07", "List sort is a stable O(N log N) sort, linear on ordered input",
 "Sorting a list gives a permutation of its elements in non decreasing order, and elements comparing equal keep their relative order. It never calls the comparison more than N*(ceil(log2 N)+1) times, and no more than 2*N times if the list is already in order or in strictly decreasing order. The comparison is called only with elements of the list, and any positive, zero or negative result has the same meaning regardless of its magnitude.",
 ["inputs"], "every list length, every arrangement of equal and different keys, every consistent comparison function",
 "check.c sorts a few random, ordered and reversed lists; stability and the number of comparisons are functions of the arrangement of all the keys, and all the arrangements of a length cannot be covered by examples.",
 ["tommychain.h", "tommylist.c"],
 [("bottom-up merge with binary counter", "tommychain.h: tommy_chain_mergesort"), ("degenerated merges", "tommychain.h: tommy_chain_merge_degenerated")],
 None, ["order of the elements after the sort", "calls of the comparison function"], None)

prop("C08", "Tree is an ordered set with unique elements",
 "After any sequence of inserts and removes the tree contains exactly one element for each key inserted and not removed, visited in the order defined by the comparison function, and count reports how many. Inserting an element equal to a present one changes nothing and returns the present one, otherwise it returns the inserted one; removing returns the element removed, or nothing if absent. Searching, also with a compatible custom comparison, returns the matching element, or nothing if absent.",
 ["histories", "inputs"], "every operation history and insertion order, every total order, every sign and magnitude of comparison results",
 "check.c inserts and removes in a few orders and verifies mostly presence and count; the shape reached, and so the code path of each removal, depends on the whole history.",
 ["tommytree.c", "tommytree.h"],
 [("recursive insert/remove", "tommytree.c: tommy_tree_insert_node, tommy_tree_remove_node"), ("rotations", "tommytree.c: tommy_tree_balance")],
 [("prev/next/index", "children and height", "tommytree.c")],
 ["return values", "foreach order", "count"], None)

prop("C09", "Tree is always AVL balanced",
 "After any sequence of inserts and removes, for every element of the tree the heights of its two subtrees, as seen through the sequence of comparisons done by searches, differ by no more than one. So a search, an insert or a remove on N elements never needs more than about 1.44*log2(N+2) comparisons (the height of the tallest AVL tree of N elements).",
 ["histories", "inputs"], "every operation history and insertion order",
 "No existing test observes the shape of the tree or the number of comparisons: an unbalanced tree gives the same results, only slower (and it was: see the fix of the height of new leaves).",
 ["tommytree.c"],
 [("height stored in the node", "tommytree.c: tommy_tree_delta"), ("rotations", "tommytree.c: tommy_tree_rotate_left, tommy_tree_rotate_right, tommy_tree_move_right")],
 [("index", "height of the subtree", "tommytree.c")],
 ["arguments and number of the calls of the comparison function"], None)

prop("C10", "Arrays keep every stored value and start new elements at zero",
 "For all the four array types, after any sequence of grows, inserts and writes, every position below the size reads the last value written there, or zero if it was never written since it became part of the array, and writing a position never affects another one. The size is the largest one requested, it never decreases, and an insert appends exactly at the old size. This holds for any element size of the types with a configurable one.",
 ["histories", "inputs"], "every sequence of grows (by one, over several segments at once, smaller than the current size), inserts and writes, every element size",
 "check.c grows one by one or in big steps and reads back values in order; writes interleaved with grows at segment boundaries, odd element sizes and zero initialization after partial growth are not covered.",
 ["tommyarray.c", "tommyarray.h", "tommyarrayof.c", "tommyarrayof.h", "tommyarrayblk.c", "tommyarrayblk.h", "tommyarrayblkof.c", "tommyarrayblkof.h"],
 [("exponential segments", "tommyarray.c: tommy_array_grow; tommyarrayof.c: tommy_arrayof_grow"), ("fixed blocks", "tommyarrayblk.c, tommyarrayblkof.c"), ("segment selection by highest bit", "tommyarray.h: tommy_array_ref")],
 None, ["values read through the reference or getter of each position", "size"], HOOK)

prop("C11", "Array elements never move and never overlap",
 "For all the four array types, the address of an element never changes as long as the array exists, whatever grows follow. Addresses of different elements never overlap, and every one is entirely inside memory currently owned by the array and aligned for its element size when that is a power of two up to the pointer size.",
 ["histories", "inputs"], "every sequence of grows and inserts, every pair of positions, every element size",
 "check.c never keeps an address across a grow; that no address changes is a statement on all positions and all the following grows.",
 ["tommyarray.c", "tommyarray.h", "tommyarrayof.c", "tommyarrayof.h", "tommyarrayblk.c", "tommyarrayblk.h", "tommyarrayblkof.c", "tommyarrayblkof.h"],
 [("segments are added and never reallocated", "tommyarray.c: tommy_array_grow"), ("blocks are added and never reallocated", "tommyarrayblk.c: tommy_arrayblk_grow")],
 None, ["addresses returned by the reference functions", "heap blocks owned by the array"], HOOK)

prop("C12", "Fixed-size allocator gives disjoint, aligned and recycled blocks",
 "For any block and alignment size and any history of allocations and deallocations, every block in use is entirely inside memory obtained from the heap, is aligned as requested, doesn't overlap another block in use, and keeps the data written in it until it is deallocated. Deallocated blocks are reused before asking more memory to the heap. The memory usage reported is the number of blocks in use multiplied by the block size rounded up to the alignment, and the deinitialization gives all the memory back to the heap.",
 ["histories", "inputs"], "every block size and alignment (powers of two or not, smaller or bigger than a segment), every address returned by the heap, every history of allocations and deallocations",
 "check.c uses two block sizes; whether the last block of a segment fits depends on the arithmetic relation of block size, alignment and heap address (it did not fit: see the fix of the segment size).",
 ["tommyalloc.c", "tommyalloc.h"],
 [("carving of a segment in blocks", "tommyalloc.c: tommy_allocator_alloc"), ("free list", "tommyalloc.c: tommy_allocator_free")],
 [("free_block/used_segment/count", "free list, segments, blocks in use", "tommyalloc.h")],
 ["addresses returned", "heap requests", "memory usage"], None)

prop("C13", "Containers own their heap memory exactly and stay inside it",
 "In any reachable state, deinitializing a container gives back exactly once every heap block it obtained and never one it doesn't own, and no operation ever accesses memory outside the blocks and elements it owns or already released ones. Operations that only read, and every operation of lists, trees and in-place tries, never use the heap. An insert or remove of the linear hashtable never allocates more than one block, its inserts and all the array operations never release one, and its removes never allocate.",
 ["histories", "inputs"], "every operation history of every container, deinitialized at any point of it, also with elements still contained",
 "check.c runs without an accounting heap and never deinitializes in the middle of a resize, so a leaked, doubly freed or wrongly sized segment in a rarely reached state is invisible.",
 ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommylist.h"],
 [("segments released with the offset adjusted", "tommyhashlin.c: tommy_hashlin_done"), ("shrink releases the last segment", "tommyhashlin.c: hashlin_shrink_step"), ("arrays of blocks", "tommyarrayblk.c: tommy_arrayblk_done")],
 None, ["calls of tommy_malloc/tommy_calloc/tommy_free", "memory accesses"], HOOK)

prop("C14", "Hash tables keep their load factor in the documented range",
 "The number of buckets of a hash table, as given by its memory usage, is always a power of two. The fixed table has the smallest one not less than the requested size (and than a fixed minimum) and never changes it. After every insert and remove the two resizing tables have at least 2 buckets for each element contained and, over their initial size of 16 for the dynamic and 64 for the linear one, no more than 8 for each element in the dynamic one and 16 in the linear one (which can be in the middle of a halving). Elements with consecutive hashes are spread evenly over all the buckets.",
 ["histories"], "every history of inserts and removes, with any count reached by any path",
 "Nothing in the tests reads the number of buckets: a table that never shrinks, or grows late, gives the same results.",
 ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytypes.h"],
 [("resize thresholds", "tommyhashdyn.c: hashdyn_grow_step, hashdyn_shrink_step; tommyhashlin.c: hashlin_grow_step, hashlin_shrink_step"), ("initial size", "tommyhashtbl.c: tommy_hashtable_init")],
 [("bucket_max", "number of buckets", "tommyhash*.h")],
 ["memory usage", "count"], HOOK)

prop("C15", "Linear hashtable insert and remove always do bounded work",
 "With keys well spread by their hash, every single insert and remove of the linear hashtable does an amount of work bounded by a constant independent of the number of elements contained. This holds in every phase, including when a progressive resize starts, ends, or is reversed in the other direction.",
 ["histories"], "every history of inserts and removes, at any size, with any switch of direction during a resize",
 "The tests only measure nothing or total times; the cost of the single worst operation of a history is not observed (and it was linear when reversing a shrink: see the fix).",
 ["tommyhashlin.c"],
 [("split target of the progressive resize", "tommyhashlin.c: hashlin_grow_step, hashlin_shrink_step")],
 [("split", "progress of the resize", "tommyhashlin.h")],
 ["number of basic blocks executed by each call"], HOOK)

prop("C16", "Reported memory usage is exact",
 "For every container the reported memory usage is always the heap memory it currently owns for its own structures plus the size of the nodes of the elements contained. For the trie the heap part is the inner nodes currently allocated from its allocator, so an empty trie reports zero and holds none of the blocks of the allocator; the fixed-size allocator reports its blocks in use.",
 ["histories"], "every operation history of every container",
 "check.c prints or ignores these values; equality with the heap in every state of every history is never checked.",
 ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommytree.h"],
 [("*_memory_usage functions", "all the containers"), ("node_count of the trie", "tommytrie.c: trie_bucket_insert, trie_bucket_remove_existing")],
 None, ["memory usage functions", "calls of tommy_malloc/tommy_calloc/tommy_free"], HOOK)

prop("C17", "Byte and string hashes are the specified functions of the bytes only",
 "The 32 and 64 bits hashes of a memory block are those of the published lookup3 functions for every content, length and initialization value, and the string hash is a fixed function of the initialization value and of the bytes before the terminator. They depend on nothing else: neither on the alignment or on the memory around the data, which is never read, nor on the platform specific path compiled.",
 ["inputs", "configurations"], "every byte content, every length, every initialization value, every alignment, every placement at the end of accessible memory",
 "check.c compares a few vectors at one alignment; over-reads and alignment or length dependent errors need all the residues of the length and guarded memory (an over-read of the string was there: see the fix).",
 ["tommyhash.c", "tommyhash.h", "tommytypes.h"],
 [("12 bytes rounds and tail switch", "tommyhash.c: tommy_hash_u32, tommy_hash_u64"), ("zero byte detection", "tommyhash.c: tommy_strhash_u32")],
 None, ["hash values", "memory accesses"], None)

prop("C18", "Integer hashes are the published functions and are reversible",
 "The 32 and 64 bits integer hashes compute the published functions they cite, and they are bijective: different inputs always have different results, and each possible result is reached.",
 ["inputs"], "all the 2^32 inputs of the 32 bits one; every input of the 64 bits one",
 "The tests compare a few hundred values with recorded ones; reversibility is a statement on all the pairs of inputs.",
 ["tommyhash.h"], [("sequence of invertible steps", "tommyhash.h: tommy_inthash_u32, tommy_inthash_u64")],
 None, ["hash values"], None)

prop("C19", "Bit functions are exact for every value",
 "For every non zero value the highest-bit and lowest-bit scans return the index of the highest and of the lowest bit set, and the rounding returns the smallest power of two not less than the value (when it is representable), for both the 32 and 64 bits versions. The zero byte test is true exactly for the words with at least one zero byte. The portable and the compiler specific implementations give the same results.",
 ["inputs", "configurations"], "all the 2^32 inputs of the 32 bits functions; every input of the 64 bits ones; compiler specific and portable paths",
 "These functions are only exercised through the containers, with small values and only in the compiler specific version.",
 ["tommytypes.h"], [("builtins and De Bruijn tables", "tommytypes.h: tommy_ilog2_u32, tommy_ctz_u32, tommy_roundup_pow2_u32, tommy_haszero_u32")],
 None, ["return values"], None)

prop("C20", "Iteration visits every element exactly once and allows to free it",
 "In any reachable state of the hash tables, lists and trees, iterating calls the function exactly once for each element contained and for nothing else, passing the given argument, whatever it is, and leaves the container unchanged. The function can release the element it receives, node included, without affecting the rest of the iteration. Trees are visited in order and lists from head to tail.",
 ["histories"], "every reachable state, including every step of a progressive resize, with callbacks that free and overwrite the elements",
 "check.c iterates on stable tables and counts the calls; visits in the middle of a resize and with elements overwritten and freed by the callback are not checked.",
 ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommylist.h", "tommytree.c"],
 [("next pointer read before the call", "tommy*_foreach functions"), ("number of valid buckets", "tommyhashlin.c: tommy_hashlin_foreach")],
 None, ["calls of the iteration function", "memory accesses"], HOOK)

prop("C21", "Containers sharing objects or an allocator are independent",
 "An object can be at the same time in any number of containers through different nodes, and operations on a container instance never change what any other instance contains or reports, also if they share the objects, the same allocator or are of the same type. It holds also if the operation on another instance is done inside a comparison or iteration function called by the first, and, for instances that share nothing, if they are done in different threads. Searches, misses and failed removes never change what any container contains, reports or owns.",
 ["histories"], "every interleaving and nesting of operations over several instances of all the container types, sharing objects and the trie allocator",
 "check.c uses a single instance at time and never shares an allocator between two tries with interleaved operations.",
 ["tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommylist.h", "tommyalloc.c"],
 [("all the state is in the container and in the node", "all the containers"), ("allocator shared by more tries", "tommytrie.h: tommy_trie_init")],
 None, ["complete observation of every instance after each operation"], None)

prop("C22", "Every operation does no more work than documented, at any size",
 "Whatever the history is, the work of a single operation doesn't grow with the number of elements for: every operation of lists but count, sort and iteration; inserts and removes of known elements of the fixed hashtable; searches and removes by key of hash tables, if the elements are not more than the buckets requested and different keys are spread on different buckets; every operation of tries, also with any number of equal keys; the access to an element of an array; counts and memory usages; allocations and deallocations of the fixed-size allocator, which get at most one segment. Any sequence of inserts and removes of a dynamic or linear hashtable, also going back and forth around a resize and also if all the keys are equal, and any sequence of grows and inserts of an array, does an amount of work proportional to its length and, once, to the size of the container. Inserts and searches of a tree do a logarithmic amount of work, and its removes at most the square of it. A sort takes O(N log N), and O(N) on ordered or reversed lists; an iteration, a list count and a deinitialization are linear.",
 ["histories", "inputs"], "every history of operations, adversarial ones included (alternating around the size that triggers a resize, equal keys, keys with common prefixes, ordered ones), at every number of elements",
 "check.c measures the time of a few monotone workloads and fails on none of them; asymptotic growth shows up only in histories that it doesn't run.",
 ["tommylist.h", "tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommyarray.c", "tommyarrayblk.c", "tommyalloc.c", "tommychain.h"],
 [("hysteresis of the thresholds", "tommyhashdyn.c: hashdyn_grow_step, hashdyn_shrink_step"), ("tail reached through the prev of the head", "tommylist.h: tommy_list_tail"), ("depth bounded by the bits of the key", "tommytrie.c: trie_bucket_insert"), ("segments of exponential size", "tommyarray.c: tommy_array_grow")],
 None, ["basic blocks executed in the library by each operation", "memory cleared or copied"], None)

prop("C23", "Reading never writes: any number of threads can read the same containers",
 "Searches, hits and misses, accesses to buckets, heads, tails, elements and positions, counts, memory usages and iterations don't write in the container, in its elements, in the objects or in the memory it owns, in every reachable state, also in the middle of a resize. So any number of threads can read the same containers at the same time, with no lock and no atomicity, if nobody changes them, and each thread gets exactly what it gets when it is alone; also hash and bit functions have no hidden state.",
 ["schedules", "histories"], "every interleaving of the accesses to memory of any number of readers, in every reachable state of every container",
 "Tests are single threaded, and a write in a read operation (a cache, a node moved to the front, a count kept lazily) gives there the same results.",
 ["tommyhashtbl.h", "tommyhashdyn.h", "tommyhashlin.h", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommylist.h", "tommyarray.h", "tommyarrayof.h", "tommyarrayblk.h", "tommyarrayblkof.h", "tommyhash.c", "tommytypes.h"],
 [("searches only walk", "tommyhashdyn.h: tommy_hashdyn_search; tommytrie.c: tommy_trie_bucket; tommytree.c: tommy_tree_search"), ("no state in the functions", "tommyhash.c, tommytypes.h")],
 None, ["writes to memory made read only", "what each concurrent reader sees"], None)

prop("C24", "A trie has exactly the inner nodes its keys need, whatever its history",
 "The inner nodes of a trie, and so the memory it gets from its allocator, are a function of the set of the different keys it contains: after any history of inserts and removes they are those of a trie made from scratch with the same keys in any order. There is one for each level at which different keys contained are still together: none if there are not different keys in the same first level, equal keys add none, and searches and removes that find nothing neither add nor release any. A remove releases all those needed only because of the key removed.",
 ["histories", "configurations"], "every history of inserts and removes, with keys that share prefixes of any length and any number of equal keys, and every documented number of branches",
 "check.c only verifies that a trie emptied has no inner node left; levels left or added in the middle of its life keep every result right.",
 ["tommytrie.c", "tommytrie.h"],
 [("expansion only down to where the keys differ", "tommytrie.c: trie_bucket_insert"), ("reduction going up", "tommytrie.c: trie_bucket_remove_existing")],
 None, ["memory of the allocator after each operation"], HOOK)

prop("C25", "Same behaviour in every build: compiler, options, asserts, C or C++",
 "All the guarantees hold, with the same results, however the library is compiled: as C or C++, by GCC or clang, with or without optimizations, with the asserts enabled or disabled by NDEBUG, with 32 or 64 bits, with char signed or unsigned, with the code specific of the platform or the portable one. Disabling the asserts removes no effect, and the results never depend on memory never written, like the parts of the nodes and of the containers that the user isn't required to initialize.",
 ["configurations", "inputs", "histories"], "every supported build, for every history of operations",
 "The tests are compiled only once: 64 bits, GCC, no optimization, asserts enabled. A side effect in an assert, a type with the wrong size for 32 bits or a value never written shows up only in another build.",
 ["tommytypes.h", "tommychain.h", "tommyhashtbl.c", "tommyhashdyn.c", "tommyhashlin.c", "tommytrie.c", "tommytrieinp.c", "tommytree.c", "tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c", "tommyhash.c"],
 [("asserts", "tommyhashlin.c, tommytrie.c, tommytrieinp.c, tommyalloc.c"), ("TOMMY_SIZE_BIT and the types of 32 and 64 bits", "tommytypes.h"), ("alternatives for GCC, MSVC and generic compilers", "tommytypes.h: tommy_ilog2, tommy_ctz; tommyhash.c: tommy_le_uint32_read")],
 None, ["complete observation of every container after each operation, in each build"], None)

prop("C26", "Arrays and the allocator take only the memory their growth needs",
 "The memory owned by an array of segments is at most that of its first segment of 64 elements, or less than twice that of the elements it contains if they are more, in a number of segments that grows as the logarithm of the size. An array of blocks owns only the blocks of 4096 elements needed for its size, all of the same dimension, and the segments of pointers to reach them. The fixed-size allocator owns the segments needed for the biggest number of blocks that have been in use at the same time, each one full of blocks but for its header and the alignment, and of a page unless a single block doesn't fit in it. This holds whatever grows, allocations and deallocations are done, in any order.",
 ["histories", "inputs"], "every history of grows and inserts up to more than 2^32 elements, every element size, every block and alignment size and every history of allocations and deallocations",
 "The tests only access the elements: memory taken and never used, a block or a segment too early, or segments partially carved change no result.",
 ["tommyarray.c", "tommyarrayof.c", "tommyarrayblk.c", "tommyarrayblkof.c", "tommyalloc.c"],
 [("segments of exponential size", "tommyarray.c: tommy_array_grow; tommyarrayof.c: tommy_arrayof_grow"), ("blocks of fixed size", "tommyarrayblk.c: tommy_arrayblk_grow; tommyarrayblkof.c: tommy_arrayblkof_grow"), ("carving of a segment", "tommyalloc.c: tommy_allocator_alloc")],
 None, ["bytes and blocks owned in the heap after each operation"], HOOK)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
