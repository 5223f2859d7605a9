------------------------------ MODULE MultiOps -------------------------------
(* Many containers at the same time, holding the same objects through        *)
(* different nodes.  The content of an instance is a sequence of objects: in *)
(* order for the lists and the arrays, in order of insertion for the others. *)
(* Operations are <<code, instance, argument>>:                              *)
(*   1 insert (at the tail, append), 2 remove the object, 3 remove by key,   *)
(*   4 search by key, 5 insert at the head, 6 move all from another list,    *)
(*   7 sort, 8 iterate, 9 deinitialize and initialize again, 10 change the   *)
(*   first slot of an array, 11 deinitialize the second allocator.           *)
(* The allocator kind holds blocks obtained directly from the first          *)
(* allocator, that is the one of the tries of kind "trie".                   *)
EXTENDS Integers, Sequences, FiniteSets

Lists == {"list"}
Trees == {"tree"}
Hashes == {"hashtable", "hashdyn", "hashlin"}
Tries == {"trie", "trie2", "trieinp"}
Maps == Hashes \cup Tries
Arrays == {"array", "arrayof", "arrayblk", "arrayblkof"}
Pools == {"alloc"}

Has(s, o) == \E i \in DOMAIN s : s[i] = o
Drop(s, o) == SelectSeq(s, LAMBDA x : x # o)
OfKey(s, key, k) == SelectSeq(s, LAMBDA o : key[o] = k)
First(s, key, k) == LET f == OfKey(s, key, k) IN IF f = <<>> THEN 0 ELSE f[1]
RECURSIVE SortedBy(_, _, _, _)
SortedBy(s, key, k, n) == IF k > n THEN <<>> ELSE OfKey(s, key, k) \o SortedBy(s, key, k + 1, n)

(* What has to be seen of an instance: for the maps the elements of each key, in order of key. *)
View1(kind, s, key, n) == IF kind \in Maps \cup Trees THEN SortedBy(s, key, 1, n) ELSE s

(* Allowed operations. *)
May(kind, s, key, o) ==
   CASE o[1] = 1 -> ~Has(s, o[3]) \/ kind \in Arrays
     [] o[1] = 2 -> Has(s, o[3]) /\ kind \notin Arrays
     [] o[1] \in {3, 4} -> kind \in Maps \cup Trees
     [] o[1] = 5 -> kind \in Lists /\ ~Has(s, o[3])
     [] o[1] = 6 -> kind \in Lists
     [] o[1] = 7 -> kind \in Lists
     [] o[1] = 8 -> kind \in Lists \cup Trees \cup Hashes
     [] o[1] = 9 -> kind \notin {"trie", "trie2", "alloc"}
     [] o[1] = 10 -> kind \in Arrays /\ s # <<>>
     [] OTHER -> TRUE

(* Content after an operation on it, and result of the operation. *)
After(kind, s, key, n, o) ==
   CASE o[1] = 1 -> IF kind \in Trees /\ OfKey(s, key, key[o[3]]) # <<>> THEN s ELSE Append(s, o[3])
     [] o[1] = 2 -> Drop(s, o[3])
     [] o[1] = 3 -> Drop(s, First(s, key, o[3]))
     [] o[1] = 5 -> <<o[3]>> \o s
     [] o[1] = 7 -> SortedBy(s, key, 1, n)
     [] o[1] \in {9, 11} -> <<>>
     [] o[1] = 10 -> [s EXCEPT ![1] = o[3]]
     [] OTHER -> s
Result(kind, s, key, o) ==
   CASE o[1] = 1 -> IF kind \in Trees /\ OfKey(s, key, key[o[3]]) # <<>> THEN First(s, key, key[o[3]]) ELSE o[3]
     [] o[1] = 2 -> o[3]
     [] o[1] \in {3, 4} -> First(s, key, o[3])
     [] OTHER -> 0
(* All the instances after an operation. *)
Touched(kinds, o) == IF o[1] = 11 THEN {i \in DOMAIN kinds : kinds[i] = "trie2"}
                     ELSE IF o[1] = 6 THEN {o[2], o[3]} ELSE {o[2]}
Changes(o) == o[1] \notin {4, 8}
Apply(kinds, c, key, n, o) ==
   [i \in DOMAIN kinds |->
      IF o[1] = 6 THEN IF i = o[2] THEN c[i] \o c[o[3]] ELSE IF i = o[3] THEN <<>> ELSE c[i]
      ELSE IF i \in Touched(kinds, o) THEN After(kinds[i], c[i], key, n, o) ELSE c[i]]
=============================================================================
