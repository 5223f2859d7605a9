------------------------------ MODULE Multimap ------------------------------
(* What a user of any of the five multimap containers (hashtable, hashdyn,   *)
(* hashlin, trie, trie_inplace) relies on: a map from keys to the sequence   *)
(* of the objects inserted with that key and not yet removed, the oldest     *)
(* first.  Objects are unique: an object is inserted with one key only.      *)
(*                                                                           *)
(* The implementation shaped specifications (HashTable, HashDyn, HashLin,    *)
(* Trie, TrieInplace) refine this one, and the traces recorded from the real *)
(* code are validated against it (TraceMap).                                 *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLE mm

Range(s) == {s[i] : i \in DOMAIN s}

(* Pure part, used also by the trace specifications. *)
MInsert(m, k, o) == [m EXCEPT ![k] = Append(@, o)]
MRemoveFirst(m, k) == IF m[k] = <<>> THEN m ELSE [m EXCEPT ![k] = Tail(@)]
MRemove(m, k, o) == [m EXCEPT ![k] = SelectSeq(@, LAMBDA x : x # o)]
MFirst(m, k) == IF m[k] = <<>> THEN 0 ELSE Head(m[k])
MHas(m, k, o) == o \in Range(m[k])

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
MCount(m) == SumOver([k \in DOMAIN m |-> Len(m[k])], DOMAIN m)

(* State machine. *)
Insert(k, o) == ~ MHas(mm, k, o) /\ mm' = MInsert(mm, k, o)
RemoveKey(k) == mm' = MRemoveFirst(mm, k)
RemoveObject(k, o) == MHas(mm, k, o) /\ mm' = MRemove(mm, k, o)

Init(K) == mm = [k \in K |-> <<>>]
Next(K, O) == \E k \in K : \/ RemoveKey(k)
                           \/ \E o \in O : Insert(k, o) \/ RemoveObject(k, o)

(* The step of one labelled operation <<code, key, object, result>>: a specification refining *)
(* this one says also which operation each of its steps is, and its result. *)
StepOf(o, m, m2) ==
    CASE o[1] = 1 -> ~ MHas(m, o[2], o[3]) /\ m2 = MInsert(m, o[2], o[3]) /\ o[4] = o[3]
      [] o[1] = 2 -> m2 = MRemoveFirst(m, o[2]) /\ o[4] = MFirst(m, o[2])
      [] OTHER -> MHas(m, o[2], o[3]) /\ m2 = MRemove(m, o[2], o[3]) /\ o[4] = o[3]
=============================================================================
