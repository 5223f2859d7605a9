------------------------------- MODULE MapBase -------------------------------
(* Common part of the implementation shaped specifications of the multimap   *)
(* containers: the keys, their hashes, the objects, and the binding with the *)
(* replay on the real code.                                                  *)
(*                                                                           *)
(* Keys are 1..Len(HashOf); HashOf[k] is the hash (or the integer key, for   *)
(* the tries); LayersOf[k] the number of objects available with key k.  An   *)
(* object is <<k, l>>.  Keys in Fillers are inserted only in increasing      *)
(* order and removed only in decreasing order: they exist to reach all the   *)
(* counts without multiplying the states.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS HashOf, LayersOf, Fillers, Emit

Keys == 1..Len(HashOf)
Objs == UNION {{<<k, l>> : l \in 1..LayersOf[k]} : k \in Keys}
Hash(o) == HashOf[o[1]]
Ran(s) == {s[i] : i \in DOMAIN s}
Without(s, o) == SelectSeq(s, LAMBDA x : x # o)

(* Projection of a list of objects on one key: the sequence of the layers. *)
LayersIn(s, k) == LET f == SelectSeq(s, LAMBDA x : x[1] = k) IN [i \in 1..Len(f) |-> f[i][2]]

MayInsert(o, present) ==
    /\ o \notin present
    /\ o[1] \in Fillers => \A p \in Fillers : p < o[1] => <<p, 1>> \in present
MayRemove(o, present) ==
    /\ o \in present
    /\ o[1] \in Fillers => \A p \in Fillers : p > o[1] => <<p, 1>> \notin present

(* Bitwise and with 2^b - 1, and test of bit b. *)
Low(h, b) == h % (2 ^ b)
TestBit(h, b) == (h \div (2 ^ b)) % 2 = 1

(* Lines for the replay: the identity of a state is a pair of fingerprints. *)
Id(s) == <<TLCFP(s), TLCFP(<<"x", s>>)>>
EmitState(vars, obs) == Emit => PrintT("@S " \o ToString(Id(vars)) \o " " \o ToString(obs))
EmitEdge(vars, op, varsn) == Emit => PrintT("@E " \o ToString(Id(vars)) \o " " \o ToString(op) \o " " \o ToString(Id(varsn)))
=============================================================================
