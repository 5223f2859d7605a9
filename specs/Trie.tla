-------------------------------- MODULE Trie --------------------------------
(* The trie, as tommytrie.c implements it.                                   *)
(*                                                                           *)
(* A pointer is Nil, a List of elements with the same key, or a Tree of      *)
(* 2^TreeBit pointers.  A list is replaced by a tree only when a different   *)
(* key falls in the same place (expansion), and a tree with a single list is *)
(* replaced by the list (reduction).  Trees are blocks of the allocator.     *)
EXTENDS MapBase

CONSTANTS KeyBit, TreeBit \* TOMMY_TRIE_BIT, TOMMY_TRIE_TREE_BIT

VARIABLES bucket, cnt,
          nodes, \* node_count
          op     \* last operation, <<code, key, layer, result>>; not part of the state (VIEW)

vars == <<bucket, cnt, nodes>>

BucketBit == (KeyBit % TreeBit) + TreeBit
Shift == KeyBit - BucketBit
Nil == [t |-> 0]
List(s) == [t |-> 1, l |-> s]
Tree(m) == [t |-> 2, m |-> m]
Slots == 0..(2 ^ TreeBit - 1)
Empty == [i \in Slots |-> Nil]
Slot(key, shift) == (key \div (2 ^ shift)) % (2 ^ TreeBit)
Top(key) == key \div (2 ^ Shift)
Buckets == {Top(HashOf[k]) : k \in Keys} \* the others are never touched
KeyOf(p) == Hash(p.l[1])

RECURSIVE Expand(_, _, _)
Expand(list, o, shift) == \* list has a key different than o
    LET i == Slot(KeyOf(list), shift)
        j == Slot(Hash(o), shift)
    IN IF i # j THEN Tree([Empty EXCEPT ![i] = list, ![j] = List(<<o>>)])
       ELSE Tree([Empty EXCEPT ![i] = Expand(list, o, shift - TreeBit)])

RECURSIVE Ins(_, _, _)
Ins(p, o, shift) ==
    CASE p.t = 0 -> List(<<o>>)
      [] p.t = 2 -> Tree([p.m EXCEPT ![Slot(Hash(o), shift)] = Ins(@, o, shift - TreeBit)])
      [] OTHER -> IF KeyOf(p) = Hash(o) THEN List(Append(p.l, o)) ELSE Expand(p, o, shift)

(* A tree with a single child, that is a list, becomes that list. *)
Reduce(p) == LET used == {i \in Slots : p.m[i].t # 0}
             IN IF Cardinality(used) = 1 /\ \A i \in used : p.m[i].t = 1 THEN p.m[CHOOSE i \in used : TRUE] ELSE p

(* The reduction goes up as long as a level is reduced, that is only if a list disappeared. *)
RECURSIVE Rem(_, _, _)
Rem(p, o, shift) ==
    IF p.t = 1 THEN LET s == Without(p.l, o) IN IF s = <<>> THEN Nil ELSE List(s)
    ELSE LET i == Slot(Hash(o), shift)
             c == Rem(p.m[i], o, shift - TreeBit)
             n == Tree([p.m EXCEPT ![i] = c])
         IN IF c.t # p.m[i].t THEN Reduce(n) ELSE n

RECURSIVE Find(_, _, _)
Find(p, key, shift) ==
    CASE p.t = 0 -> <<>>
      [] p.t = 1 -> IF KeyOf(p) = key THEN p.l ELSE <<>>
      [] OTHER -> Find(p.m[Slot(key, shift)], key, shift - TreeBit)

Bucket(key) == Find(bucket[Top(key)], key, Shift)

RECURSIVE TreesOf(_)
TreesOf(p) == IF p.t # 2 THEN 0
              ELSE LET F[i \in 0..(2 ^ TreeBit)] == IF i = 0 THEN 1 ELSE F[i - 1] + TreesOf(p.m[i - 1]) IN F[2 ^ TreeBit]

RECURSIVE ObjsOf(_)
ObjsOf(p) == CASE p.t = 0 -> {}
               [] p.t = 1 -> Ran(p.l)
               [] OTHER -> UNION {ObjsOf(p.m[i]) : i \in Slots}
Contained == UNION {ObjsOf(bucket[b]) : b \in Buckets}

-----------------------------------------------------------------------------
Init == /\ bucket = [b \in Buckets |-> Nil]
        /\ cnt = 0
        /\ nodes = 0
        /\ op = <<>>

Update(b, p) == /\ bucket' = [bucket EXCEPT ![b] = p]
                /\ nodes' = nodes + TreesOf(p) - TreesOf(bucket[b])

Insert(o) ==
    /\ MayInsert(o, Contained)
    /\ Update(Top(Hash(o)), Ins(bucket[Top(Hash(o))], o, Shift))
    /\ cnt' = cnt + 1
    /\ op' = <<1, o[1], o[2], o[2]>>

Unlink(o) == Update(Top(Hash(o)), Rem(bucket[Top(Hash(o))], o, Shift)) /\ cnt' = cnt - 1

RemoveKey(k) ==
    LET f == Bucket(HashOf[k])
    IN IF f = <<>>
       THEN UNCHANGED vars /\ op' = <<2, k, 0, 0>>
       ELSE MayRemove(f[1], Contained) /\ Unlink(f[1]) /\ op' = <<2, k, 0, f[1][2]>>

RemoveExisting(o) == MayRemove(o, Contained) /\ Unlink(o) /\ op' = <<3, o[1], o[2], o[2]>>

Next == \/ \E o \in Objs : Insert(o) \/ RemoveExisting(o)
        \/ \E k \in Keys : RemoveKey(k)

Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
Obs == [k \in Keys |-> LayersIn(Bucket(HashOf[k]), k)]
MM == INSTANCE Multimap WITH mm <- Obs
Refines == MM!Init(Keys) /\ [][MM!StepOf(op', Obs, Obs')]_<<vars, op>>

(* The bucket of a key has ONLY elements of the key. *)
OnlyOK == \A k \in Keys : Len(Bucket(HashOf[k])) = Len(Obs[k])
CountOK == cnt = Cardinality(Contained)
PlacedOK == Contained = UNION {{<<k, Obs[k][i]>> : i \in 1..Len(Obs[k])} : k \in Keys}

(* The shape depends only on the content: every tree is there because of two different keys, and *)
(* no level is deeper than the bits of the key. *)
RECURSIVE Minimal(_, _)
Minimal(p, shift) == p.t = 2 => /\ shift >= 0
                                /\ Cardinality({Hash(o) : o \in ObjsOf(p)}) >= 2
                                /\ \A i \in Slots : Minimal(p.m[i], shift - TreeBit)
ShapeOK == \A b \in Buckets : Minimal(bucket[b], Shift)
(* The inner nodes are as many as the prefixes, of the length of a level, that different keys have in common. *)
(* The first level of a bucket looks again at the last bits of the number of the bucket, so it has only one   *)
(* child that is always a tree, if there is not a single key: it counts twice.                                *)
Levels == 0..(Shift \div TreeBit)
Prefixes(i) == {HashOf[k] \div (2 ^ (Shift - TreeBit * i)) : k \in {x \in Keys : Obs[x] # <<>>}}
SharedAt(i) == {p \in Prefixes(i) : \E a, b \in Keys : /\ Obs[a] # <<>> /\ Obs[b] # <<>> /\ HashOf[a] # HashOf[b]
                                                      /\ HashOf[a] \div (2 ^ (Shift - TreeBit * i)) = p
                                                      /\ HashOf[b] \div (2 ^ (Shift - TreeBit * i)) = p}
NodesOK == LET F[i \in -1..(Shift \div TreeBit)] == IF i = -1 THEN Cardinality(SharedAt(0)) ELSE F[i - 1] + Cardinality(SharedAt(i))
           IN nodes = F[Shift \div TreeBit]
(* Memory reported *)
UsageOK == LET RECURSIVE Sum(_)
               Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN TreesOf(bucket[b]) + Sum(S \ {b})
           IN nodes = Sum(Buckets) /\ (cnt = 0 => nodes = 0)

View == vars
EmitS == EmitState(vars, Append(Obs, <<nodes>>)) \* the number of inner nodes is observable too
EmitE == EmitEdge(vars, op', vars')
=============================================================================
