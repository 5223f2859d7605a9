----------------------------- MODULE TrieInplace -----------------------------
(* The in-place trie, as tommytrieinp.c implements it: the first element of  *)
(* each list of equal keys is also an inner node, with the pointers to its   *)
(* children.  Removing it, its place is taken by the next element of the     *)
(* list, or by the last leaf under it.                                       *)
EXTENDS MapBase

CONSTANTS KeyBit, TreeBit \* TOMMY_TRIE_INPLACE_BIT, TOMMY_TRIE_INPLACE_TREE_BIT

VARIABLES bucket, cnt,
          op \* last operation, <<code, key, layer, result>>; not part of the state (VIEW)

vars == <<bucket, cnt>>

BucketBit == (KeyBit % TreeBit) + 3 * TreeBit
Shift == KeyBit - BucketBit
Slots == 0..(2 ^ TreeBit - 1)
Nil == [l |-> <<>>]
Node(s, m) == [l |-> s, m |-> m]
IsNil(p) == p.l = <<>>
Empty == [i \in Slots |-> Nil]
Slot(key, shift) == (key \div (2 ^ shift)) % (2 ^ TreeBit)
Top(key) == key \div (2 ^ Shift)
Buckets == {Top(HashOf[k]) : k \in Keys}
KeyOf(p) == Hash(p.l[1])

RECURSIVE Ins(_, _, _)
Ins(p, o, shift) ==
    IF IsNil(p) THEN Node(<<o>>, Empty)
    ELSE IF KeyOf(p) = Hash(o) THEN Node(Append(p.l, o), p.m)
    ELSE Node(p.l, [p.m EXCEPT ![Slot(Hash(o), shift)] = Ins(@, o, shift - TreeBit)])

(* The leaf found going always in the last used slot: its list and the tree without it. *)
LastSlot(p) == LET used == {i \in Slots : ~ IsNil(p.m[i])} IN CHOOSE i \in used : \A j \in used : j <= i
IsLeaf(p) == \A i \in Slots : IsNil(p.m[i])
RECURSIVE TakeLeaf(_)
TakeLeaf(p) == \* p has at least a child
    LET i == LastSlot(p)
    IN IF IsLeaf(p.m[i]) THEN <<p.m[i].l, Node(p.l, [p.m EXCEPT ![i] = Nil])>>
       ELSE LET r == TakeLeaf(p.m[i]) IN <<r[1], Node(p.l, [p.m EXCEPT ![i] = r[2]])>>

RECURSIVE Rem(_, _, _)
Rem(p, o, shift) ==
    IF KeyOf(p) = Hash(o)
    THEN LET s == Without(p.l, o)
         IN IF s # <<>> THEN Node(s, p.m)
            ELSE IF IsLeaf(p) THEN Nil
            ELSE LET r == TakeLeaf(p) IN Node(r[1], r[2].m)
    ELSE Node(p.l, [p.m EXCEPT ![Slot(Hash(o), shift)] = Rem(@, o, shift - TreeBit)])

RECURSIVE Find(_, _, _)
Find(p, key, shift) ==
    IF IsNil(p) THEN <<>>
    ELSE IF KeyOf(p) = key THEN p.l
    ELSE Find(p.m[Slot(key, shift)], key, shift - TreeBit)

Bucket(key) == Find(bucket[Top(key)], key, Shift)

RECURSIVE ObjsOf(_)
ObjsOf(p) == IF IsNil(p) THEN {} ELSE Ran(p.l) \cup UNION {ObjsOf(p.m[i]) : i \in Slots}
Contained == UNION {ObjsOf(bucket[b]) : b \in Buckets}

-----------------------------------------------------------------------------
Init == /\ bucket = [b \in Buckets |-> Nil]
        /\ cnt = 0
        /\ op = <<>>

Insert(o) ==
    /\ MayInsert(o, Contained)
    /\ bucket' = [bucket EXCEPT ![Top(Hash(o))] = Ins(@, o, Shift)]
    /\ cnt' = cnt + 1
    /\ op' = <<1, o[1], o[2], o[2]>>

Unlink(o) == bucket' = [bucket EXCEPT ![Top(Hash(o))] = Rem(@, o, Shift)] /\ cnt' = cnt - 1

RemoveKey(k) ==
    LET f == Bucket(HashOf[k])
    IN IF f = <<>>
       THEN UNCHANGED vars /\ op' = <<2, k, 0, 0>>
       ELSE MayRemove(f[1], Contained) /\ Unlink(f[1]) /\ op' = <<2, k, 0, f[1][2]>>

RemoveExisting(o) == MayRemove(o, Contained) /\ Unlink(o) /\ op' = <<3, o[1], o[2], o[2]>>

Next == \/ \E o \in Objs : Insert(o) \/ RemoveExisting(o)
        \/ \E k \in Keys : RemoveKey(k)

Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
Obs == [k \in Keys |-> LayersIn(Bucket(HashOf[k]), k)]
MM == INSTANCE Multimap WITH mm <- Obs
Refines == MM!Init(Keys) /\ [][MM!StepOf(op', Obs, Obs')]_<<vars, op>>

OnlyOK == \A k \in Keys : Len(Bucket(HashOf[k])) = Len(Obs[k])
CountOK == cnt = Cardinality(Contained)
PlacedOK == Contained = UNION {{<<k, Obs[k][i]>> : i \in 1..Len(Obs[k])} : k \in Keys}

(* Every element is under the slots of its key, no key is in two nodes, and there are enough bits. *)
RECURSIVE Good(_, _)
Good(p, shift) == IsNil(p) \/
    /\ \A o \in Ran(p.l) : Hash(o) = KeyOf(p)
    /\ ~ IsLeaf(p) => shift >= 0
    /\ \A i \in Slots : /\ \A o \in ObjsOf(p.m[i]) : Slot(Hash(o), shift) = i /\ Hash(o) # KeyOf(p)
                        /\ Good(p.m[i], shift - TreeBit)
ShapeOK == \A b \in Buckets : Good(bucket[b], Shift) /\ \A o \in ObjsOf(bucket[b]) : Top(Hash(o)) = b

View == vars
EmitS == EmitState(vars, Obs)
EmitE == EmitEdge(vars, op', vars')
=============================================================================
