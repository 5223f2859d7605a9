------------------------------ MODULE HashTable ------------------------------
(* The fixed size hashtable, as tommyhashtbl.c implements it.                *)
EXTENDS MapBase

CONSTANT Size \* requested number of buckets

VARIABLES bucket, cnt,
          op \* last operation, <<code, key, layer, result>>; not part of the state (VIEW)

vars == <<bucket, cnt>>

RECURSIVE RoundUp(_, _)
RoundUp(x, p) == IF p >= x THEN p ELSE RoundUp(x, 2 * p)
Max == RoundUp(IF Size < 16 THEN 16 ELSE Size, 1)
Pos(h) == h % Max
Contained == UNION {Ran(bucket[p]) : p \in 0..(Max - 1)}

Init == /\ bucket = [p \in 0..(Max - 1) |-> <<>>]
        /\ cnt = 0
        /\ op = <<>>

Insert(o) ==
    /\ MayInsert(o, Contained)
    /\ bucket' = [bucket EXCEPT ![Pos(Hash(o))] = Append(@, o)]
    /\ cnt' = cnt + 1
    /\ op' = <<1, o[1], o[2], o[2]>>

Unlink(o) == bucket' = [bucket EXCEPT ![Pos(Hash(o))] = Without(@, o)] /\ cnt' = cnt - 1

RemoveKey(k) ==
    LET f == SelectSeq(bucket[Pos(HashOf[k])], LAMBDA x : x[1] = k)
    IN IF f = <<>>
       THEN UNCHANGED vars /\ op' = <<2, k, 0, 0>>
       ELSE MayRemove(f[1], Contained) /\ Unlink(f[1]) /\ op' = <<2, k, 0, f[1][2]>>

RemoveExisting(o) == MayRemove(o, Contained) /\ Unlink(o) /\ op' = <<3, o[1], o[2], o[2]>>

Next == \/ \E o \in Objs : Insert(o) \/ RemoveExisting(o)
        \/ \E k \in Keys : RemoveKey(k)

Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
Obs == [k \in Keys |-> LayersIn(bucket[Pos(HashOf[k])], k)]
MM == INSTANCE Multimap WITH mm <- Obs
Refines == MM!Init(Keys) /\ [][MM!StepOf(op', Obs, Obs')]_<<vars, op>>

TypeOK == DOMAIN bucket = 0..(Max - 1) /\ cnt = Cardinality(Contained)
PlacedOK == \A p \in 0..(Max - 1) : \A i \in 1..Len(bucket[p]) :
              /\ Pos(Hash(bucket[p][i])) = p
              /\ \A j \in 1..Len(bucket[p]) : bucket[p][i] = bucket[p][j] => i = j
IterationOK == Contained = UNION {{<<k, Obs[k][i]>> : i \in 1..Len(Obs[k])} : k \in Keys}
SizeOK == Max >= Size /\ Max >= 16 /\ (Max = 16 \/ Max < 2 * Size) /\ \E b \in 0..30 : Max = 2 ^ b

View == vars
EmitS == EmitState(vars, Obs)
EmitE == EmitEdge(vars, op', vars')
=============================================================================
