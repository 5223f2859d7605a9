------------------------------- MODULE HashDyn -------------------------------
(* The dynamic hashtable, as tommyhashdyn.c implements it: the vector of     *)
(* buckets is doubled or halved as a whole inside the insert or the remove   *)
(* that reaches the threshold.                                               *)
EXTENDS MapBase

CONSTANT Bit \* TOMMY_HASHDYN_BIT

VARIABLES bucket, bit, cnt,
          op \* last operation, <<code, key, layer, result>>; not part of the state (VIEW)

vars == <<bucket, bit, cnt>>

State == [bucket |-> bucket, bit |-> bit, cnt |-> cnt]
Pos(h) == h % (2 ^ bit)
Contained == UNION {Ran(bucket[p]) : p \in DOMAIN bucket}

(* tommy_hashdyn_resize, up *)
Double(S) == LET max == 2 ^ S.bit
                 High(o) == (Hash(o) \div max) % 2 = 1
             IN [S EXCEPT !.bit = @ + 1,
                          !.bucket = [p \in 0..(2 * max - 1) |->
                                        IF p < max THEN SelectSeq(S.bucket[p], LAMBDA o : ~ High(o))
                                        ELSE SelectSeq(S.bucket[p - max], High)]]
(* tommy_hashdyn_resize, down *)
Halve(S) == LET max == 2 ^ (S.bit - 1)
            IN [S EXCEPT !.bit = @ - 1,
                         !.bucket = [p \in 0..(max - 1) |-> S.bucket[p] \o S.bucket[p + max]]]

GrowStep(S) == IF S.cnt >= (2 ^ S.bit) \div 2 THEN Double(S) ELSE S
ShrinkStep(S) == IF S.cnt <= (2 ^ S.bit) \div 8 /\ S.bit > Bit THEN Halve(S) ELSE S

Become(S) == bucket' = S.bucket /\ bit' = S.bit /\ cnt' = S.cnt

Init == /\ bucket = [p \in 0..(2 ^ Bit - 1) |-> <<>>]
        /\ bit = Bit
        /\ cnt = 0
        /\ op = <<>>

Insert(o) ==
    /\ MayInsert(o, Contained)
    /\ Become(GrowStep([State EXCEPT !.bucket = [@ EXCEPT ![Pos(Hash(o))] = Append(@, o)], !.cnt = @ + 1]))
    /\ op' = <<1, o[1], o[2], o[2]>>

Unlink(o) == Become(ShrinkStep([State EXCEPT !.bucket = [@ EXCEPT ![Pos(Hash(o))] = Without(@, o)], !.cnt = @ - 1]))

RemoveKey(k) ==
    LET f == SelectSeq(bucket[Pos(HashOf[k])], LAMBDA x : x[1] = k)
    IN IF f = <<>>
       THEN UNCHANGED vars /\ op' = <<2, k, 0, 0>>
       ELSE MayRemove(f[1], Contained) /\ Unlink(f[1]) /\ op' = <<2, k, 0, f[1][2]>>

RemoveExisting(o) == MayRemove(o, Contained) /\ Unlink(o) /\ op' = <<3, o[1], o[2], o[2]>>

Next == \/ \E o \in Objs : Insert(o) \/ RemoveExisting(o)
        \/ \E k \in Keys : RemoveKey(k)

Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
Obs == [k \in Keys |-> LayersIn(bucket[Pos(HashOf[k])], k)]
MM == INSTANCE Multimap WITH mm <- Obs
Refines == MM!Init(Keys) /\ [][MM!StepOf(op', Obs, Obs')]_<<vars, op>>

TypeOK == bit >= Bit /\ DOMAIN bucket = 0..(2 ^ bit - 1) /\ cnt = Cardinality(Contained)
PlacedOK == \A p \in DOMAIN bucket : \A i \in 1..Len(bucket[p]) :
              /\ Pos(Hash(bucket[p][i])) = p
              /\ \A j \in 1..Len(bucket[p]) : bucket[p][i] = bucket[p][j] => i = j
IterationOK == Contained = UNION {{<<k, Obs[k][i]>> : i \in 1..Len(Obs[k])} : k \in Keys}
SizeOK == 2 ^ bit >= 2 * cnt /\ (bit > Bit => 2 ^ bit <= 8 * cnt)

View == vars
EmitS == EmitState(vars, Obs)
EmitE == EmitEdge(vars, op', vars')
=============================================================================
