------------------------------- MODULE HashLin -------------------------------
(* The linear hashtable, as tommyhashlin.c implements it.                    *)
(*                                                                           *)
(* One action for each public call; the loops of the progressive resize are  *)
(* the recursive operators GrowLoop and ShrinkLoop.  The vector of buckets   *)
(* is a function whose domain is the set of the allocated positions: a new   *)
(* segment is not initialized, and holds Garbage until it's split into.      *)
EXTENDS MapBase

CONSTANT Bit \* TOMMY_HASHLIN_BIT

VARIABLES bucket, bit, low, split, st, cnt,
          op \* last operation, <<code, key, layer, result, splits, merges>>; not part of the state (VIEW)

vars == <<bucket, bit, low, split, st, cnt>>

Garbage == <<<<0, 0>>>>
Max == 2 ^ bit

Stable(S) == [S EXCEPT !.st = "stable", !.low = 2 ^ S.bit, !.split = 0]

State == [bucket |-> bucket, bit |-> bit, low |-> low, split |-> split, st |-> st, cnt |-> cnt, splits |-> 0, merges |-> 0]

(* tommy_hashlin_bucket_ref; low_mask is low - 1, bucket_mask is 2^bit - 1 *)
PosIn(S, h) == LET p == h % S.low IN IF p < S.split THEN h % (2 ^ S.bit) ELSE p

-----------------------------------------------------------------------------
SplitOne(S) ==
    LET lo == S.split
        hi == S.split + S.low
        list == S.bucket[lo]
        HighBit(o) == (Hash(o) \div S.low) % 2 = 1
    IN [S EXCEPT !.bucket = [@ EXCEPT ![lo] = SelectSeq(list, LAMBDA o : ~ HighBit(o)),
                                      ![hi] = SelectSeq(list, HighBit)],
                 !.split = @ + 1,
                 !.splits = @ + 1]

RECURSIVE GrowLoop(_)
GrowLoop(S) ==
    IF S.split + S.low < 2 * S.cnt
    THEN LET S2 == SplitOne(S)
         IN IF S2.split = S2.low THEN Stable(S2) ELSE GrowLoop(S2)
    ELSE S

GrowStep(S) ==
    LET Start == [S EXCEPT !.low = 2 ^ S.bit,
                           !.bucket = [p \in 0..(2 ^ (S.bit + 1) - 1) |-> IF p < 2 ^ S.bit THEN S.bucket[p] ELSE Garbage],
                           !.bit = S.bit + 1,
                           !.split = 0]
        S1 == IF S.st # "grow" /\ S.cnt > (S.low + S.split) \div 2
              THEN [(IF S.st = "stable" THEN Start ELSE S) EXCEPT !.st = "grow"]
              ELSE S
    IN IF S1.st = "grow" THEN GrowLoop(S1) ELSE S1

MergeOne(S) ==
    LET lo == S.split - 1
        hi == lo + S.low
    IN [S EXCEPT !.bucket = [@ EXCEPT ![lo] = @ \o S.bucket[hi], ![hi] = Garbage],
                 !.split = lo,
                 !.merges = @ + 1]

RECURSIVE ShrinkLoop(_)
ShrinkLoop(S) ==
    IF S.split + S.low > 8 * S.cnt
    THEN LET S2 == MergeOne(S)
         IN IF S2.split = 0
            THEN Stable([S2 EXCEPT !.bit = @ - 1, !.bucket = [p \in 0..(2 ^ (S2.bit - 1) - 1) |-> S2.bucket[p]]])
            ELSE ShrinkLoop(S2)
    ELSE S

ShrinkStep(S) ==
    LET Start == [S EXCEPT !.low = 2 ^ (S.bit - 1), !.split = 2 ^ (S.bit - 1)]
        S1 == IF S.st # "shrink" /\ S.cnt < (2 ^ S.bit) \div 8 /\ S.bit > Bit
              THEN [(IF S.st = "stable" THEN Start ELSE S) EXCEPT !.st = "shrink"]
              ELSE S
    IN IF S1.st = "shrink" THEN ShrinkLoop(S1) ELSE S1

Become(S) == /\ bucket' = S.bucket
             /\ bit' = S.bit
             /\ low' = S.low
             /\ split' = S.split
             /\ st' = S.st
             /\ cnt' = S.cnt

-----------------------------------------------------------------------------
Used == 0..(low + split - 1)
Contained == UNION {Ran(bucket[p]) : p \in Used}

Init == /\ bucket = [p \in 0..(2 ^ Bit - 1) |-> <<>>]
        /\ bit = Bit
        /\ low = 2 ^ Bit
        /\ split = 0
        /\ st = "stable"
        /\ cnt = 0
        /\ op = <<>>

Insert(o) ==
    /\ MayInsert(o, Contained)
    /\ LET p == PosIn(State, Hash(o))
           S == GrowStep([State EXCEPT !.bucket = [@ EXCEPT ![p] = Append(@, o)], !.cnt = @ + 1])
       IN Become(S) /\ op' = <<1, o[1], o[2], o[2], S.splits, S.merges>>

Unlink(p, o) == ShrinkStep([State EXCEPT !.bucket = [@ EXCEPT ![p] = Without(@, o)], !.cnt = @ - 1])

(* tommy_hashlin_remove: the first of the bucket with the key *)
RemoveKey(k) ==
    LET p == PosIn(State, HashOf[k])
        f == SelectSeq(bucket[p], LAMBDA x : x[1] = k)
    IN IF f = <<>>
       THEN UNCHANGED vars /\ op' = <<2, k, 0, 0, 0, 0>>
       ELSE /\ MayRemove(f[1], Contained)
            /\ LET S == Unlink(p, f[1]) IN Become(S) /\ op' = <<2, k, 0, f[1][2], S.splits, S.merges>>

(* tommy_hashlin_remove_existing *)
RemoveExisting(o) ==
    /\ MayRemove(o, Contained)
    /\ LET S == Unlink(PosIn(State, Hash(o)), o) IN Become(S) /\ op' = <<3, o[1], o[2], o[2], S.splits, S.merges>>

Next == \/ \E o \in Objs : Insert(o) \/ RemoveExisting(o)
        \/ \E k \in Keys : RemoveKey(k)

Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
(* What the user sees of each key. *)
Obs == [k \in Keys |-> LayersIn(bucket[PosIn(State, HashOf[k])], k)]
MM == INSTANCE Multimap WITH mm <- Obs
Refines == MM!Init(Keys) /\ [][MM!StepOf(op', Obs, Obs')]_<<vars, op>>

TypeOK == /\ bit >= Bit
          /\ DOMAIN bucket = 0..(Max - 1)
          /\ st = "stable" => low = Max /\ split = 0
          /\ st # "stable" => low = Max \div 2 /\ split \in 1..(low - 1)
          /\ cnt = Cardinality(Contained)

(* No bucket in use is uninitialized, and every object is only where it's looked for. *)
PlacedOK == /\ \A p \in Used : <<0, 0>> \notin Ran(bucket[p])
            /\ \A p \in Used : \A i \in 1..Len(bucket[p]) :
                  /\ PosIn(State, Hash(bucket[p][i])) = p
                  /\ \A j \in 1..Len(bucket[p]) : bucket[p][i] = bucket[p][j] => i = j

(* Iteration visits buckets 0..low+split-1 *)
IterationOK == Contained = UNION {{<<k, Obs[k][i]>> : i \in 1..Len(Obs[k])} : k \in Keys}

(* Sizing policy *)
SizeOK == Max >= 2 * cnt /\ (bit > Bit => Max <= 16 * cnt)

(* Bounded work *)
WorkOK == op # <<>> => op[5] <= 2 /\ op[6] <= 8

View == vars
EmitS == EmitState(vars, Obs)
EmitE == EmitEdge(vars, op', vars')
=============================================================================
