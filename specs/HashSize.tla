------------------------------ MODULE HashSize ------------------------------
(* Only the number of elements and the size of the resizing hash tables, so  *)
(* that all the histories of inserts and removes can be explored with the    *)
(* real constants, up to a maximum number of elements, with the number of    *)
(* steps of resize done by each of them.                                     *)
EXTENDS Integers

CONSTANTS Kind, \* "hashdyn" or "hashlin"
          Bit,  \* bits of the initial size
          Limit \* maximum number of elements

VARIABLES cnt, bit, low, split, st,
          work \* buckets split or merged by the last operation; not part of the state (VIEW)

vars == <<cnt, bit, low, split, st>>
Max == 2 ^ bit

Init == cnt = 0 /\ bit = Bit /\ low = 2 ^ Bit /\ split = 0 /\ st = "stable" /\ work = 0

State(c) == [cnt |-> c, bit |-> bit, low |-> low, split |-> split, st |-> st, work |-> 0]
Become(S) == cnt' = S.cnt /\ bit' = S.bit /\ low' = S.low /\ split' = S.split /\ st' = S.st /\ work' = S.work
Stable(S) == [S EXCEPT !.st = "stable", !.low = 2 ^ S.bit, !.split = 0]

RECURSIVE GrowLoop(_)
GrowLoop(S) ==
    IF S.split + S.low < 2 * S.cnt
    THEN LET S2 == [S EXCEPT !.split = @ + 1, !.work = @ + 1]
         IN IF S2.split = S2.low THEN Stable(S2) ELSE GrowLoop(S2)
    ELSE S
LinGrow(S) ==
    LET Start == [S EXCEPT !.low = 2 ^ S.bit, !.bit = S.bit + 1, !.split = 0]
        S1 == IF S.st # "grow" /\ S.cnt > (S.low + S.split) \div 2
              THEN [(IF S.st = "stable" THEN Start ELSE S) EXCEPT !.st = "grow"]
              ELSE S
    IN IF S1.st = "grow" THEN GrowLoop(S1) ELSE S1

RECURSIVE ShrinkLoop(_)
ShrinkLoop(S) ==
    IF S.split + S.low > 8 * S.cnt
    THEN LET S2 == [S EXCEPT !.split = @ - 1, !.work = @ + 1]
         IN IF S2.split = 0 THEN Stable([S2 EXCEPT !.bit = @ - 1]) ELSE ShrinkLoop(S2)
    ELSE S
LinShrink(S) ==
    LET Start == [S EXCEPT !.low = 2 ^ (S.bit - 1), !.split = 2 ^ (S.bit - 1)]
        S1 == IF S.st # "shrink" /\ S.cnt < (2 ^ S.bit) \div 8 /\ S.bit > Bit
              THEN [(IF S.st = "stable" THEN Start ELSE S) EXCEPT !.st = "shrink"]
              ELSE S
    IN IF S1.st = "shrink" THEN ShrinkLoop(S1) ELSE S1

Resized(S, b) == [S EXCEPT !.bit = b, !.low = 2 ^ b, !.work = 2 ^ S.bit]
DynGrow(S) == IF S.cnt >= (2 ^ S.bit) \div 2 THEN Resized(S, S.bit + 1) ELSE S
DynShrink(S) == IF S.cnt <= (2 ^ S.bit) \div 8 /\ S.bit > Bit THEN Resized(S, S.bit - 1) ELSE S

Insert == cnt < Limit /\ Become(IF Kind = "hashlin" THEN LinGrow(State(cnt + 1)) ELSE DynGrow(State(cnt + 1)))
Remove == cnt > 0 /\ Become(IF Kind = "hashlin" THEN LinShrink(State(cnt - 1)) ELSE DynShrink(State(cnt - 1)))
Next == Insert \/ Remove
Spec == Init /\ [][Next]_<<vars, work>>

-----------------------------------------------------------------------------
(* At least 2 buckets for each element; no more than 8 (16 in the middle of a halving) over the initial size. *)
SizeOK == /\ Max >= 2 * cnt
          /\ bit > Bit => Max <= (IF Kind = "hashlin" THEN 16 ELSE 8) * cnt
ShapeOK == /\ st = "stable" => low = Max /\ split = 0
           /\ st # "stable" => low * 2 = Max /\ split \in 1..(low - 1)
(* The buckets in use are within constant factors of the elements, whatever the phase is. *)
UsedOK == Kind = "hashlin" => low + split >= 2 * cnt - 1
WorkOK == Kind = "hashlin" => work <= 8
View == vars
=============================================================================
