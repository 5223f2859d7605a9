------------------------------ MODULE Amortized ------------------------------
(* The work done by the operations of the resizing hash tables, as a history *)
(* of token payments: each operation earns Rate tokens, of which no more     *)
(* than Burst for each bucket can be kept, and pays one token for each       *)
(* bucket and element it has to touch.  If the credit is never negative, any *)
(* sequence of operations, starting from any reachable state, does an amount *)
(* of work that is no more than Rate for each operation, plus what a single  *)
(* resize costs: one that alternates inserts and removes around a threshold  *)
(* can't make every operation expensive.                                     *)
(* For the linear table all the elements have the same hash, that is in the  *)
(* bucket Place: the split of that bucket costs as the elements it contains, *)
(* the others and the merges are constant.                                   *)
EXTENDS HashSize, FiniteSets

CONSTANTS Rate, Burst, Place

VARIABLES credit,
          last  \* work of the last operation; not part of the state (VIEW)

Min(a, b) == IF a < b THEN a ELSE b
Cap == Burst * 2 ^ bit

(* Buckets split by an operation, from the one state to the other *)
Splits == IF Kind # "hashlin" \/ cnt' < cnt THEN {}
          ELSE LET from == IF st = "grow" \/ st = "shrink" THEN split ELSE 0
                   to == IF st' = "stable" /\ st # "stable" THEN low ELSE split'
               IN {s \in from..(to - 1) : TRUE}
LowNow == IF st = "stable" THEN 2 ^ bit ELSE low
Cost == 1 + work' * (IF Kind = "hashlin" THEN 1 ELSE 0)
          + (IF \E s \in Splits : s = Place % LowNow THEN cnt' ELSE 0)
          + (IF Kind = "hashdyn" /\ bit' # bit THEN 2 ^ bit + 2 ^ bit' + cnt' ELSE 0)

AInit == Init /\ credit = Cap /\ last = 0
ANext == /\ Next
         /\ last' = Cost
         /\ credit' = Min(Cap, credit + Rate) - last'
ASpec == AInit /\ [][ANext]_<<vars, work, credit, last>>

AView == <<vars, credit>>
CreditOK == credit >= 0
(* Without the distance between the thresholds the credit ends. *)
ThrashShrink(S) == IF S.cnt <= (2 ^ S.bit) \div 4 /\ S.bit > Bit THEN Resized(S, S.bit - 1) ELSE S
=============================================================================
