----------------------------- MODULE SizeProof -----------------------------
(* HashSize with the real constants and for any number of elements: inductive *)
(* invariants verified by Apalache, with unbounded integers. The loops of the *)
(* progressive resize are steps here, and the bound of their number is part   *)
(* of what is proved. That the operations are the same ones of HashSize is    *)
(* verified by TLC, in all the states up to a limit: SizeAgree.               *)
EXTENDS Integers

CONSTANTS
    \* @type: Str;
    Kind,
    \* @type: Int;
    First,  \* initial number of buckets
    \* @type: Int;
    Limit

VARIABLES
    \* @type: Int;
    cnt,
    \* @type: Int;
    max,   \* buckets
    \* @type: Int;
    low,
    \* @type: Int;
    split,
    \* @type: Str;
    st,
    \* @type: Str;
    pc,    \* idle, or in the loop of an operation
    \* @type: Int;
    work,  \* buckets split or merged, or visited by a resize, in the operation
    \* @type: Int;
    bank   \* 8 credits for each operation, less the work done

vars == <<cnt, max, low, split, st, pc, work, bank>>
Powers == {2^4, 2^5, 2^6, 2^7, 2^8, 2^9, 2^10, 2^11, 2^12, 2^13, 2^14, 2^15, 2^16, 2^17, 2^18, 2^19, 2^20, 2^21, 2^22, 2^23, 2^24, 2^25, 2^26, 2^27,
           2^28, 2^29, 2^30, 2^31, 2^32, 2^33, 2^34, 2^35, 2^36, 2^37, 2^38, 2^39, 2^40, 2^41, 2^42, 2^43, 2^44, 2^45, 2^46, 2^47, 2^48, 2^49, 2^50,
           2^51, 2^52, 2^53, 2^54, 2^55, 2^56, 2^57, 2^58, 2^59, 2^60, 2^61, 2^62}

Init == cnt = 0 /\ max = First /\ low = First /\ split = 0 /\ st = "stable" /\ pc = "idle" /\ work = 0 /\ bank = 0

LinInsert ==
    /\ cnt < Limit /\ cnt' = cnt + 1 /\ work' = 0
    /\ IF st # "grow" /\ cnt + 1 > (low + split) \div 2
       THEN IF st = "stable" THEN low' = max /\ max' = 2 * max /\ split' = 0 /\ st' = "grow" /\ pc' = "grow"
            ELSE st' = "grow" /\ pc' = "grow" /\ UNCHANGED <<low, max, split>>
       ELSE pc' = (IF st = "grow" THEN "grow" ELSE "idle") /\ UNCHANGED <<low, max, split, st>>
    /\ UNCHANGED bank
LinRemove ==
    /\ cnt > 0 /\ cnt' = cnt - 1 /\ work' = 0
    /\ IF st # "shrink" /\ cnt - 1 < max \div 8 /\ max > First
       THEN IF st = "stable" THEN low' = max \div 2 /\ split' = max \div 2 /\ st' = "shrink" /\ pc' = "shrink" /\ UNCHANGED max
            ELSE st' = "shrink" /\ pc' = "shrink" /\ UNCHANGED <<low, max, split>>
       ELSE pc' = (IF st = "shrink" THEN "shrink" ELSE "idle") /\ UNCHANGED <<low, max, split, st>>
    /\ UNCHANGED bank
Split ==
    /\ UNCHANGED <<cnt, bank, max>>
    /\ IF split + low < 2 * cnt
       THEN /\ work' = work + 1
            /\ IF split + 1 = low THEN st' = "stable" /\ low' = max /\ split' = 0 /\ pc' = "idle"
               ELSE split' = split + 1 /\ UNCHANGED <<st, low, pc>>
       ELSE pc' = "idle" /\ UNCHANGED <<work, low, split, st>>
Merge ==
    /\ UNCHANGED <<cnt, bank>>
    /\ IF split + low > 8 * cnt
       THEN /\ work' = work + 1
            /\ IF split = 1 THEN st' = "stable" /\ max' = low /\ split' = 0 /\ pc' = "idle" /\ UNCHANGED low
               ELSE split' = split - 1 /\ UNCHANGED <<st, low, max, pc>>
       ELSE pc' = "idle" /\ UNCHANGED <<work, low, max, split, st>>

DynInsert ==
    /\ cnt < Limit /\ cnt' = cnt + 1
    /\ IF cnt + 1 >= max \div 2 THEN max' = 2 * max /\ work' = max ELSE max' = max /\ work' = 0
    /\ low' = max' /\ bank' = bank + 8 - work' /\ UNCHANGED <<split, st, pc>>
DynRemove ==
    /\ cnt > 0 /\ cnt' = cnt - 1
    /\ IF cnt - 1 <= max \div 8 /\ max > First THEN max' = max \div 2 /\ work' = max ELSE max' = max /\ work' = 0
    /\ low' = max' /\ bank' = bank + 8 - work' /\ UNCHANGED <<split, st, pc>>

Next == IF Kind = "hashlin"
        THEN \/ pc = "idle" /\ (LinInsert \/ LinRemove)
             \/ pc = "grow" /\ Split
             \/ pc = "shrink" /\ Merge
        ELSE DynInsert \/ DynRemove

-----------------------------------------------------------------------------
(* C14, C15, and the amortized cost of the dynamic table (C22) *)
SizeOK == pc = "idle" =>
    /\ max >= 2 * cnt
    /\ max > First => max <= (IF Kind = "hashlin" THEN 16 ELSE 8) * cnt
WorkOK == IF Kind = "hashlin" THEN work <= 8 ELSE bank >= 0
Safe == SizeOK /\ WorkOK

Used == low + split
Types == /\ cnt >= 0 /\ cnt <= Limit /\ max \in Powers /\ max >= First
         /\ work >= 0 /\ bank >= 0
Shape == /\ st = "stable" => low = max /\ split = 0 /\ pc = "idle"
         /\ st # "stable" => /\ low * 2 = max /\ max > First /\ split < low + (IF pc = "shrink" THEN 1 ELSE 0)
                             /\ split >= (IF pc = "grow" THEN 0 ELSE 1)
         /\ pc # "idle" => st = pc
LinInv == /\ pc # "grow" => 2 * cnt <= Used
          /\ max > First /\ st # "shrink" => 8 * cnt >= max
          /\ pc = "idle" /\ st = "shrink" => Used <= 8 * cnt
          /\ pc = "grow" /\ split = 0 => 2 * cnt > low
          /\ pc = "grow" => work <= 2 /\ 2 * cnt - Used <= 2 - work
          /\ pc = "shrink" /\ split = low => Used > 8 * cnt
          /\ pc = "shrink" => work <= 8 /\ Used - 8 * cnt <= 8 - work
          /\ work <= 8
DynInv == /\ st = "stable" /\ pc = "idle" /\ 2 * cnt < max
          /\ max > First => 8 * cnt > max
          /\ 4 * cnt >= max => bank >= 8 * cnt - 2 * max
          /\ 4 * cnt < max /\ max > First => bank >= 2 * max - 8 * cnt
Inv == Types /\ Shape /\ (IF Kind = "hashlin" THEN LinInv ELSE DynInv)
Any == /\ cnt \in Int /\ max \in Powers /\ low \in Int /\ split \in Int /\ st \in {"stable", "grow", "shrink"}
       /\ pc \in {"idle", "grow", "shrink"} /\ work \in Int /\ bank \in Int
       /\ Inv

LinC == Kind = "hashlin" /\ First = 64 /\ Limit = 2^60
DynC == Kind = "hashdyn" /\ First = 16 /\ Limit = 2^60
=============================================================================
