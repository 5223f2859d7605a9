------------------------------- MODULE TraceCost -----------------------------
(* Validates the work measured by harness/h_work.c.  Each event is a phase   *)
(* of k operations of the same kind, with the work w of the most expensive   *)
(* one and tw of all of them, while the elements were no more than n1, and   *)
(* the words of memory owned no more than hb.  The unit of work is a basic   *)
(* block executed inside the library, or 16 bytes cleared or copied for it.  *)
(* The constants are several times what the operations need, so they accept  *)
(* any code doing the same thing in a different way, but the sizes are such  *)
(* that work growing with the number of elements is far above of them.       *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* last event consumed
          t,       \* first event of the trace
          credit   \* tokens of the amortized operations (Amortized.tla)

Ev == Trace[l]
Par == Trace[t]
Arg == Trace[l + 1]

Single == 3000   \* one operation of constant cost
Direct == 200    \* a count, a memory usage, or an access to an element
Level == 100     \* one level of a tree
Each == 60       \* one element or bucket of what works on all of them
Step == 30       \* one element at one level of the sort
Rate == 120      \* earned by one amortized operation, over the initialization of the new elements
Burst == 40      \* kept for each element and word owned

Min(a, b) == IF a < b THEN a ELSE b
Tables == {"hashtable", "hashdyn", "hashlin"}
Arrays == {"array", "arrayof", "arrayblk", "arrayblkof"}
Tries == {"trie", "trieinp"}
Kind == Par.c
Changes == {"ins", "rmx", "rem", "mix", "gro"}

(* Different keys are spread on the buckets, or are all equal / a few not sharing a bucket. *)
Distinct == Par.mode \in {0, 2, 3, 6}
Spread == Distinct \/ Par.mode \in {1, 5}

(* Cost that doesn't depend on the number of elements *)
Constant(op) ==
    CASE Kind = "list" -> op \in {"ins", "rmx", "cat"}
      [] Kind = "hashtable" -> op \in {"ins", "rmx"} \/ (op \in {"sea", "rem", "mix"} /\ Spread /\ Par.p * 2 >= Ev.n1)
      [] Kind = "hashdyn" -> op = "sea" /\ Spread
      [] Kind = "hashlin" -> (op = "sea" /\ Spread) \/ (op \in Changes /\ Distinct)
      [] Kind \in Tries -> op \in {"ins", "rmx", "rem", "mix", "sea"}
      [] Kind = "alloc" -> op \in {"ins", "rmx", "mix"}
      [] OTHER -> FALSE

(* Cost that is constant in the long run *)
Amortized(op) == op \in Changes /\ (Kind \in {"hashdyn", "hashlin", "alloc"} \cup Tries \cup Arrays)
(* new elements are initialized, each of them once, whatever their size is *)
NewWords == IF Kind \in Arrays THEN Ev.hb - Ev.h0 ELSE 0
Room(ev) == Burst * (ev.n1 + ev.hb + 64)

TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l
         /\ credit = 0
TNext == /\ l < Len(Trace) /\ Arg.e = "ph"
         /\ l' = l + 1
         /\ credit' = IF Arg.op = "init" THEN Room(Arg)
                      ELSE IF (Kind \in {"hashdyn", "hashlin", "alloc"} \cup Tries \cup Arrays) /\ Arg.op \in Changes
                      THEN Min(credit, Room(Arg)) + Rate * Arg.k + (IF Kind \in Arrays THEN 4 * (Arg.hb - Arg.h0) ELSE 0) - Arg.tw
                      ELSE credit
         /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<l, t, credit>>

-----------------------------------------------------------------------------
IsPhase == Ev.e = "ph"
SingleOK == IsPhase => /\ Constant(Ev.op) => Ev.w <= Single
                       /\ Ev.op \in {"use", "acc"} => Ev.w <= Direct
TreeOK == (IsPhase /\ Kind = "tree") =>
             /\ Ev.op \in {"ins", "sea"} => Ev.w <= Level * Ev.lg
             /\ Ev.op \in {"rmx", "rem", "mix"} => Ev.w <= Level * Ev.lg * Ev.lg \* it can rebalance at each level
(* an iteration, a count, and the deinitialization *)
LinearOK == (IsPhase /\ Ev.op \in {"init", "for", "cnt", "don"}) => Ev.w <= Each * (Ev.n1 + Ev.hb) + Single
(* the sort, and the sort of what is already in order or in the opposite one *)
SortOK == IsPhase => /\ Ev.op = "srt" => Ev.w \div Step <= Ev.n1 * Ev.lg + 100
                     /\ Ev.op = "sro" => Ev.w <= Each * Ev.n1 + Single
CreditOK == credit >= 0
Alias == [line |-> l, event |-> Ev, trace |-> Par, credit |-> credit]
=============================================================================
