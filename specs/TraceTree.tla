------------------------------ MODULE TraceTree ------------------------------
(* Validates the events recorded by harness/h_tree.c: the tree is a set of   *)
(* elements unique by the comparison and ordered by it.  A key of the        *)
(* specification is a block of sz[k] real keys, inserted and removed as a    *)
(* whole; set[k] is the copy of the elements present, or 0.                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t, set, res
Ev == Trace[l]
Par == Trace[t]
Arg == Trace[l + 1]

TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l
         /\ set = [k \in 1..Len(Trace[l].sz) |-> 0]
         /\ res = {0}

Group(k) == Par.base[k] \div Par.group
Matching(k) == {set[j] * 1000 + j : j \in {i \in DOMAIN set : set[i] # 0 /\ Group(i) = Group(k)}}

Step == LET k == Arg.k
            c == Arg.c
        IN CASE Arg.e = "ins" -> IF set[k] = 0 THEN set' = [set EXCEPT ![k] = c] /\ res' = {c}
                                 ELSE UNCHANGED set /\ res' = {set[k]}
             [] Arg.e \in {"rem", "rme"} -> set' = [set EXCEPT ![k] = 0] /\ res' = {set[k]}
             [] Arg.e = "sea" -> UNCHANGED set /\ res' = {set[k]}
             \* search with a custom comparison, compatible with the order: any element of the group
             [] Arg.e = "sec" -> UNCHANGED set /\ res' = IF Matching(k) = {} THEN {0} ELSE Matching(k)
             [] Arg.e \in {"obs", "shp", "for", "ffr"} -> UNCHANGED set /\ res' = {0}
             [] OTHER -> FALSE

TNext == l < Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<l, t, set, res>>

-----------------------------------------------------------------------------
Gone == Ev.e = "ffr"
Present == {k \in DOMAIN set : set[k] # 0}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Par.sz[x] + Sum(S \ {x})
Total == Sum(Present)

(* C08 *)
ResultOK == Ev.r \in res
ContentOK == (~ Gone /\ Ev.oq = 1) => Ev.q = set
CountOK == ~ Gone => Ev.n = Total
OrderOK == Ev.inc = 1 /\ (Ev.og = 1 => Ev.ord = SetToSortSeq(Present, LAMBDA a, b : Par.base[a] < Par.base[b]))
CompareOK == Ev.bad = 0
(* C20 *)
IterationOK == Ev.e \in {"for", "ffr"} => Ev.q = set /\ Ev.inc = 1 /\ Ev.bad = 0
(* C16 *)
UsageOK == ~ Gone => Ev.mu = Total * Par.ns
(* C13 *)
HeapOK == Ev.al = 0 /\ Ev.fr = 0 /\ Ev.bf = 0

(* C09: dep is the number of comparisons to find each element, in order. The one with depth d in a subtree is its root. *)
RECURSIVE HeightOf(_, _, _, _)
HeightOf(dep, lo, hi, d) ==
    IF lo > hi THEN 0
    ELSE LET roots == {i \in lo..hi : dep[i] <= d}
         IN IF Cardinality(roots) # 1 THEN -1
            ELSE LET m == CHOOSE i \in roots : TRUE
                     a == HeightOf(dep, lo, m - 1, d + 1)
                     b == HeightOf(dep, m + 1, hi, d + 1)
                 IN IF a < 0 \/ b < 0 \/ a - b \notin -1..1 THEN -1 ELSE 1 + (IF a > b THEN a ELSE b)
BalanceOK == Ev.dp = 1 => Len(Ev.dep) = Total /\ HeightOf(Ev.dep, 1, Total, 1) >= 0

(* im is the biggest difference of height of the two sides of an element, computed in the same way for big trees *)
DifferenceOK == Ev.im <= 1

RECURSIVE MaxHeight(_, _, _, _)
(* a, b: minimal elements of heights h and h + 1 *)
MaxHeight(n, h, a, b) == IF b > n THEN h ELSE MaxHeight(n, h + 1, b, 1 + a + b)
Heighest(n) == MaxHeight(n, 0, 0, 1)
(* ev.mc are <<comparisons, elements>> of the most expensive operations of the event *)
CostOK == \A i \in 1..Len(Ev.mc) : Ev.mc[i][1] <= Heighest(Ev.mc[i][2])

Alias == [line |-> l, event |-> Ev, expected |-> set, expected_result |-> res]
=============================================================================
