------------------------------ MODULE TraceSort ------------------------------
(* Validates sorts of big lists recorded by harness/h_list.c. Each event is  *)
(* a sort: keys in the original order, the resulting order as positions in   *)
(* the original one, and the number of calls of the comparison.              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TSpec == l \in 1..Len(Trace) /\ [][FALSE]_l

N == Len(Ev.keys)
Big == Ev.big # <<>>
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)

PermutationOK == /\ Len(Ev.out) = N
                 /\ \A i \in 1..N : Ev.out[i] \in 1..N
                 /\ Cardinality({Ev.out[i] : i \in 1..Len(Ev.out)}) = N
SortedOK == Len(Ev.out) = N => \A i \in 1..(N - 1) : Ev.keys[Ev.out[i]] <= Ev.keys[Ev.out[i + 1]]
StableOK == Len(Ev.out) = N => \A i \in 1..(N - 1) : Ev.keys[Ev.out[i]] = Ev.keys[Ev.out[i + 1]] => Ev.out[i] < Ev.out[i + 1]
(* the previous pointers are those of the same sequence *)
BackwardOK == Ev.bwok = 1
CompareOK == Ev.bad = 0
CostOK == Big \/ Ev.cmps <= N * (CeilLog2(N) + 1)
OrderedCostOK == ~ Big /\ (\/ \A i \in 1..(N - 1) : Ev.keys[i] <= Ev.keys[i + 1]
                  \/ \A i \in 1..(N - 1) : Ev.keys[i] > Ev.keys[i + 1]) => Ev.cmps <= 2 * N
(* Huge lists are only summarized: <<length, is a permutation, is sorted, is stable, was ordered or reversed>> *)
BigOK == Big => /\ Ev.big[2] = 1 /\ Ev.big[3] = 1 /\ Ev.big[4] = 1
                /\ Ev.cmps <= Ev.big[1] * (CeilLog2(Ev.big[1]) + 1)
                /\ Ev.big[5] = 1 => Ev.cmps <= 2 * Ev.big[1]
Alias == [line |-> l, comparisons |-> Ev.cmps, n |-> N, keys |-> IF N < 40 THEN Ev.keys ELSE <<>>, out |-> IF N < 40 THEN Ev.out ELSE <<>>]
=============================================================================
