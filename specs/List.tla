-------------------------------- MODULE List --------------------------------
(* Lists at the level of the pointers, as tommylist.h implements them: the   *)
(* next pointers are terminated by 0, the prev pointers are circular, so the *)
(* prev of the head is the tail.  Nodes are 1..Nodes, lists 1..Lists.        *)
(* A node out of every list holds Garbage.                                   *)
(*                                                                           *)
(* It refines the sequences of elements: Elems(l) is the one of the list l.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, SequencesExt

CONSTANTS Nodes, Lists, KeyOf(_), Emit

VARIABLES head, next, prev,
          op \* <<code, list, node or list, result>>; not part of the state (VIEW)

vars == <<head, next, prev>>
N == 1..Nodes
L == 1..Lists
Garbage == -1

RECURSIVE Walk(_, _, _)
Walk(nx, n, max) == IF n = 0 \/ max = 0 THEN <<>> ELSE <<n>> \o Walk(nx, nx[n], max - 1)
SeqIn(h, nx, l) == Walk(nx, h[l], Nodes + 1)
Elems(l) == SeqIn(head, next, l)
Contained == {n \in N : next[n] # Garbage}
RangeOf(s) == {s[i] : i \in DOMAIN s}
Injective(s) == Cardinality(RangeOf(s)) = Len(s)

Init == /\ head = [l \in L |-> 0]
        /\ next = [n \in N |-> Garbage]
        /\ prev = [n \in N |-> Garbage]
        /\ op = <<>>

First(l, n) == head' = [head EXCEPT ![l] = n] /\ next' = [next EXCEPT ![n] = 0] /\ prev' = [prev EXCEPT ![n] = n]

InsertHead(l, n) ==
    /\ n \notin Contained
    /\ op' = <<1, l, n, 0>>
    /\ LET h == head[l]
       IN IF h = 0 THEN First(l, n)
          ELSE /\ prev' = [prev EXCEPT ![n] = prev[h], ![h] = n]
               /\ next' = [next EXCEPT ![n] = h]
               /\ head' = [head EXCEPT ![l] = n]

InsertTail(l, n) ==
    /\ n \notin Contained
    /\ op' = <<2, l, n, 0>>
    /\ LET h == head[l]
       IN IF h = 0 THEN First(l, n)
          ELSE /\ prev' = [prev EXCEPT ![n] = prev[h], ![h] = n]
               /\ next' = [next EXCEPT ![n] = 0, ![prev[h]] = n]
               /\ UNCHANGED head

Unlink(l, n) ==
    /\ n \in RangeOf(Elems(l))
    /\ op' = <<3, l, n, n>>
    /\ LET h == head[l]
           p1 == IF next[n] # 0 THEN [prev EXCEPT ![next[n]] = prev[n]] ELSE [prev EXCEPT ![h] = prev[n]]
           n1 == IF h = n THEN next ELSE [next EXCEPT ![p1[n]] = next[n]]
       IN /\ head' = IF h = n THEN [head EXCEPT ![l] = next[n]] ELSE head
          /\ prev' = [p1 EXCEPT ![n] = Garbage]
          /\ next' = [n1 EXCEPT ![n] = Garbage]

(* The second list has to be initialized again before using it. *)
Concat(a, b) ==
    /\ a # b
    /\ op' = <<4, a, b, 0>>
    /\ CASE head[b] = 0 -> UNCHANGED vars
         [] head[b] # 0 /\ head[a] = 0 -> head' = [head EXCEPT ![a] = head[b], ![b] = 0] /\ UNCHANGED <<next, prev>>
         [] OTHER -> LET ft == prev[head[a]]
                     IN /\ prev' = [prev EXCEPT ![head[a]] = prev[head[b]], ![head[b]] = ft]
                        /\ next' = [next EXCEPT ![ft] = head[b]]
                        /\ head' = [head EXCEPT ![b] = 0]

(* Stable sort; the algorithm is in MergeSort. *)
StableSorted(s) == LET idx == SetToSortSeq(DOMAIN s, LAMBDA i, j : KeyOf(s[i]) < KeyOf(s[j]) \/ (KeyOf(s[i]) = KeyOf(s[j]) /\ i < j))
                   IN [i \in DOMAIN s |-> s[idx[i]]]
Sort(l) ==
    LET s == StableSorted(Elems(l))
        z == Len(s)
    IN /\ op' = <<5, l, 0, 0>>
       /\ IF z = 0 THEN UNCHANGED vars
          ELSE /\ head' = [head EXCEPT ![l] = s[1]]
               /\ next' = [n \in N |-> IF n \in RangeOf(s) THEN (LET i == CHOOSE i \in 1..z : s[i] = n IN IF i = z THEN 0 ELSE s[i + 1]) ELSE next[n]]
               /\ prev' = [n \in N |-> IF n \in RangeOf(s) THEN (LET i == CHOOSE i \in 1..z : s[i] = n IN IF i = 1 THEN s[z] ELSE s[i - 1]) ELSE prev[n]]

Next == \E l \in L : \/ \E n \in N : InsertHead(l, n) \/ InsertTail(l, n) \/ Unlink(l, n)
                     \/ \E m \in L : Concat(l, m)
                     \/ Sort(l)
Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
(* The pointers represent the sequence in both directions. *)
ListOK == \A l \in L : LET s == Elems(l)
                           z == Len(s)
                       IN /\ z <= Nodes /\ Injective(s)
                          /\ z > 0 => /\ prev[s[1]] = s[z]
                                      /\ next[s[z]] = 0
                                      /\ \A i \in 2..z : prev[s[i]] = s[i - 1]
DisjointOK == /\ \A a, b \in L : a # b => RangeOf(Elems(a)) \cap RangeOf(Elems(b)) = {}
              /\ Contained = UNION {RangeOf(Elems(l)) : l \in L}

(* What each operation does to the sequences. *)
Without(s, n) == SelectSeq(s, LAMBDA x : x # n)
S == [l \in L |-> Elems(l)]
Refines == [][S' = CASE op'[1] = 1 -> [S EXCEPT ![op'[2]] = <<op'[3]>> \o @]
                     [] op'[1] = 2 -> [S EXCEPT ![op'[2]] = @ \o <<op'[3]>>]
                     [] op'[1] = 3 -> [S EXCEPT ![op'[2]] = Without(@, op'[3])]
                     [] op'[1] = 4 -> [S EXCEPT ![op'[2]] = @ \o S[op'[3]], ![op'[3]] = <<>>]
                     [] OTHER -> [S EXCEPT ![op'[2]] = StableSorted(@)]]_<<vars, op>>

View == vars
Id(s) == <<TLCFP(s), TLCFP(<<"x", s>>)>>
EmitS == Emit => PrintT("@S " \o ToString(Id(vars)) \o " " \o ToString(S))
EmitE == Emit => PrintT("@E " \o ToString(Id(vars)) \o " " \o ToString(op') \o " " \o ToString(Id(vars')))
=============================================================================
