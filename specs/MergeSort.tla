------------------------------ MODULE MergeSort ------------------------------
(* The sort of the lists, as tommychain.h implements it: nodes are added one *)
(* by one to a binary counter of chains of 2^i nodes, merging on carry, and  *)
(* the chains left are merged at the end, from the smallest.  Elements are   *)
(* <<key, original position>>.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS MaxLen, Keys, Emit

VARIABLES input, \* keys in the original order
          pos,   \* elements already added to the counter
          bit,   \* sequence of chains; <<>> if empty
          cmps,  \* calls of the comparison
          done
vars == <<input, pos, bit, cmps, done>>

K(e) == e[1]
(* tommy_chain_merge: one comparison for each element moved, until a chain ends *)
RECURSIVE Merge(_, _, _, _)
Merge(a, b, out, c) ==
    IF a = <<>> THEN <<out \o b, c>>
    ELSE IF b = <<>> THEN <<out \o a, c>>
    ELSE IF K(a[1]) > K(b[1]) THEN Merge(a, Tail(b), Append(out, b[1]), c + 1)
    ELSE Merge(Tail(a), b, Append(out, a[1]), c + 1)

(* tommy_chain_merge_degenerated: already in order, or all of the second before the first *)
MergeDeg(a, b) ==
    IF K(a[Len(a)]) <= K(b[1]) THEN <<a \o b, 1>>
    ELSE IF K(b[Len(b)]) < K(a[1]) THEN <<b \o a, 2>>
    ELSE Merge(a, b, <<>>, 2)

RECURSIVE Carry(_, _, _, _)
Carry(b, i, last, c) ==
    IF i > Len(b) THEN <<Append(b, last), c>>
    ELSE IF b[i] = <<>> THEN <<[b EXCEPT ![i] = last], c>>
    ELSE LET m == MergeDeg(b[i], last) IN Carry([b EXCEPT ![i] = <<>>], i + 1, m[1], c + m[2])

RECURSIVE Collect(_, _, _, _)
Collect(b, i, acc, c) ==
    IF i > Len(b) THEN <<acc, c>>
    ELSE IF b[i] = <<>> THEN Collect(b, i + 1, acc, c)
    ELSE IF acc = <<>> THEN Collect(b, i + 1, b[i], c)
    ELSE LET m == MergeDeg(b[i], acc) IN Collect(b, i + 1, m[1], c + m[2])

Init == /\ input \in UNION {[1..n -> Keys] : n \in 1..MaxLen}
        /\ pos = 0 /\ bit = <<>> /\ cmps = 0 /\ done = FALSE
Add == /\ pos < Len(input)
       /\ LET r == Carry(bit, 1, <<<<input[pos + 1], pos + 1>>>>, 0) IN bit' = r[1] /\ cmps' = cmps + r[2]
       /\ pos' = pos + 1
       /\ UNCHANGED <<input, done>>
Finish == /\ pos = Len(input) /\ ~ done
          /\ LET r == Collect(bit, 1, <<>>, 0) IN bit' = <<r[1]>> /\ cmps' = cmps + r[2]
          /\ done' = TRUE
          /\ UNCHANGED <<input, pos>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)

(* Each chain is sorted, stable and of the right length, all the elements are in one of them. *)
ChainOK(s) == \A i \in 1..(Len(s) - 1) : K(s[i]) < K(s[i + 1]) \/ (K(s[i]) = K(s[i + 1]) /\ s[i][2] < s[i + 1][2])
ChainsOK == /\ \A i \in 1..Len(bit) : ChainOK(bit[i])
            /\ ~ done => \A i \in 1..Len(bit) : Len(bit[i]) \in {0, 2 ^ (i - 1)}
            /\ UNION {{e : e \in {bit[i][j] : j \in 1..Len(bit[i])}} : i \in 1..Len(bit)} = {<<input[i], i>> : i \in 1..pos}
ResultOK == done => Len(bit) = 1 /\ Len(bit[1]) = Len(input) /\ ChainOK(bit[1])
CostOK == done => LET n == Len(input) IN
            /\ cmps <= n * (CeilLog2(n) + 1)
            /\ ((\A i \in 1..(n - 1) : input[i] <= input[i + 1]) \/ (\A i \in 1..(n - 1) : input[i] > input[i + 1])) => cmps <= 2 * n

EmitR == (Emit /\ done) => PrintT("@R " \o ToString(<<input, [i \in 1..Len(bit[1]) |-> bit[1][i][2]]>>))
=============================================================================
