------------------------------- MODULE Readers -------------------------------
(* Threads reading at the same time a container in shared memory, one load   *)
(* or store at each step, with any interleaving.                             *)
(* Memory is a vector of pointers: cell b is the head of the bucket b, and   *)
(* cell Buckets + n is the next pointer of the node n.  0 is the null one.   *)
(* The cell 0 is used only by some of the designs.                           *)
(*   loads:  the search walks the bucket, as the containers do;              *)
(*   front:  the node found is moved in front of its bucket, that gives the  *)
(*           right results only if nobody else is reading;                   *)
(*   cache:  the last node found is kept in the container, and tried first,  *)
(*           with the key in another store: again right only if alone;       *)
(*   hint:   the last node found is kept in the container, and tried first   *)
(*           checking its key: right results, but the memory is written, and *)
(*           so it needs the atomicity that plain C accesses don't have.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Readers,  \* number of threads
          Buckets,  \* number of buckets
          Nodes,    \* number of nodes
          Keys,     \* keys are 1..Keys
          Design

Rs == 1..Readers
Ns == 1..Nodes
Cell(n) == Buckets + n
Bucket(k) == (k % Buckets) + 1

VARIABLES mem,   \* memory: cells, and for some designs the cached node and key
          key,   \* key of each node
          first, \* memory at the start
          pc, want, p, prev, tmp, got
vars == <<mem, key, first, pc, want, p, prev, tmp, got>>

(* All the contents: nodes with any key, in the bucket of the key, in any order. *)
RECURSIVE Link(_, _)
Link(s, m) == IF s = <<>> THEN m
              ELSE LET b == Bucket(key[Head(s)])
                   IN Link(Tail(s), [m EXCEPT ![Cell(Head(s))] = m[b], ![b] = Head(s)])
Base == [c \in 1..(Buckets + Nodes + 2) |-> 0]
CNode == Buckets + Nodes + 1
CKey == Buckets + Nodes + 2

Init == /\ key \in [Ns -> 1..Keys]
        /\ mem = Link([n \in Ns |-> n], Base)
        /\ first = mem
        /\ want \in [Rs -> 1..Keys]
        /\ pc = [r \in Rs |-> IF Design \in {"cache", "hint"} THEN "try" ELSE "head"]
        /\ p = [r \in Rs |-> 0] /\ prev = [r \in Rs |-> 0] /\ tmp = [r \in Rs |-> 0] /\ got = [r \in Rs |-> 0]

(* what a thread alone obtains: the first of the bucket with the key *)
RECURSIVE Walk(_, _, _)
Walk(n, k, fuel) == IF n = 0 \/ fuel = 0 THEN 0 ELSE IF key[n] = k THEN n ELSE Walk(first[Cell(n)], k, fuel - 1)
Alone(k) == Walk(first[Bucket(k)], k, Nodes + 1)

Goto(r, l) == pc' = [pc EXCEPT ![r] = l]
Set(f, r, v) == [f EXCEPT ![r] = v]
Store(c, v) == mem' = [mem EXCEPT ![c] = v]
Still(v) == UNCHANGED v

LoadHead(r) == /\ pc[r] = "head"
               /\ p' = Set(p, r, mem[Bucket(want[r])]) /\ prev' = Set(prev, r, Bucket(want[r]))
               /\ Goto(r, "test") /\ Still(<<mem, tmp, got>>)
Test(r) == /\ pc[r] = "test"
           /\ IF p[r] = 0 THEN got' = Set(got, r, 0) /\ Goto(r, "done")
              ELSE IF key[p[r]] = want[r]
                   THEN got' = Set(got, r, p[r])
                        /\ Goto(r, CASE Design = "front" -> "unlink1" [] Design \in {"cache", "hint"} -> "keep1" [] OTHER -> "done")
                   ELSE Goto(r, "next") /\ Still(got)
           /\ Still(<<mem, p, prev, tmp>>)
LoadNext(r) == /\ pc[r] = "next"
               /\ prev' = Set(prev, r, Cell(p[r])) /\ p' = Set(p, r, mem[Cell(p[r])])
               /\ Goto(r, "test") /\ Still(<<mem, tmp, got>>)
(* move to front *)
Unlink1(r) == pc[r] = "unlink1" /\ (IF prev[r] <= Buckets THEN Goto(r, "done") ELSE Goto(r, "unlink2"))
              /\ tmp' = Set(tmp, r, mem[Cell(p[r])]) /\ Still(<<mem, p, prev, got>>)
Unlink2(r) == pc[r] = "unlink2" /\ Store(prev[r], tmp[r]) /\ Goto(r, "front1") /\ Still(<<p, prev, tmp, got>>)
Front1(r) == pc[r] = "front1" /\ tmp' = Set(tmp, r, mem[Bucket(want[r])]) /\ Goto(r, "front2") /\ Still(<<mem, p, prev, got>>)
Front2(r) == pc[r] = "front2" /\ Store(Cell(p[r]), tmp[r]) /\ Goto(r, "front3") /\ Still(<<p, prev, tmp, got>>)
Front3(r) == pc[r] = "front3" /\ Store(Bucket(want[r]), p[r]) /\ Goto(r, "done") /\ Still(<<p, prev, tmp, got>>)
(* cache *)
Try(r) == /\ pc[r] = "try"
          /\ tmp' = Set(tmp, r, mem[IF Design = "cache" THEN CKey ELSE CNode])
          /\ Goto(r, "try2") /\ Still(<<mem, p, prev, got>>)
Try2(r) == /\ pc[r] = "try2"
           /\ LET hit == IF Design = "cache" THEN tmp[r] = want[r] ELSE tmp[r] # 0 /\ key[tmp[r]] = want[r]
              IN IF hit THEN got' = Set(got, r, IF Design = "cache" THEN mem[CNode] ELSE tmp[r]) /\ Goto(r, "done")
                 ELSE Goto(r, "head") /\ Still(got)
           /\ Still(<<mem, p, prev, tmp>>)
Keep1(r) == pc[r] = "keep1" /\ Store(CNode, p[r]) /\ Goto(r, IF Design = "cache" THEN "keep2" ELSE "done") /\ Still(<<p, prev, tmp, got>>)
Keep2(r) == pc[r] = "keep2" /\ Store(CKey, want[r]) /\ Goto(r, "done") /\ Still(<<p, prev, tmp, got>>)
(* search another key *)
Again(r) == /\ pc[r] = "done"
            /\ \E k \in 1..Keys : want' = Set(want, r, k)
            /\ Goto(r, IF Design \in {"cache", "hint"} THEN "try" ELSE "head")
            /\ Still(<<mem, p, prev, tmp, got, key, first>>)

Step(r) == /\ \/ LoadHead(r) \/ Test(r) \/ LoadNext(r)
              \/ Unlink1(r) \/ Unlink2(r) \/ Front1(r) \/ Front2(r) \/ Front3(r)
              \/ Try(r) \/ Try2(r) \/ Keep1(r) \/ Keep2(r)
           /\ UNCHANGED <<key, first, want>>
Next == \E r \in Rs : Step(r) \/ Again(r)
Spec == Init /\ [][Next]_vars /\ \A r \in Rs : WF_vars(Step(r))

-----------------------------------------------------------------------------
(* nothing is written *)
Unchanged == mem = first
(* and then each thread gets what it gets alone, whatever the others do: *)
(* for "hint" and keys with one node only too                            *)
Distinct == \A a, b \in Ns : key[a] = key[b] => a = b
ResultOK == Distinct => \A r \in Rs : pc[r] = "done" => got[r] = Alone(want[r])
ExactOK == \A r \in Rs : pc[r] = "done" => got[r] = Alone(want[r])
(* no thread is blocked by the others *)
Ends == \A r \in Rs : pc[r] # "done" ~> pc[r] = "done"
=============================================================================
