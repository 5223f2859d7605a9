------------------------------ MODULE TraceArray ------------------------------
(* Validates the events recorded by harness/h_array.c. A key of the          *)
(* specification is an interval of positions, [lo, hi), written as a whole,  *)
(* when it's all in the array; val[k] is the last value written in it.       *)
(* Positions and offsets are pairs <<n div 2^20, n mod 2^20>>.               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t, val, size
Ev == Trace[l]
Par == Trace[t]
Arg == Trace[l + 1]

B == 1048576
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == ~ Less(b, a)
Norm(a) == <<a[1] + (a[2] \div B), a[2] % B>>
Add(a, b) == Norm(<<a[1] + b[1], a[2] + b[2]>>)
Sub(a, b) == Norm(<<a[1] - b[1], a[2] - b[2]>>)
Mul(a, n) == Norm(<<a[1] * n, a[2] * n>>)
Max2(a, b) == IF Less(a, b) THEN b ELSE a

TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l
         /\ val = [k \in 1..Len(Trace[l].lo) |-> 0]
         /\ size = <<0, 0>>

Step == CASE Arg.e = "grow" -> size' = Max2(size, Arg.p) /\ UNCHANGED val
          [] Arg.e = "ins" -> size' = Add(size, Sub(Par.hi[Arg.k], Par.lo[Arg.k])) /\ size = Par.lo[Arg.k] /\ val' = [val EXCEPT ![Arg.k] = Arg.v]
          [] Arg.e = "set" -> Leq(Par.hi[Arg.k], size) /\ UNCHANGED size /\ val' = [val EXCEPT ![Arg.k] = Arg.v]
          [] Arg.e \in {"obs", "done"} -> UNCHANGED <<val, size>>
          [] OTHER -> FALSE

TNext == l < Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<l, t, val, size>>

-----------------------------------------------------------------------------
Live == Ev.e \notin {"init", "done"}
(* C10. ev.q[k] is the value of all the positions of the interval in the array, or -1 if not the same *)
SizeOK == Ev.e # "done" => Ev.n = size
ContentOK == (Live /\ Ev.oq = 1) => \A k \in DOMAIN val : Ev.q[k] = val[k]

(* C11. ev.runs are the maximal runs of adjacent addresses of consecutive positions:
   [p, c positions, heap block, offset, address modulus 64, heap block size] *)
RunEnd(r) == Add(r.o, Mul(r.c, Par.es))
InsideOK == \A i \in DOMAIN Ev.runs : LET r == Ev.runs[i] IN r.id # 0 /\ Leq(RunEnd(r), r.hs)
DisjointOK == \A i, j \in DOMAIN Ev.runs : (i < j /\ Ev.runs[i].id = Ev.runs[j].id) =>
                  Leq(RunEnd(Ev.runs[i]), Ev.runs[j].o) \/ Leq(RunEnd(Ev.runs[j]), Ev.runs[i].o)
AlignedOK == Par.es \in {2, 4, 8} /\ Par.es <= Par.ptr => \A i \in DOMAIN Ev.runs : Ev.runs[i].am % Par.es = 0
(* the address given by each run to a position *)
FixedOK == (Live /\ Ev.ox = 1 /\ l > t) =>
    LET prev == CHOOSE i \in t..(l - 1) : Trace[i].ox = 1 /\ \A j \in (i + 1)..(l - 1) : Trace[j].ox # 1
    IN \A a \in DOMAIN Trace[prev].runs : LET r == Trace[prev].runs[a] IN
        \E b \in DOMAIN Ev.runs : LET s == Ev.runs[b] IN
            /\ Leq(s.p, r.p) /\ Leq(Add(r.p, r.c), Add(s.p, s.c))
            /\ s.id = r.id
            /\ Add(s.o, Mul(Sub(r.p, s.p), Par.es)) = r.o

(* C13: memory is given back only at the end, all and once *)
HeapOK == /\ Ev.bf = 0
          /\ Live => Ev.fr = 0
          /\ Ev.e \in {"set", "obs"} => Ev.al = 0
          /\ Ev.e = "done" => Ev.ob = <<0, 0>> /\ Ev.oc = 0 /\ Ev.al = 0
(* C16 *)
UsageOK == Ev.e # "done" => Ev.mu = Ev.ob

(* C26: memory taken. The segments have less than twice the elements, over a minimum of 64, and grow exponentially; the
   blocks, of 4096 elements, are only the ones needed, reached through segments of pointers. *)
FirstSeg == 64
BlockLen == 4096
\* elements of the segments for n elements, n a pair
SegMax(n) == IF Leq(n, <<0, FirstSeg>>) THEN <<0, FirstSeg>> ELSE Sub(Add(n, n), <<0, 1>>)
\* segments, of FirstSeg elements, and then always doubling
RECURSIVE SegNum(_, _, _)
SegNum(n, have, k) == IF Leq(n, have) THEN k ELSE SegNum(n, Add(have, have), k + 1)
Segments(n) == SegNum(n, <<0, FirstSeg>>, 1)
\* number of blocks, n is less than 2^40
Blocks(n) == LET m == Add(n, <<0, BlockLen - 1>>) IN m[1] * (B \div BlockLen) + (m[2] \div BlockLen)
Pair(n) == <<n \div B, n % B>>
ByBlocks == Par.kind \in {2, 3}
\* products by big numbers of elements are done in two steps
MulP(a, n) == LET h == n \div 1024 IN Add(Mul(Mul(a, h), 1024), Mul(a, n % 1024))
SpaceOK == Ev.e # "done" =>
   IF ByBlocks
   THEN LET nb == Blocks(size) IN
        /\ Leq(Ev.ob, Add(MulP(MulP(<<0, BlockLen>>, Par.es), nb), Mul(SegMax(Pair(nb)), Par.ptr)))
        /\ Ev.oc <= nb + Segments(Pair(nb))
        /\ \A i \in DOMAIN Ev.runs : Ev.runs[i].hs = MulP(<<0, BlockLen>>, Par.es)
   ELSE /\ Leq(Ev.ob, MulP(SegMax(size), Par.es))
        /\ Ev.oc <= Segments(size)

Alias == [line |-> l, event |-> Ev, expected |-> val, expected_size |-> size]
=============================================================================
