------------------------------ MODULE TraceGiant ------------------------------
(* Validates the events recorded by harness/h_giant.c: containers and blocks  *)
(* over 4 GB. The elements are numbered, with hashes at a distance of stride, *)
(* and the ones contained are always [lo, hi). All the big numbers are pairs, *)
(* <<n div 2^20, n mod 2^20>>. For the allocator, used[i] is the place of the *)
(* slot i, as <<heap block, offset, size of the heap block, not aligned>>.    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t, lo, hi, used, freed, peak
vars == <<l, t, lo, hi, used, freed, peak>>
Ev == Trace[l]
Par == Trace[t]
Arg == Trace[l + 1]

B == 1048576
Zero == <<0, 0>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == ~ Less(b, a)
Norm(a) == <<a[1] + (a[2] \div B), a[2] % B>>
Add(a, b) == Norm(<<a[1] + b[1], a[2] + b[2]>>)
Sub(a, b) == Norm(<<a[1] - b[1], a[2] - b[2]>>)
RECURSIVE Mul(_, _)
Mul(a, n) == IF n = 0 THEN Zero ELSE LET h == Mul(a, n \div 2) IN IF n % 2 = 1 THEN Add(Add(h, h), a) ELSE Add(h, h)

Slots == {Arg.s[i] : i \in DOMAIN Arg.s}
TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l /\ lo = Zero /\ hi = Zero /\ used = [i \in {} |-> <<>>] /\ freed = 0 /\ peak = Zero
Step == CASE Arg.e = "ins" -> hi' = Add(hi, Arg.m) /\ UNCHANGED <<lo, used, freed>>
          [] Arg.e = "out" -> lo' = Add(lo, Arg.m) /\ Leq(lo', hi) /\ UNCHANGED <<hi, used, freed>>
          [] Arg.e = "pop" -> hi' = Sub(hi, Arg.m) /\ Leq(lo, hi') /\ UNCHANGED <<lo, used, freed>>
          [] Arg.e \in {"obs", "don"} -> UNCHANGED <<lo, hi, used, freed>>
          [] Arg.e = "all" -> /\ used' = [i \in (DOMAIN used) \cup Slots |-> IF i \in Slots THEN Arg.b[CHOOSE j \in DOMAIN Arg.s : Arg.s[j] = i] ELSE used[i]]
                              /\ freed' = (IF freed > Len(Arg.s) THEN freed - Len(Arg.s) ELSE 0)
                              /\ UNCHANGED <<lo, hi>>
          [] Arg.e = "fre" -> /\ used' = [i \in (DOMAIN used) \ Slots |-> used[i]]
                              /\ freed' = freed + Len(Arg.s)
                              /\ UNCHANGED <<lo, hi>>
          [] OTHER -> FALSE
TNext == /\ l < Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED t
         /\ peak' = (IF Less(peak, Sub(hi', lo')) THEN Sub(hi', lo') ELSE peak)
TSpec == TInit /\ [][TNext]_vars

-----------------------------------------------------------------------------
Live == Ev.e # "don"
IsAlloc == Par.c = "alloc"
IsHash == Par.c \in {"hashtable", "hashdyn", "hashlin"}
Map == ~ IsAlloc
Count == Sub(hi, lo)

(* C01-C06, C08, C20: what's contained *)
CountOK == (Map /\ Live) => Ev.n = Count
ContentOK == Map => /\ Ev.bad = 0
                    /\ \A i \in DOMAIN Ev.pq : Ev.pf[i] = (IF Leq(lo, Ev.pq[i]) /\ Less(Ev.pq[i], hi) THEN 1 ELSE 0)
EachOK == (Map /\ Ev.fo = 1) => Ev.fe = Count

(* C14 *)
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF Leq(n, p) THEN p ELSE Pow2(n, Add(p, p))
Bucket(p) == Mul(p, Par.ptr)
First == IF Par.c = "hashlin" THEN <<0, 64>> ELSE <<0, 16>>
\* powers of two in use, p are the buckets
Asked == Pow2(Par.want, <<0, 16>>)
Have == Pow2(Ev.ob, Bucket(First))
SizeOK == (IsHash /\ Live) =>
    /\ Ev.ob = Have
    /\ Par.c = "hashtable" => Ev.ob = Bucket(Asked)
    /\ Par.c # "hashtable" => /\ Leq(Bucket(Mul(Count, 2)), Ev.ob)
                              /\ Ev.ob = Bucket(First) \/ Leq(Ev.ob, Bucket(Mul(Count, IF Par.c = "hashdyn" THEN 8 ELSE 16)))
(* elements nearer than the number of buckets are all in different ones *)
SpreadOK == (IsHash /\ Live /\ Par.stride > 0 /\ Leq(Bucket(Mul(Count, Par.stride)), Ev.ob)) => Ev.mx <= 1

(* C16 *)
\* the size of the blocks rounded up is k times the alignment
Ali == IF Less(Par.align, <<0, Par.ptr>>) THEN <<0, Par.ptr>> ELSE Par.align
Blk == Mul(Ali, Par.k)
UsageOK == Live =>
    CASE IsHash -> Ev.mu = Add(Ev.ob, Mul(Count, Par.node))
      [] Par.c = "trie" -> Ev.mu = Add(Ev.au, Mul(Count, Par.node))
      [] IsAlloc -> Ev.mu = Mul(Mul(Ali, Par.k), Cardinality(DOMAIN used))
      [] Par.c = "pool" -> Ev.mu = Mul(Count, Blk[2])
      [] Par.c = "list" -> Ev.ob = Zero
      [] OTHER -> Ev.ob = Zero /\ Ev.mu = Mul(Count, Par.node)

(* C12, C26: the allocator. *)
RoundOK == (IsAlloc \/ Par.c = "pool") => Leq(Par.block, Blk) /\ Less(Sub(Blk, Par.block), Ali)
New == IF IsAlloc /\ Ev.e = "all" THEN {Ev.s[i] : i \in DOMAIN Ev.s} ELSE {}
BlocksOK == \A i \in New :
    /\ used[i][1] # 0 /\ Leq(Add(used[i][2], Par.block), used[i][3])
    /\ used[i][4] = 0
    /\ \A j \in DOMAIN used : (i # j /\ used[i][1] = used[j][1]) =>
           Leq(Add(used[i][2], Par.block), used[j][2]) \/ Leq(Add(used[j][2], Par.block), used[i][2])
KeptOK == IsAlloc => Ev.bad = 0
ReuseOK == (IsAlloc /\ Ev.e = "all") => Ev.ra = 0

(* C26: small blocks, the segments are the ones needed for the biggest number of them, see TraceAlloc *)
PerSegment == LET n == (4032 - Par.ptr - Ali[2] + 1) \div Blk[2] IN IF n < 1 THEN 1 ELSE n
SegBytes == IF Par.ptr + Ali[2] + Blk[2] > 4096 THEN Par.ptr + Ali[2] + Blk[2] ELSE 4096
\* bytes are not more than SegBytes * (peak + PerSegment - 1) \div PerSegment, that times PerSegment is
SpaceOK == (Par.c = "pool" /\ Live) => Leq(Mul(Ev.ob, PerSegment), Mul(Add(peak, <<0, PerSegment - 1>>), SegBytes))

(* C13 *)
HeapOK == /\ Ev.bf = 0
          /\ Ev.e = "don" => Ev.ob = Zero /\ Ev.al = 0
          /\ IsAlloc /\ Live => Ev.fr = 0

Alias == [line |-> l, event |-> Ev, lo |-> lo, hi |-> hi, used |-> used, expected_buckets |-> IF IsHash THEN Asked ELSE Zero]
=============================================================================
