-------------------------------- MODULE Arrays --------------------------------
(* The arrays, as implemented: segments of exponential size (tommyarray.c,   *)
(* tommyarrayof.c), or blocks of fixed size reached through an array of      *)
(* segments of pointers (tommyarrayblk.c, tommyarrayblkof.c).                *)
(* mem is the memory owned: each allocation is a sequence of cells, zeroed   *)
(* when obtained.  It refines the plain array Val, where Val[p] is the last  *)
(* value written at the position p, or zero.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS Kind, \* "seg" or "blk"
          Bit,  \* log2 of the initial cells of the segments
          Blk,  \* cells in a block
          Max,  \* maximum size
          Values,
          Emit

VARIABLES count, \* size of the array
          bmax,  \* cells in the segments
          seg,   \* allocation of each segment
          icount,\* size of the array of the blocks ("blk")
          mem,   \* sequence of allocations
          op     \* <<code, position, value, result>>; not part of the state (VIEW)
vars == <<count, bmax, seg, icount, mem>>

Pow2(n) == 2 ^ n
RECURSIVE ILog2(_)
ILog2(n) == IF n <= 1 THEN 0 ELSE 1 + ILog2(n \div 2)
Zero(n) == [i \in 1..n |-> 0]

(* <<allocation, cell>> of a position in the segments *)
SegAddr(sg, p) == LET b == ILog2(p) IN IF b < Bit THEN <<sg[1], p + 1>> ELSE <<sg[b - Bit + 2], p - Pow2(b) + 1>>
Read(m, a) == m[a[1]][a[2]]
Write(m, a, v) == [m EXCEPT ![a[1]] = [@ EXCEPT ![a[2]] = v]]

Addr(p) == IF Kind = "seg" THEN SegAddr(seg, p)
           ELSE <<Read(mem, SegAddr(seg, p \div Blk)), (p % Blk) + 1>>

(* The segments and the memory after growing to n cells *)
RECURSIVE SegGrow(_, _, _, _)
SegGrow(n, mx, sg, m) == IF n <= mx THEN <<mx, sg, m>>
                         ELSE SegGrow(n, 2 * mx, Append(sg, Len(m) + 1), Append(m, Zero(mx)))
RECURSIVE NewBlocks(_, _, _, _)
NewBlocks(i, n, sg, m) == IF i = n THEN m
                          ELSE NewBlocks(i + 1, n, sg, Write(Append(m, Zero(Blk)), SegAddr(sg, i), Len(m) + 1))

GrowTo(n) == IF n <= count THEN UNCHANGED vars
             ELSE /\ count' = n
                  /\ IF Kind = "seg"
                     THEN LET g == SegGrow(n, bmax, seg, mem) IN bmax' = g[1] /\ seg' = g[2] /\ mem' = g[3] /\ UNCHANGED icount
                     ELSE LET nb == (n + Blk - 1) \div Blk
                          IN IF icount >= nb THEN UNCHANGED <<bmax, seg, icount, mem>>
                             ELSE LET g == SegGrow(nb, bmax, seg, mem)
                                  IN bmax' = g[1] /\ seg' = g[2] /\ icount' = nb /\ mem' = NewBlocks(icount, nb, g[2], g[3])

Init == count = 0 /\ bmax = Pow2(Bit) /\ seg = <<1>> /\ icount = 0 /\ mem = <<Zero(Pow2(Bit))>> /\ op = <<>>

Grow(n) == GrowTo(n) /\ op' = <<1, n, 0, 0>>
Set(p, v) == p < count /\ mem' = Write(mem, Addr(p), v) /\ UNCHANGED <<count, bmax, seg, icount>> /\ op' = <<2, p, v, 0>>
(* the memory is the one after the grow *)
Insert(v) ==
    /\ count < Max
    /\ LET n == count + 1
           nb == (n + Blk - 1) \div Blk
           need == IF Kind = "seg" THEN n ELSE nb
           g == SegGrow(need, bmax, seg, mem)
           m == IF Kind = "seg" THEN g[3] ELSE NewBlocks(icount, nb, g[2], g[3])
           a == IF Kind = "seg" THEN SegAddr(g[2], count) ELSE <<Read(m, SegAddr(g[2], count \div Blk)), (count % Blk) + 1>>
       IN /\ count' = n /\ bmax' = g[1] /\ seg' = g[2]
          /\ icount' = IF Kind = "seg" THEN 0 ELSE nb
          /\ mem' = Write(m, a, v)
    /\ op' = <<3, count, v, 0>>

Next == \/ \E n \in 0..Max : Grow(n)
        \/ \E v \in Values : Insert(v) \/ \E p \in 0..(Max - 1) : Set(p, v)
Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
Val == [p \in 0..(count - 1) |-> Read(mem, Addr(p))]

(* Addresses: inside the memory owned, disjoint, and not the segments of pointers. *)
InsideOK == \A p \in 0..(count - 1) : LET a == Addr(p) IN
               /\ a[1] \in DOMAIN mem /\ a[2] \in DOMAIN mem[a[1]]
               /\ Kind = "blk" => \A i \in DOMAIN seg : seg[i] # a[1]
DisjointOK == \A p, q \in 0..(count - 1) : p # q => Addr(p) # Addr(q)
(* The cells not in the array yet are zero. *)
FreshOK == \A i \in DOMAIN mem : \A j \in DOMAIN mem[i] :
              \/ Kind = "blk" /\ \E s \in DOMAIN seg : seg[s] = i
              \/ \E p \in 0..(count - 1) : Addr(p) = <<i, j>>
              \/ mem[i][j] = 0
RECURSIVE Cells(_)
Cells(s) == IF s = <<>> THEN 0 ELSE Len(Head(s)) + Cells(Tail(s))
(* The memory taken: the cells of the segments are less than twice the ones needed, over the first segment;
   the blocks are only the ones needed. *)
SegNeed(n) == IF n <= Pow2(Bit) THEN Pow2(Bit) ELSE 2 * n - 1
SpaceOK == IF Kind = "seg" THEN Cells(mem) <= SegNeed(count)
           ELSE LET nb == (count + Blk - 1) \div Blk IN Cells(mem) <= nb * Blk + SegNeed(nb)
(* What the code reports. *)
UsageOK == Cells(mem) = bmax + (IF Kind = "seg" THEN 0 ELSE icount * Blk)

Refines == [][LET old(p) == IF p < count THEN Val[p] ELSE 0
              IN CASE op'[1] = 1 -> /\ count' = (IF op'[2] > count THEN op'[2] ELSE count)
                                    /\ \A p \in 0..(count' - 1) : Val'[p] = old(p)
                   [] op'[1] = 2 -> /\ count' = count
                                    /\ \A p \in 0..(count' - 1) : Val'[p] = IF p = op'[2] THEN op'[3] ELSE old(p)
                   [] OTHER -> /\ count' = count + 1
                               /\ \A p \in 0..(count' - 1) : Val'[p] = IF p = count THEN op'[3] ELSE old(p)]_<<vars, op>>
FixedOK == [][\A p \in 0..(count - 1) : Addr(p)' = Addr(p)]_<<vars, op>>

View == vars
Id(s) == <<TLCFP(s), TLCFP(<<"x", s>>)>>
Obs == [p \in 1..count |-> Val[p - 1]]
EmitS == Emit => PrintT("@S " \o ToString(Id(vars)) \o " " \o ToString(Obs))
EmitE == Emit => PrintT("@E " \o ToString(Id(vars)) \o " " \o ToString(op') \o " " \o ToString(Id(vars')))
=============================================================================
