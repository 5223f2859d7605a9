------------------------------- MODULE BlockAlloc -------------------------------
(* The allocator of fixed size blocks, as tommyalloc.c implements it: blocks *)
(* are carved from segments of the heap, after the header linking the        *)
(* segments and the padding for the alignment, and put in a free list, used  *)
(* from its head.                                                            *)
(* It refines a set of slots in use: the addresses given are any, provided   *)
(* that they are aligned, disjoint and owned.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS Ptr,      \* size of a pointer, and of the header of a segment
          SegSize,  \* default size of a segment
          Grid,     \* set of <<block size, alignment, modulus and offset of the addresses of the heap>>
          Max,      \* blocks in use
          Gap,      \* space between the blocks of the heap
          Emit

VARIABLES par,      \* the element of Grid
          blk, ali, \* block size and alignment in effect
          segs,     \* sequence of <<address, size>> obtained from the heap, the newest last
          free,     \* sequence of addresses, head first
          slot,     \* addresses given, 0 for the slots not in use
          cnt,
          op        \* <<code, slot, 0, result>>; not part of the state (VIEW)
vars == <<par, blk, ali, segs, free, slot, cnt>>

RoundUp(n, a) == IF n % a = 0 THEN n ELSE n + a - (n % a)

(* An address of the heap for n bytes: after all the other blocks, with the modulus required. *)
HeapTop == IF segs = <<>> THEN 4096 ELSE segs[Len(segs)][1] + segs[Len(segs)][2] + Gap
NewAddr == LET m == par[3] IN LET r == RoundUp(HeapTop, m) IN r + par[4]

NeedSize == IF SegSize < Ptr + ali + blk THEN Ptr + ali + blk ELSE SegSize

(* Blocks carved in the order they are put in the free list: the last is the head. *)
RECURSIVE Carve(_, _, _)
Carve(addr, size, acc) == LET a == <<addr>> \o acc
                          IN IF size - blk >= blk THEN Carve(addr + blk, size - blk, a) ELSE a

Init == /\ par \in Grid
        /\ ali = IF par[2] < Ptr THEN Ptr ELSE par[2]
        /\ blk = RoundUp(par[1], ali)
        /\ segs = <<>> /\ free = <<>> /\ cnt = 0 /\ op = <<>>
        /\ slot = [i \in 1..Max |-> 0]

Alloc ==
    /\ 0 \in {slot[i] : i \in 1..Max}
    /\ LET i == CHOOSE j \in 1..Max : slot[j] = 0 /\ \A k \in 1..(j - 1) : slot[k] # 0
           base == NewAddr
           data == RoundUp(base + Ptr, ali)
           f == IF free # <<>> THEN free ELSE Carve(data, NeedSize - (data - base), <<>>)
       IN /\ segs' = IF free # <<>> THEN segs ELSE Append(segs, <<base, NeedSize>>)
          /\ slot' = [slot EXCEPT ![i] = Head(f)]
          /\ free' = Tail(f)
          /\ op' = <<1, i, 0, 0>>
    /\ cnt' = cnt + 1
    /\ UNCHANGED <<par, blk, ali>>

Free(i) == /\ slot[i] # 0
           /\ free' = <<slot[i]>> \o free
           /\ slot' = [slot EXCEPT ![i] = 0]
           /\ cnt' = cnt - 1
           /\ op' = <<2, i, 0, 0>>
           /\ UNCHANGED <<par, blk, ali, segs>>

Next == Alloc \/ \E i \in 1..Max : Free(i)
Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
InUse == {i \in 1..Max : slot[i] # 0}
Blocks == {slot[i] : i \in InUse} \cup {free[i] : i \in DOMAIN free}

InsideOK == \A b \in Blocks : \E s \in 1..Len(segs) : segs[s][1] + Ptr <= b /\ b + blk <= segs[s][1] + segs[s][2]
DisjointOK == /\ \A b, c \in Blocks : b # c => b + blk <= c \/ c + blk <= b
              /\ Cardinality(Blocks) = Cardinality(InUse) + Len(free)
AlignedOK == \A b \in Blocks : b % ali = 0 /\ (par[2] > 0 => b % par[2] = 0 \/ par[2] < Ptr)
SizesOK == blk >= par[1] /\ blk - par[1] < ali /\ blk % ali = 0 /\ blk >= Ptr
UsageOK == cnt = Cardinality(InUse)
(* A segment is taken only if the blocks of the others are all in use (ReuseOK), and gives as many blocks as it can. *)
PerSegment == LET n == (SegSize - Ptr - ali + 1) \div blk IN IF n < 1 THEN 1 ELSE n
SpaceOK == \A s \in DOMAIN segs : /\ Cardinality({b \in Blocks : segs[s][1] <= b /\ b < segs[s][1] + segs[s][2]}) >= PerSegment
                                 /\ segs[s][2] <= (IF SegSize < Ptr + ali + blk THEN Ptr + ali + blk ELSE SegSize)
ReuseOK == [][(op'[1] = 1 /\ free # <<>>) => segs' = segs]_<<vars, op>>
KeepOK == [][\A i \in InUse : slot'[i] \in {0, slot[i]}]_<<vars, op>>

View == vars
Id(s) == <<TLCFP(s), TLCFP(<<"x", s>>)>>
Obs == [i \in 1..Max |-> IF slot[i] # 0 THEN 1 ELSE 0]
EmitS == Emit => PrintT("@S " \o ToString(Id(vars)) \o " " \o ToString(Obs))
EmitE == Emit => PrintT("@E " \o ToString(Id(vars)) \o " " \o ToString(op') \o " " \o ToString(Id(vars')))
=============================================================================
