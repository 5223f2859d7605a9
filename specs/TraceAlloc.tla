------------------------------ MODULE TraceAlloc ------------------------------
(* Validates the events recorded by harness/h_alloc.c.  used[i] is where the *)
(* slot i is: <<heap block, offset>>, or <<0, 0>> if not in use.             *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t, used, freed, cnt, peak
Ev == Trace[l]
Par == Trace[t]
Arg == Trace[l + 1]

Ali == IF Par.align < Par.ptr THEN Par.ptr ELSE Par.align
Blk == IF Par.block % Ali = 0 THEN Par.block ELSE Par.block + Ali - (Par.block % Ali)

TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l /\ used = [i \in {} |-> <<>>] /\ freed = 0 /\ cnt = 0 /\ peak = 0

(* an event allocates or frees several slots: ev.s, at ev.b = <<heap block, offset, size of the heap block, address modulus alignment>> *)
Slots == {Arg.s[i] : i \in DOMAIN Arg.s}
Step == CASE Arg.e = "all" -> /\ used' = [i \in (DOMAIN used) \cup Slots |-> IF i \in Slots THEN Arg.b[CHOOSE j \in DOMAIN Arg.s : Arg.s[j] = i] ELSE used[i]]
                              /\ freed' = (IF freed > Len(Arg.s) THEN freed - Len(Arg.s) ELSE 0)
                              /\ cnt' = cnt + Len(Arg.s)
                              /\ peak' = (IF cnt' > peak THEN cnt' ELSE peak)
          [] Arg.e = "fre" -> /\ used' = [i \in (DOMAIN used) \ Slots |-> used[i]]
                              /\ freed' = freed + Len(Arg.s)
                              /\ cnt' = cnt - Len(Arg.s)
                              /\ UNCHANGED peak
          [] Arg.e = "don" -> UNCHANGED <<used, freed, cnt, peak>>
          [] Arg.e = "ini" -> used' = [i \in {} |-> <<>>] /\ freed' = 0 /\ cnt' = 0 /\ peak' = 0
          [] OTHER -> FALSE
TNext == l < Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<l, t, used, freed, cnt, peak>>

-----------------------------------------------------------------------------
Live == Ev.e \in {"all", "fre"}
New == IF Ev.e = "all" THEN {Ev.s[i] : i \in DOMAIN Ev.s} ELSE {}
InsideOK == \A i \in New : used[i][1] # 0 /\ used[i][2] + Par.block <= used[i][3]
AlignedOK == \A i \in New : used[i][4] = 0
(* as long as it should be, if rounded *)
DisjointOK == \A i \in New : \A j \in DOMAIN used : i # j /\ used[i][1] = used[j][1] =>
                 used[i][2] + Par.block <= used[j][2] \/ used[j][2] + Par.block <= used[i][2]
DataOK == Ev.data = 1
UsageOK == Ev.e \in {"init", "all", "fre", "ini"} => Ev.mu = cnt * Blk
(* ev.ra: allocations that used the heap when there were blocks deallocated *)
ReuseOK == Ev.e = "all" => Ev.ra = 0
HeapOK == /\ Ev.bf = 0
          /\ Live => Ev.fr = 0
          /\ Ev.e = "fre" => Ev.al = 0
          /\ Ev.e = "don" => Ev.ob = 0 /\ Ev.oc = 0 /\ Ev.al = 0
(* C26: the segments are the ones needed for the biggest number of blocks in use, full of blocks, with a header of
   a pointer and the space to align, and of a default size, if it's enough for a block *)
PerSegment == LET n == (4032 - Par.ptr - Ali + 1) \div Blk IN IF n < 1 THEN 1 ELSE n
SegBytes == IF Par.ptr + Ali + Blk > 4096 THEN Par.ptr + Ali + Blk ELSE 4096
SpaceOK == Ev.e # "don" => /\ Ev.oc <= (peak + PerSegment - 1) \div PerSegment
                          /\ Ev.ob <= Ev.oc * SegBytes
Alias == [line |-> l, event |-> Ev, used |-> used, count |-> cnt, block |-> Blk]
=============================================================================
