------------------------------ MODULE TraceMulti -----------------------------
(* Validates the events recorded by harness/h_multi.c: after each operation  *)
(* everything that can be observed of all the instances is recorded.         *)
EXTENDS MultiOps, Json, IOUtils, TLC, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* last event consumed
          t,        \* first event of the trace
          cont,     \* content of all the instances
          res,      \* expected result of each operation of the event
          before    \* content before each operation of the event
Ev == Trace[l]
Par == Trace[t]
Arg == Trace[l + 1]
Kinds == Par.kinds
Key == Par.key
NK == Par.nk

(* An event is a sequence of one operation, or of two if the second was done *)
(* inside a callback (comparison or visit) of the first.  They are on        *)
(* different instances, or both only read, so by Commute (MultiIndex.tla)    *)
(* the effect is the one of doing them one after the other.                  *)
RECURSIVE States(_, _)
States(c, ops) == IF ops = <<>> THEN <<c>> ELSE <<c>> \o States(Apply(Kinds, c, Key, NK, Head(ops)), Tail(ops))
Results(st, ops) == [i \in 1..Len(ops) |-> Result(Kinds[ops[i][2]], st[i][ops[i][2]], Key, ops[i])]
Nestable(ops) == Len(ops) = 2 => (\/ Touched(Kinds, ops[1]) \cap Touched(Kinds, ops[2]) = {}
                                  \/ ~Changes(ops[1]) /\ ~Changes(ops[2]))

TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l /\ cont = [i \in DOMAIN Trace[l].kinds |-> <<>>] /\ res = <<>> /\ before = <<>>
(* Event "par": threads that observe everything at the same time. *)
TNext == /\ l < Len(Trace) /\ Arg.e \in {"op", "par"} /\ Nestable(Arg.o)
         /\ LET st == States(cont, Arg.o)
            IN /\ cont' = st[Len(st)]
               /\ res' = Results(st, Arg.o)
               /\ before' = st
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<l, t, cont, res, before>>

-----------------------------------------------------------------------------
Insts == DOMAIN Kinds
IsOp == Ev.e \in {"op", "par"}
IsPar == Ev.e = "par"
Old == Trace[l - 1]
Ops == IF IsOp THEN Ev.o ELSE <<>>
Touch == UNION {Touched(Kinds, Ops[j]) : j \in DOMAIN Ops}
ChangesAt(i, j) == i \in Touched(Kinds, Ops[j]) /\ Changes(Ops[j]) /\ ~(Ops[j][1] = 3 /\ res[j] = 0)
Still == {i \in Insts : \A j \in DOMAIN Ops : ~ChangesAt(i, j)}

ResultOK == IsOp => Ev.r = res
(* what was visited by each iteration *)
Sorted(s) == SetToSortSeq({s[i] : i \in DOMAIN s}, <)
VisitOK == \A j \in DOMAIN Ops : Ops[j][1] = 8 =>
              LET i == Ops[j][2]
                  v == View1(Kinds[i], before[j][i], Key, NK)
              IN Ev.it[j] = IF Kinds[i] \in Hashes THEN Sorted(v) ELSE v
(* the instances of the operation have the content they should *)
ContentOK == \A i \in (IF IsOp /\ ~IsPar THEN Touch ELSE Insts) : Ev.q[i] = View1(Kinds[i], cont[i], Key, NK) /\ Ev.n[i] = Len(cont[i])
(* the others have the one they had, and report what they reported *)
FrameOK == IsOp => \A i \in Still : Ev.q[i] = Old.q[i] /\ Ev.n[i] = Old.n[i] /\ Ev.mu[i] = Old.mu[i] /\ Ev.own[i] = Old.own[i]
(* operations that change nothing neither change what is owned *)
QuietOK == (IsOp /\ Still = Insts) => Ev.own = Old.own /\ Ev.ua = Old.ua /\ Ev.ub = Old.ub /\ Ev.al = 0 /\ Ev.fr = 0
(* an allocator has in use the blocks of its users, and no other *)
Nodes(i) == Ev.mu[i] - Len(cont[i]) * Par.ns
RECURSIVE Sum(_, _)
Sum(S, kind) == LET T == {i \in S : Kinds[i] = kind} IN IF T = {} THEN 0 ELSE LET i == CHOOSE i \in T : TRUE IN (IF kind = "alloc" THEN Len(cont[i]) * Par.bs ELSE Nodes(i)) + Sum(T \ {i}, kind)
SharedOK == Ev.ua = Sum(Insts, "trie") + Sum(Insts, "alloc") /\ Ev.ub = Sum(Insts, "trie2")
(* C23: nothing was written by an operation that only reads, and each of the *)
(* threads reading at the same time saw what is seen alone (Readers.tla)     *)
ReadOnlyOK == Ev.wr = 0
ReadersOK == IsPar => \A j \in DOMAIN Ev.p :
                /\ Ev.p[j].q = [i \in Insts |-> View1(Kinds[i], cont[i], Key, NK)]
                /\ Ev.p[j].n = [i \in Insts |-> Len(cont[i])]
                /\ Ev.p[j].mu = Ev.mu /\ Ev.p[j].ua = Ev.ua /\ Ev.p[j].ub = Ev.ub /\ Ev.p[j].fn = Ev.fn
                /\ Ev.p[j].bad = 0
HeapOK == Ev.bf = 0 /\ Ev.fo = 0
Alias == [line |-> l, op |-> Ops, event |-> Ev, content |-> cont, result |-> res]
=============================================================================
