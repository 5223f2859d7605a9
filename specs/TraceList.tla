------------------------------ MODULE TraceList ------------------------------
(* Validates the events recorded by harness/h_list.c: a state is the         *)
(* sequence of nodes of each list, see List.                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t, seqs, res
Ev == Trace[l]
Par == Trace[t]
Arg == Trace[l + 1]

TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l
         /\ seqs = [i \in 1..Trace[l].lists |-> <<>>]
         /\ res = 0

Key(n) == Par.keys[n]
StableSorted(s) == LET idx == SetToSortSeq(DOMAIN s, LAMBDA i, j : Key(s[i]) < Key(s[j]) \/ (Key(s[i]) = Key(s[j]) /\ i < j))
                   IN [i \in DOMAIN s |-> s[idx[i]]]

Step == LET a == Arg.a
            b == Arg.b
        IN CASE Arg.e = "head" -> seqs' = [seqs EXCEPT ![a] = <<b>> \o @] /\ res' = 0
             [] Arg.e = "tail" -> seqs' = [seqs EXCEPT ![a] = Append(@, b)] /\ res' = 0
             [] Arg.e = "rem" -> seqs' = [seqs EXCEPT ![a] = SelectSeq(@, LAMBDA x : x # b)] /\ res' = b
             [] Arg.e = "cat" -> seqs' = [seqs EXCEPT ![a] = @ \o seqs[b], ![b] = <<>>] /\ res' = 0
             [] Arg.e = "sort" -> seqs' = [seqs EXCEPT ![a] = StableSorted(@)] /\ res' = 0
             [] Arg.e \in {"obs", "for", "ffr", "ini"} -> UNCHANGED seqs /\ res' = 0
             [] OTHER -> FALSE

TNext == l < Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<l, t, seqs, res>>

-----------------------------------------------------------------------------
Gone == Ev.e = "ffr"
ResultOK == Ev.r = res
ForwardOK == ~ Gone => Ev.fw = seqs
BackwardOK == ~ Gone => Ev.bw = [i \in DOMAIN seqs |-> Reverse(seqs[i])]
EndsOK == ~ Gone => \A i \in DOMAIN seqs :
            LET z == Len(seqs[i])
            IN /\ Ev.hd[i] = (IF z = 0 THEN 0 ELSE seqs[i][1])
               /\ Ev.tl[i] = (IF z = 0 THEN 0 ELSE seqs[i][z])
               /\ Ev.emp[i] = (IF z = 0 THEN 1 ELSE 0)
               /\ Ev.cnt[i] = z
(* a node removed is left as it was: it's possible to go on walking from it *)
KeptOK == Ev.e = "rem" => /\ Ev.kp = 1
                          /\ LET s == Trace[l - 1].fw[Ev.a]
                                 i == CHOOSE i \in DOMAIN s : s[i] = Ev.b
                             IN Ev.kn = (IF i = Len(s) THEN 0 ELSE s[i + 1])
(* the comparison was called only with elements of the list *)
CompareOK == Ev.bad = 0
IterationOK == Ev.e \in {"for", "ffr"} => Ev.it = seqs
HeapOK == Ev.al = 0 /\ Ev.bf = 0 /\ Ev.fr = 0

Alias == [line |-> l, event |-> Ev, expected |-> seqs, expected_result |-> res]
=============================================================================
