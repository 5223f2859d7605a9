------------------------------ MODULE TraceInt -------------------------------
(* Validates the events recorded by harness/h_int.c. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, IntHash

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
Ev == Trace[l]
TInit == l = 1
TNext == l < Len(Trace) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l

-----------------------------------------------------------------------------
Hash(x) == IF Len(x) = 2 THEN Hash32(x) ELSE Hash64(x)
Unhash(x) == IF Len(x) = 2 THEN Unhash32(x) ELSE Unhash64(x)
(* the published function *)
ValueOK == Ev.e = "one" => Ev.y = Hash(Ev.x)
RefOK == Ev.e = "one" => Ev.f = Hash(Ev.x)
(* what the code returns can be reversed *)
ReverseOK == Ev.e = "one" => Unhash(Ev.y) = Ev.x
(* all the words of 32 bits: as many different results as words, and none different from the reference *)
AllOK == Ev.e = "all" => Ev.n = <<0, 0, 1, 0>> /\ Ev.d = <<0, 0, 1, 0>> /\ Ev.bad = 0
(* many words of 64 bits: compared with the reference that RefOK validates, and the results reversed with its inverse *)
BulkOK == Ev.e = "bulk" => Ev.bad = 0 /\ Ev.rev = 0
KnownOK == Ev.e \in {"one", "all", "bulk"}
Alias == [line |-> l, event |-> Ev]
=============================================================================
