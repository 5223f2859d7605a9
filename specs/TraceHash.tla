------------------------------ MODULE TraceHash ------------------------------
(* Validates the events recorded by harness/h_hash.c. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, Lookup3

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
Ev == Trace[l]
TInit == l = 1
TNext == l < Len(Trace) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l

-----------------------------------------------------------------------------
ASSUME Vectors32 /\ Vectors64

Hash(k, i, d) == CASE k = "u32" -> Hash32(Low32(i), d)
                   [] k = "u64" -> Hash64(i, d)
                   [] k = "str" -> StrHash(i, d)
(* the same value wherever the data is, and whatever is around it *)
OneOK == Ev.e = "one" => Len(Ev.r) = 1
ValueOK == Ev.e = "one" => Ev.r[1] = Hash(Ev.k, Ev.i, Ev.d)
RefOK == Ev.e = "one" => Ev.f = Hash(Ev.k, Ev.i, Ev.d)
(* many contents, compared with the reference that RefOK validates *)
BulkOK == Ev.e = "bulk" => Ev.bad = 0
KnownOK == Ev.e \in {"one", "bulk"}
Alias == [line |-> l, event |-> Ev]
=============================================================================
