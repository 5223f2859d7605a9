------------------------------ MODULE TraceBits ------------------------------
(* Validates the events recorded by harness/h_bits.c. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, Bits

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
Ev == Trace[l]
TInit == l = 1
TNext == l < Len(Trace) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l

-----------------------------------------------------------------------------
N64(k) == <<k, 0, 0, 0>>
W64(x) == IF Len(x) = 2 THEN Join(x, <<0, 0>>) ELSE x
Meaning(fn, x) == CASE fn \in {"hi32", "hi64", "hi"} -> N64(Highest(x))
                    [] fn \in {"lo32", "lo64", "lo"} -> N64(Lowest(x))
                    [] fn \in {"up32", "up64", "up"} -> W64(RoundUp(x))
                    [] fn = "zero" -> N64(IF HasZero(x) THEN 1 ELSE 0)
OneOK == Ev.e = "one" => Ev.y = Meaning(Ev.fn, Ev.x)
RefOK == Ev.e = "one" => Ev.f = Meaning(Ev.fn, Ev.x)

(* the enumerations: by result, how many words, the first and the last one, and the bits common and present *)
Found == {Ev.c[i] : i \in DOMAIN Ev.c}
Cls(c) == <<c.n, c.min, c.max>>
Exact == Ev.b = Zero(4)
HighOK == \A k \in 0..31 : \E c \in Found : c.k = k + Ev.s /\ Cls(c) = HighClass(k)
LowOK == IF Exact
         THEN \A k \in 0..31 : \E c \in Found :
                /\ c.k = k + Ev.s
                /\ c.n = Pow2(4, 31 - k)
                /\ LET m == Sub(Pow2(4, k + 1), One(4))
                   IN WAnd(c.and, m) = Pow2(4, k) /\ WAnd(c.or, m) = Pow2(4, k)
         ELSE \E c \in Found : c.k = Lowest(Ev.b) /\ Cls(c) = <<Sub(Pow2(4, 32), One(4)), One(4), Sub(Pow2(4, 32), One(4))>>
(* the last result of a rounding is the greatest power of two that is representable *)
RoundFirst == IF Exact THEN 0 ELSE 1
RoundLast == IF Ev.s = 32 \/ Ev.fn = "up32" THEN 31 ELSE 32
RoundWant(k) == IF k = 32 THEN <<Sub(Pow2(4, 31), One(4)), Add(Pow2(4, 31), One(4)), Sub(Pow2(4, 32), One(4))>> ELSE RoundClass(k, Exact)
RoundOK == \A k \in RoundFirst..RoundLast : \E c \in Found : c.k = k + Ev.s /\ Cls(c) = RoundWant(k)
EnumOK == Ev.e = "enum" =>
   CASE Ev.fn \in {"hi32", "hi64"} -> Cardinality(Found) = 32 /\ HighOK
     [] Ev.fn \in {"lo32", "lo64"} -> Cardinality(Found) = (IF Exact THEN 32 ELSE 1) /\ LowOK
     [] Ev.fn \in {"up32", "up64"} -> Cardinality(Found) = RoundLast - RoundFirst + 1 /\ RoundOK
     [] OTHER -> FALSE
(* by pattern of zero bytes: how many words with result 0, 1 and any other *)
RECURSIVE Pow255(_)
Pow255(k) == IF k = 0 THEN One(4) ELSE LET p == Pow255(k - 1) IN Sub(Shl(p, 8), p)
ZeroOK == Ev.e = "zero" => \A i \in DOMAIN Ev.p : LET p == Ev.p[i] IN
   p.n = IF p.z = 0 THEN <<Pow255(4), Zero(4), Zero(4)>> ELSE <<Zero(4), Pow255(4 - p.z), Zero(4)>>
ConstOK == Ev.e = "const" => Ev.k = <<0, 1, 2, 3, 4, 5, 6, 7, 8>>
(* random values, compared with the reference that RefOK validates *)
BulkOK == Ev.e = "bulk" => Ev.bad = 0
KnownOK == Ev.e \in {"one", "enum", "zero", "const", "bulk", "skip"}
Alias == [line |-> l, event |-> Ev]
=============================================================================
