------------------------------ MODULE TraceMap ------------------------------
(* Validates the events recorded by harness/h_map.c against Multimap, and    *)
(* the aspects related to it: sizing policy, memory reported, heap budget of *)
(* each operation, work of each operation, iteration.                        *)
(*                                                                           *)
(* The file contains any number of traces, each one starting with an "init"  *)
(* event.  A key of the specification is a block of sz[k] real keys, and an  *)
(* object a layer of one object for each key of the block (see h_map.c).     *)
(* The driver chooses operations and arguments, the specification computes   *)
(* the state after them, and the invariants compare the state with what was  *)
(* observed.  All is logged, so there is one state for each event.           *)
EXTENDS Multimap, Integers, Json, IOUtils, TLC, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* last event consumed
          t,        \* first event of the trace, with its parameters
          res       \* expected result of the last event

Ev == Trace[l]
Par == Trace[t]

TInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].e = "init"}
         /\ t = l
         /\ mm = [k \in 1..Len(Trace[l].sz) |-> <<>>]
         /\ res = 0

IsEvent(name) == Trace[l + 1].e = name
Arg == Trace[l + 1]

(* Result of an operation that the specification doesn't allow: no code returns it. *)
Wrong == -99

Step == CASE IsEvent("ins") -> IF MHas(mm, Arg.k, Arg.o) THEN UNCHANGED mm /\ res' = Wrong
                               ELSE Insert(Arg.k, Arg.o) /\ res' = Arg.o
          [] IsEvent("rem") -> RemoveKey(Arg.k) /\ res' = MFirst(mm, Arg.k)
          [] IsEvent("rmx") -> IF ~ MHas(mm, Arg.k, Arg.o) THEN UNCHANGED mm /\ res' = Wrong
                               ELSE RemoveObject(Arg.k, Arg.o) /\ res' = Arg.o
          [] IsEvent("sea") -> UNCHANGED mm /\ res' = MFirst(mm, Arg.k)
          [] IsEvent("sid") -> UNCHANGED mm /\ res' = IF MHas(mm, Arg.k, Arg.o) THEN Arg.o ELSE 0
          [] IsEvent("rid") -> IF MHas(mm, Arg.k, Arg.o) THEN RemoveObject(Arg.k, Arg.o) /\ res' = Arg.o
                               ELSE UNCHANGED mm /\ res' = 0
          [] IsEvent("obs") -> UNCHANGED mm /\ res' = 0
          [] IsEvent("for") -> UNCHANGED mm /\ res' = 0
          [] IsEvent("ffr") -> UNCHANGED mm /\ res' = 0 \* the container is gone
          [] IsEvent("don") -> UNCHANGED mm /\ res' = 0
          [] OTHER -> FALSE

TNext == /\ l < Len(Trace)
         /\ Step
         /\ l' = l + 1
         /\ UNCHANGED t

TSpec == TInit /\ [][TNext]_<<mm, l, t, res>>

-----------------------------------------------------------------------------
Gone == Ev.e \in {"ffr", "don"}
Iterated == Ev.e \in {"for", "ffr"}
Total == SumOver([k \in DOMAIN mm |-> Par.sz[k] * Len(mm[k])], DOMAIN mm)

(* C01..C05 *)
ResultOK == Ev.r = res
ContentOK == (Ev.oq = 1 /\ ~ Iterated) => Ev.q = mm
CountOK == ~ Gone => Ev.n = Total /\ Ev.cm = 1

(* C20 *)
IterationOK == Iterated => Ev.q = [k \in DOMAIN mm |-> SetToSortSeq(Range(mm[k]), <)]

(* C13 *)
IsHash == Par.c \in {"hashtable", "hashdyn", "hashlin"}
ReadOnly == Ev.e \in {"sea", "sid", "obs", "for"}
HeapOK == /\ Ev.bf = 0 \* nothing released that is not owned
          /\ Ev.gd = 1 \* nothing written outside of the blocks owned
          /\ Gone => Ev.hn = 0 /\ Ev.own = 0 \* all released at the end
          /\ ReadOnly => Ev.al = 0 /\ Ev.fr = 0
          /\ Par.c = "trie_inplace" => Ev.al = 0 /\ Ev.fr = 0 /\ Ev.hn = 0
          /\ (Par.c = "hashlin" /\ Ev.e = "ins") => Ev.al <= 1 /\ Ev.fr = 0
          /\ (Par.c = "hashlin" /\ Ev.e \in {"rem", "rmx", "rid"}) => Ev.al = 0 /\ Ev.fr <= 1
          /\ (Par.c = "hashtable" /\ ~ Gone /\ Ev.e # "init") => Ev.al = 0 /\ Ev.fr = 0

(* C16 *)
UsageOK == ~ Gone => Ev.mu = Ev.own + Total * Par.ns
TrieEmptyOK == (Par.c = "trie" /\ ~ Gone /\ Total = 0) => Ev.own = 0

(* C24: the inner nodes of a trie, in blocks of the allocator.  Par.dig has the digits of each key, one for *)
(* each level, or nothing if the keys are not single; Par.ord is the order of the keys; Ev.fm is 1 more than *)
(* the memory of a trie made from scratch with the same content.                                            *)
(* Each prefix, that different keys have in common, has one inner node.  Going over the keys contained in    *)
(* order, those shared by two keys and not already seen are the ones longer than the part in common with the *)
(* key before.                                                                                              *)
RECURSIVE Common(_, _, _)
Common(a, b, j) == IF j > Len(a) THEN j - 1 ELSE IF a[j] # b[j] THEN j - 1 ELSE Common(a, b, j + 1)
Present == SelectSeq(Par.ord, LAMBDA k : mm[k] # <<>>)
Shared == LET s == Present
              c == [i \in 1..(Len(s) - 1) |-> Common(Par.dig[s[i]], Par.dig[s[i + 1]], 1)]
              F[i \in 0..(Len(s) - 1)] == IF i = 0 THEN 0
                                          ELSE F[i - 1] + (IF i = 1 THEN c[1] ELSE IF c[i] > c[i - 1] THEN c[i] - c[i - 1] ELSE 0)
          IN IF Len(s) < 2 THEN 0 ELSE F[Len(s) - 1]
NodesOK == (Par.c = "trie" /\ ~ Gone) => /\ (Len(Par.dig) # 0 => Ev.own = Par.bs * Shared)
                                        /\ (Ev.fm # 0 => Ev.own = Ev.fm - 1)

(* C14: number of buckets, from the memory usage *)
Buckets(ev, n) == (ev.mu - n * Par.ns) \div Par.ps
MinBuckets == CASE Par.c = "hashdyn" -> 2 ^ Par.db
                [] Par.c = "hashlin" -> 2 ^ Par.hb
                [] OTHER -> 16
IsPow2(x) == x \in {2 ^ i : i \in 0..30}
SizedFor(b, n) == CASE Par.c = "hashdyn" -> b >= 2 * n /\ (b <= MinBuckets \/ b <= 8 * n)
                    [] Par.c = "hashlin" -> b >= 2 * n /\ (b <= MinBuckets \/ b <= 16 * n)
                    [] OTHER -> b >= Par.p /\ (b <= MinBuckets \/ b < 2 * Par.p) /\ b = Buckets(Par, 0)
(* Ev.ch is the list of the <<count, buckets>> at each change of the number of buckets inside the event *)
GoodSize(b, n) == IsPow2(b) /\ b >= MinBuckets /\ SizedFor(b, n)
Growing == Ev.e = "ins"
SizeOK == (IsHash /\ ~ Gone) =>
            /\ GoodSize(Buckets(Ev, Total), Total)
            /\ \A i \in 1..Len(Ev.ch) : GoodSize(Ev.ch[i][2], Ev.ch[i][1])
            \* the extreme count with each number of buckets
            /\ \A i \in 2..Len(Ev.ch) : GoodSize(Ev.ch[i - 1][2], IF Growing THEN Ev.ch[i][1] - 1 ELSE Ev.ch[i][1] + 1)

(* Elements with consecutive hashes, of only one block, are spread evenly; mx is the longest bucket seen. *)
Alone == {k \in DOMAIN mm : mm[k] # <<>>}
SpreadOK == (IsHash /\ ~ Gone /\ Ev.oq = 1) =>
              \A k \in Alone : (Cardinality(Alone) = 1 /\ Len(mm[k]) = 1 /\ Par.sq[k] = 1) =>
                 LET b == Buckets(Ev, Total) IN Ev.mx <= (Total + b - 1) \div b

(* C15: basic blocks executed by the most expensive single operation of the event *)
WorkMax == 1000
WorkOK == (Ev.e \in {"ins", "rem", "rmx", "rid"} /\ Par.c = "hashlin") => Ev.w <= WorkMax

-----------------------------------------------------------------------------
Alias == [line |-> l, event |-> Ev, trace |-> [e |-> Par.e, c |-> Par.c, line |-> t], expected |-> mm, expected_result |-> res]
=============================================================================
