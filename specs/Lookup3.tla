------------------------------- MODULE Lookup3 -------------------------------
(* The hash functions of memory blocks: hashlittle() and hashlittle2() of    *)
(* "lookup3.c, by Bob Jenkins, May 2006", and the hash of strings of         *)
(* tommyds, that is the same construction without the length.                *)
(* Written from the published description, reading the data as a sequence   *)
(* of bytes, padded with zeros.  Words are the ones of Words.tla.            *)
EXTENDS Integers, Sequences, Words

Beef == <<48879, 57005>> \* 0xdeadbeef

(* 32 bits little endian word of the bytes d[p]..d[p+3], counting from 0, reading 0 from the length n *)
Byte(d, n, p) == IF p < n THEN d[p + 1] ELSE 0
Read(d, n, p) == <<Byte(d, n, p) + 256 * Byte(d, n, p + 1), Byte(d, n, p + 2) + 256 * Byte(d, n, p + 3)>>

(* a -= c; a ^= rot(c, k); c += b  gives <<a, c>> *)
MixStep(a, b, c, k) == <<WXor(Sub(a, c), Rot(c, k)), Add(c, b)>>
Mix(s) ==
  LET r1 == MixStep(s[1], s[2], s[3], 4)
      r2 == MixStep(s[2], r1[2], r1[1], 6)    \* <<b, a>>
      r3 == MixStep(r1[2], r2[2], r2[1], 8)   \* <<c, b>>
      r4 == MixStep(r2[2], r3[2], r3[1], 16)  \* <<a, c>>
      r5 == MixStep(r3[2], r4[2], r4[1], 19)  \* <<b, a>>
      r6 == MixStep(r4[2], r5[2], r5[1], 4)   \* <<c, b>>
  IN <<r5[2], r6[2], r6[1]>>

FinStep(x, y, k) == Sub(WXor(x, y), Rot(y, k))
Final(s) ==
  LET c1 == FinStep(s[3], s[2], 14)
      a1 == FinStep(s[1], c1, 11)
      b1 == FinStep(s[2], a1, 25)
      c2 == FinStep(c1, b1, 16)
      a2 == FinStep(a1, c2, 4)
      b2 == FinStep(b1, a2, 14)
      c3 == FinStep(c2, b2, 24)
  IN <<a2, b2, c3>>

Absorb(s, d, n, p) == <<Add(s[1], Read(d, n, p)), Add(s[2], Read(d, n, p + 4)), Add(s[3], Read(d, n, p + 8))>>
(* all the rounds of 12 bytes, but the last one, that may be shorter *)
RECURSIVE Rounds(_, _, _, _)
Rounds(s, d, n, p) == IF n - p > 12 THEN Rounds(Mix(Absorb(s, d, n, p)), d, n, p + 12) ELSE <<s, p>>
Lookup(s, d) == LET r == Rounds(s, d, Len(d), 0)
                IN IF Len(d) = 0 THEN s ELSE Final(Absorb(r[1], d, Len(d), r[2]))

Word32(n) == <<n % L16, n \div L16>>
(* hashlittle() *)
Hash32(init, d) == LET s == Add(Add(Beef, Word32(Len(d))), init) IN Lookup(<<s, s, s>>, d)[3]
(* hashlittle2(): the low word of the initialization is *pc, and the high one is *pb; the result has c low and b high *)
Hash64(init, d) == LET s == Add(Add(Beef, Word32(Len(d))), Low32(init))
                       r == Lookup(<<s, s, Add(s, High32(init))>>, d)
                   IN Join(r[3], r[2])

(* hash of a string, d are the bytes before the terminator: every complete block of 12 bytes is mixed *)
RECURSIVE StrRounds(_, _, _)
StrRounds(s, d, p) == IF Len(d) - p >= 12 THEN StrRounds(Mix(Absorb(s, d, Len(d), p)), d, p + 12) ELSE <<s, p>>
StrHash(init, d) == LET s == Add(Beef, Low32(init))
                        r == StrRounds(<<s, s, s>>, d, 0)
                    IN Final(Absorb(r[1], d, Len(d), r[2]))[3]

(* the values published in lookup3.c *)
FourScore == <<70,111,117,114,32,115,99,111,114,101,32,97,110,100,32,115,101,118,101,110,32,121,101,97,114,115,32,97,103,111>>
H(h, l) == <<l, h>>
Vectors32 ==
  /\ Hash32(H(0, 0), <<>>) = Beef
  /\ Hash32(Beef, <<>>) = H(48475, 32222)                 \* bd5b7dde
  /\ Hash32(H(0, 0), FourScore) = H(6007, 1361)           \* 17770551
  /\ Hash32(H(0, 1), FourScore) = H(52578, 33121)         \* cd628161
(* initialization and result are <<low word, high word>> *)
Vectors64 ==
  /\ Hash64(Join(H(0, 0), H(0, 0)), <<>>) = Join(Beef, Beef)
  /\ Hash64(Join(H(0, 0), Beef), <<>>) = Join(H(48475, 32222), Beef)         \* bd5b7dde deadbeef
  /\ Hash64(Join(Beef, Beef), <<>>) = Join(H(39945, 15565), H(48475, 32222)) \* 9c093ccd bd5b7dde
  /\ Hash64(Join(H(0, 0), H(0, 0)), FourScore) = Join(H(6007, 1361), H(52850, 9958))    \* 17770551 ce7226e6
  /\ Hash64(Join(H(0, 0), H(0, 1)), FourScore) = Join(H(58208, 31918), H(48439, 7652))  \* e3607cae bd371de4
  /\ Hash64(Join(H(0, 1), H(0, 0)), FourScore) = Join(H(52578, 33121), H(27838, 42163)) \* cd628161 6cbea4b3
=============================================================================
