-------------------------------- MODULE Words --------------------------------
(* Machine words as tuples of 16 bits limbs, the lowest first: 2 limbs for   *)
(* the 32 bits ones and 4 limbs for the 64 bits ones (TLC has 32 bits signed *)
(* integers).  Tuples are written explicitly, because TLC evaluates lazily   *)
(* the functions.                                                            *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise

L16 == 65536
Build(n, F(_)) == IF n = 2 THEN <<F(1), F(2)>> ELSE <<F(1), F(2), F(3), F(4)>>
Zero(n) == Build(n, LAMBDA i : 0)
Ones(n) == Build(n, LAMBDA i : L16 - 1)
One(n) == Build(n, LAMBDA i : IF i = 1 THEN 1 ELSE 0)
Bits(x) == 16 * Len(x)
IsWord(x, n) == Len(x) = n /\ \A i \in 1..n : x[i] \in 0..(L16 - 1)

RECURSIVE Carry(_, _, _)
Carry(x, y, i) == IF i = 0 THEN 0 ELSE (x[i] + y[i] + Carry(x, y, i - 1)) \div L16
Add(x, y) == Build(Len(x), LAMBDA i : (x[i] + y[i] + Carry(x, y, i - 1)) % L16)
Com(x) == Build(Len(x), LAMBDA i : (L16 - 1) - x[i])
Neg(x) == Add(Com(x), One(Len(x)))
Sub(x, y) == Add(x, Neg(y))
WXor(x, y) == Build(Len(x), LAMBDA i : x[i] ^^ y[i])
WOr(x, y) == Build(Len(x), LAMBDA i : x[i] | y[i])
WAnd(x, y) == Build(Len(x), LAMBDA i : x[i] & y[i])
Limb(x, i) == IF i \in 1..Len(x) THEN x[i] ELSE 0
Shl(x, k) == LET q == k \div 16
                 r == k % 16
             IN Build(Len(x), LAMBDA i : ((Limb(x, i - q) * (2 ^ r)) % L16) + (Limb(x, i - q - 1) \div (2 ^ (16 - r))))
Shr(x, k) == LET q == k \div 16
                 r == k % 16
             IN Build(Len(x), LAMBDA i : (Limb(x, i + q) \div (2 ^ r)) + ((Limb(x, i + q + 1) * (2 ^ (16 - r))) % L16))
Rot(x, k) == WOr(Shl(x, k), Shr(x, Bits(x) - k))
Bit(x, k) == (x[(k \div 16) + 1] \div (2 ^ (k % 16))) % 2
Low32(x) == <<x[1], x[2]>>
High32(x) == <<x[3], x[4]>>
Join(lo, hi) == lo \o hi

RECURSIVE LimbLess(_, _, _)
LimbLess(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LimbLess(x, y, i - 1)
Less(x, y) == LimbLess(x, y, Len(x))
Leq(x, y) == ~Less(y, x)
(* a word with only the bit k set, zero if k is out of range *)
Pow2(n, k) == Build(n, LAMBDA i : IF k \div 16 = i - 1 THEN 2 ^ (k % 16) ELSE 0)
=============================================================================
