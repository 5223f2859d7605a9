--------------------------------- MODULE Bits --------------------------------
(* The bit functions, as what they mean. *)
EXTENDS Integers, Sequences, Words

Set(x) == {k \in 0..(Bits(x) - 1) : Bit(x, k) = 1}
Highest(x) == CHOOSE k \in Set(x) : \A j \in Set(x) : j <= k
Lowest(x) == CHOOSE k \in Set(x) : \A j \in Set(x) : k <= j
(* the smallest power of two not less than x, if there is one in the word *)
RoundUps(x) == {k \in 0..(Bits(x) - 1) : Leq(x, Pow2(Len(x), k))}
RoundUp(x) == Pow2(Len(x), CHOOSE k \in RoundUps(x) : \A j \in RoundUps(x) : k <= j)
HasZero(x) == \E i \in 1..Len(x) : x[i] \div 256 = 0 \/ x[i] % 256 = 0

(* For the words base + i * 2^s, with i a 32 bits word not zero, and base < 2^s, *)
(* the words i with a result k, as <<count, smallest, greatest>>, for the highest bit: *)
HighClass(k) == <<Pow2(4, k), Pow2(4, k), Sub(Pow2(4, k + 1), One(4))>>
(* ... and for the rounding to 2^k (exact: base is 0)  *)
RoundClass(k, exact) == IF exact
   THEN IF k = 0 THEN <<One(4), One(4), One(4)>> ELSE <<Pow2(4, k - 1), Add(Pow2(4, k - 1), One(4)), Pow2(4, k)>>
   ELSE <<Pow2(4, k - 1), Pow2(4, k - 1), Sub(Pow2(4, k), One(4))>>
=============================================================================
