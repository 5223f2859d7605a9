------------------------------- MODULE IntHash -------------------------------
(* The reversible integer hashes: "4-byte Integer Hashing, full avalanche"   *)
(* by Bob Jenkins and the "Integer Hash Function" for 64 bits by Thomas      *)
(* Wang, as sequences of steps, each one with its inverse.                   *)
EXTENDS Integers, Sequences, Words

Hash32(k0) ==
  LET k1 == Sub(k0, Shl(k0, 6))
      k2 == WXor(k1, Shr(k1, 17))
      k3 == Sub(k2, Shl(k2, 9))
      k4 == WXor(k3, Shl(k3, 4))
      k5 == Sub(k4, Shl(k4, 3))
      k6 == WXor(k5, Shl(k5, 10))
  IN WXor(k6, Shr(k6, 15))

Hash64(k0) ==
  LET k1 == Add(Com(k0), Shl(k0, 21))
      k2 == WXor(k1, Shr(k1, 24))
      k3 == Add(Add(k2, Shl(k2, 3)), Shl(k2, 8))
      k4 == WXor(k3, Shr(k3, 14))
      k5 == Add(Add(k4, Shl(k4, 2)), Shl(k4, 4))
      k6 == WXor(k5, Shr(k5, 28))
  IN Add(k6, Shl(k6, 31))

(* Inverse of a step y = f(x), as the fixpoint x = G(y, x): each iteration  *)
(* gets right at least s bits more, from the side that is not shifted.       *)
RECURSIVE Fix(_, _, _, _)
Fix(G(_, _), y, x, n) == IF n = 0 THEN x ELSE Fix(G, y, G(y, x), n - 1)
Iter(y, s) == (Bits(y) + s - 1) \div s
InvXorShr(y, s) == Fix(LAMBDA a, x : WXor(a, Shr(x, s)), y, y, Iter(y, s))
InvXorShl(y, s) == Fix(LAMBDA a, x : WXor(a, Shl(x, s)), y, y, Iter(y, s))
InvSubShl(y, s) == Fix(LAMBDA a, x : Add(a, Shl(x, s)), y, y, Iter(y, s))
InvAddShl(y, s) == Fix(LAMBDA a, x : Sub(a, Shl(x, s)), y, y, Iter(y, s))
InvAddShl2(y, s, t) == Fix(LAMBDA a, x : Sub(Sub(a, Shl(x, s)), Shl(x, t)), y, y, Iter(y, s))
InvComAddShl(y, s) == Fix(LAMBDA a, x : Sub(Sub(Shl(x, s), One(Len(a))), a), y, y, Iter(y, s))

Unhash32(y) == InvSubShl(InvXorShr(InvSubShl(InvXorShl(InvSubShl(InvXorShl(InvXorShr(y, 15), 10), 3), 4), 9), 17), 6)
Unhash64(y) == InvComAddShl(InvXorShr(InvAddShl2(InvXorShr(InvAddShl2(InvXorShr(InvAddShl(y, 31), 28), 2, 4), 14), 3, 8), 24), 21)
=============================================================================
