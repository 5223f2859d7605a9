----------------------------- MODULE StepShapes ------------------------------
(* The shapes of the steps of the integer hashes are bijections of the words *)
(* of w bits, and the inverse used by IntHash.tla is their inverse, for each *)
(* width w and shift s: checked for all the words of small widths.           *)
EXTENDS Integers, FiniteSets, Bitwise

CONSTANT MaxW
VARIABLES w, s, t, kind

M == 2 ^ w
Word == 0..(M - 1)
Up(x, k) == (x * (2 ^ k)) % M
Down(x, k) == x \div (2 ^ k)
F(x) == CASE kind = "xorshr" -> x ^^ Down(x, s)
          [] kind = "xorshl" -> x ^^ Up(x, s)
          [] kind = "subshl" -> (M + x - Up(x, s)) % M
          [] kind = "addshl" -> (x + Up(x, s)) % M
          [] kind = "addshl2" -> (x + Up(x, s) + Up(x, t)) % M
          [] kind = "comaddshl" -> ((M - 1) - x + Up(x, s)) % M
G(y, x) == CASE kind = "xorshr" -> y ^^ Down(x, s)
             [] kind = "xorshl" -> y ^^ Up(x, s)
             [] kind = "subshl" -> (y + Up(x, s)) % M
             [] kind = "addshl" -> (M + y - Up(x, s)) % M
             [] kind = "addshl2" -> (2 * M + y - Up(x, s) - Up(x, t)) % M
             [] kind = "comaddshl" -> (2 * M + Up(x, s) - 1 - y) % M
RECURSIVE Fix(_, _, _)
Fix(y, x, n) == IF n = 0 THEN x ELSE Fix(y, G(y, x), n - 1)
Inv(y) == Fix(y, y, (w + s - 1) \div s)

Kinds == {"xorshr", "xorshl", "subshl", "addshl", "addshl2", "comaddshl"}
Init == /\ w \in 2..MaxW /\ s \in 1..(w - 1) /\ kind \in Kinds
        /\ t \in (IF kind = "addshl2" THEN (s + 1)..w ELSE {0})
Next == FALSE /\ UNCHANGED <<w, s, t, kind>>
Spec == Init /\ [][Next]_<<w, s, t, kind>>

Bijective == Cardinality({F(x) : x \in Word}) = M
Inverse == \A x \in Word : Inv(F(x)) = x
=============================================================================
