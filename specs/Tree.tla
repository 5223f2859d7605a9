-------------------------------- MODULE Tree --------------------------------
(* The tree, as tommytree.c implements it: an AVL tree, balanced from the    *)
(* bottom to the top after each change; the two subtrees of a removed        *)
(* element are joined by hanging the right one at the right end of the left. *)
(* Elements are <<key, copy>>, and copies with the same key compare equal.   *)
(*                                                                           *)
(* It refines the ordered set: Obs[k] is the copy present with key k, or 0.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS MaxKey, Copies, Emit

VARIABLES tree, cnt,
          op \* <<code, key, copy, result, comparisons>>; not part of the state (VIEW)
vars == <<tree, cnt>>

Keys == 1..MaxKey
Nil == <<>>
Node(l, e, r, h) == <<l, e, r, h>> \* left, element, right, height stored
H(t) == IF t = Nil THEN 0 ELSE t[4]
Max2(a, b) == IF a > b THEN a ELSE b
Delta(t) == H(t[1]) - H(t[3])

RECURSIVE Balance(_), RotateLeft(_), RotateRight(_)
RotateLeft(t) == LET n == t[3] IN Balance(Node(Balance(Node(t[1], t[2], n[1], t[4])), n[2], n[3], n[4]))
RotateRight(t) == LET p == t[1] IN Balance(Node(p[1], p[2], Balance(Node(p[3], t[2], t[3], t[4])), p[4]))
Balance(t) ==
    CASE Delta(t) < -1 -> RotateLeft(IF Delta(t[3]) > 0 THEN Node(t[1], t[2], RotateRight(t[3]), t[4]) ELSE t)
      [] Delta(t) > 1 -> RotateRight(IF Delta(t[1]) < 0 THEN Node(RotateLeft(t[1]), t[2], t[3], t[4]) ELSE t)
      [] OTHER -> Node(t[1], t[2], t[3], 1 + Max2(H(t[1]), H(t[3])))

RECURSIVE MoveRight(_, _)
MoveRight(t, n) == IF t = Nil THEN n ELSE Balance(Node(t[1], t[2], MoveRight(t[3], n), t[4]))

RECURSIVE Ins(_, _)
Ins(t, e) == IF t = Nil THEN Node(Nil, e, Nil, 1)
             ELSE IF e[1] < t[2][1] THEN Balance(Node(Ins(t[1], e), t[2], t[3], t[4]))
             ELSE IF e[1] > t[2][1] THEN Balance(Node(t[1], t[2], Ins(t[3], e), t[4]))
             ELSE t

RECURSIVE Rem(_, _)
Rem(t, k) == IF t = Nil THEN Nil
             ELSE IF k < t[2][1] THEN Balance(Node(Rem(t[1], k), t[2], t[3], t[4]))
             ELSE IF k > t[2][1] THEN Balance(Node(t[1], t[2], Rem(t[3], k), t[4]))
             ELSE MoveRight(t[1], t[3])

(* <<element found or <<0, 0>>, comparisons done>> *)
RECURSIVE Find(_, _, _)
Find(t, k, c) == IF t = Nil THEN <<<<0, 0>>, c>>
                 ELSE IF k < t[2][1] THEN Find(t[1], k, c + 1)
                 ELSE IF k > t[2][1] THEN Find(t[3], k, c + 1)
                 ELSE <<t[2], c + 1>>

RECURSIVE InOrder(_)
InOrder(t) == IF t = Nil THEN <<>> ELSE InOrder(t[1]) \o <<t[2]>> \o InOrder(t[3])

-----------------------------------------------------------------------------
Init == tree = Nil /\ cnt = 0 /\ op = <<>>

Insert(k, c) ==
    LET f == Find(tree, k, 0)
    IN IF f[1][2] # 0
       THEN \* the copy has to be another one: the same can't be inserted again
            f[1][2] # c /\ UNCHANGED vars /\ op' = <<1, k, c, f[1][2], f[2]>>
       ELSE tree' = Ins(tree, <<k, c>>) /\ cnt' = cnt + 1 /\ op' = <<1, k, c, c, f[2]>>

Remove(k) ==
    LET f == Find(tree, k, 0)
    IN IF f[1][2] = 0 THEN UNCHANGED vars /\ op' = <<2, k, 0, 0, f[2]>>
       ELSE tree' = Rem(tree, k) /\ cnt' = cnt - 1 /\ op' = <<2, k, 0, f[1][2], f[2]>>

RemoveExisting(k) ==
    LET f == Find(tree, k, 0)
    IN f[1][2] # 0 /\ tree' = Rem(tree, k) /\ cnt' = cnt - 1 /\ op' = <<3, k, f[1][2], f[1][2], f[2]>>

Next == \E k \in Keys : Remove(k) \/ RemoveExisting(k) \/ \E c \in 1..Copies : Insert(k, c)
Spec == Init /\ [][Next]_<<vars, op>>

-----------------------------------------------------------------------------
Obs == [k \in Keys |-> Find(tree, k, 0)[1][2]]

(* The visit in order is the sequence of the elements present, sorted. *)
OrderOK == LET s == InOrder(tree) IN /\ \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]
                                     /\ {s[i] : i \in DOMAIN s} = {<<k, Obs[k]>> : k \in {x \in Keys : Obs[x] # 0}}
                                     /\ cnt = Len(s)

RECURSIVE Height(_), Balanced(_)
Height(t) == IF t = Nil THEN 0 ELSE 1 + Max2(Height(t[1]), Height(t[3]))
Balanced(t) == t = Nil \/ /\ t[4] = Height(t)
                          /\ Height(t[1]) - Height(t[3]) \in -1..1
                          /\ Balanced(t[1]) /\ Balanced(t[3])
BalanceOK == Balanced(tree)

(* Elements of the smallest AVL tree of each height, and the biggest height with n elements. *)
RECURSIVE MinElements(_), MaxHeight(_, _)
MinElements(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + MinElements(h - 1) + MinElements(h - 2)
MaxHeight(n, h) == IF MinElements(h + 1) > n THEN h ELSE MaxHeight(n, h + 1)
CostOK == /\ \A k \in Keys : Find(tree, k, 0)[2] <= MaxHeight(cnt, 0)
          /\ op # <<>> => op[5] <= MaxHeight(cnt + 1, 0)

Refines == [][Obs' = CASE op'[1] = 1 -> IF Obs[op'[2]] = 0 THEN [Obs EXCEPT ![op'[2]] = op'[3]] ELSE Obs
                       [] OTHER -> [Obs EXCEPT ![op'[2]] = 0]]_<<vars, op>>

View == vars
Id(s) == <<TLCFP(s), TLCFP(<<"x", s>>)>>
EmitS == Emit => PrintT("@S " \o ToString(Id(vars)) \o " " \o ToString(Obs))
EmitE == Emit => PrintT("@E " \o ToString(Id(vars)) \o " " \o ToString(<<op'[1], op'[2], op'[3], op'[4]>>) \o " " \o ToString(Id(vars')))
=============================================================================
