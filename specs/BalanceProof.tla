---------------------------- MODULE BalanceProof ----------------------------
(* The balance of Tree, for trees of any height, verified by Apalache with   *)
(* unbounded integers. The contract: a node with two AVL trees of heights    *)
(* l and r, whatever they are, becomes an AVL tree with the height Result.   *)
(* Insert and remove apply it from the bottom to the root, so they give AVL  *)
(* trees from AVL trees (C09), of any size.                                  *)
(* Here r >= l + 2, the other side is its mirror. The proof is by induction  *)
(* on the number of nodes, and then on r - l: the recursive calls done on    *)
(* less nodes, or on the same ones with a smaller difference, are replaced   *)
(* by the contract. Each state is one case of the induction.                 *)
(* Nodes: R = (L, N), N = (P, C), P = (U, V); lowercase their heights.       *)
EXTENDS Integers

VARIABLES
    \* @type: Int;
    l,
    \* @type: Int;
    c,
    \* @type: Int;
    p,
    \* @type: Int;
    u,
    \* @type: Int;
    v,
    \* @type: Int;
    h,   \* height of R, that has lost a part of N, after its balance
    \* @type: Int;
    res  \* height of the result

\* @type: (Int, Int) => Int;
Max(a, b) == IF a > b THEN a ELSE b
\* @type: (Int, Int) => Int;
Diff(a, b) == IF a > b THEN a - b ELSE b - a
\* @type: (Int, Int) => Int;
Node(a, b) == 1 + Max(a, b)
(* the contract *)
\* @type: (Int, Int, Int) => Bool;
Result(a, b, x) == IF Diff(a, b) <= 1 THEN x = Node(a, b) ELSE x = Max(a, b) \/ x = Max(a, b) + 1

r == Node(p, c)
(* If the left side of N is higher, first rotate_right(N): P becomes (U, N) with N = (V, C), and if U is lower it's      *)
(* balanced again by a rotate_left(P), that restores N = (P, C). Then rotate_left(R): its first child is the one of that *)
(* root, x, the other one y.                                                                                             *)
Again == p > c /\ Diff(u, Node(v, c)) > 1
x == IF p > c /\ ~ Again THEN u ELSE p
y == IF p > c /\ ~ Again THEN Node(v, c) ELSE c

Init == /\ l \in Int /\ c \in Int /\ p \in Int /\ u \in Int /\ v \in Int /\ h \in Int /\ res \in Int
        /\ l >= 0 /\ c >= 0 /\ p >= 0 /\ u >= 0 /\ v >= 0
        \* AVL trees
        /\ Diff(p, c) <= 1
        /\ p > c => p = Node(u, v) /\ Diff(u, v) <= 1
        /\ r >= l + 2
        /\ Result(l, x, h) /\ Result(h, y, res)
Next == UNCHANGED <<l, c, p, u, v, h, res>>

(* The calls inside rotate_right(N) are the ones told above: N is balanced, P too or it's lower at the left, with N not higher at the left,
   and what is made by the second rotation is the original. *)
RightOK == p > c => /\ Diff(v, c) <= 1
                    /\ Again => /\ u = c - 1 /\ v = c /\ Diff(u, v) <= 1 /\ Diff(p, c) <= 1
                    /\ Node(x, y) = r /\ Diff(x, y) <= 1
(* The call of the balance on all the nodes has a smaller difference, so the contract can be used... *)
LessOK == Diff(h, y) < r - l \/ (Again /\ r = l + 2)
(* ... except one case, done here: balance(N) with R = (L, P) at the left; rotate_left(R) and rotate_right(N) give P = (R, N), R = (L, U), N = (V, C). *)
LastOK == (Again /\ r = l + 2) =>
    /\ h = Node(l, p) /\ Diff(l, p) <= 1 /\ h = c + 2 /\ l < p
    /\ Diff(l, u) <= 1 /\ Diff(Node(l, u), v) <= 1
    /\ Node(Node(l, u), v) = h
    /\ ~ (h = Node(Node(l, u), v) /\ Diff(h, c) <= 1)
    /\ Diff(v, c) <= 1 /\ Diff(Node(l, u), Node(v, c)) <= 1
    /\ Result(l, r, Node(Node(l, u), Node(v, c)))
ResultOK == ~ (Again /\ r = l + 2) => Result(l, r, res)
Inv == RightOK /\ LessOK /\ LastOK /\ ResultOK

None == TRUE
=============================================================================
