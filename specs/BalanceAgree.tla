---------------------------- MODULE BalanceAgree ----------------------------
(* The contract that BalanceProof proves for any height is the one of the    *)
(* balance of Tree: verified on all the pairs of AVL trees up to MaxHeight.  *)
EXTENDS Integers, Sequences, TLC
CONSTANT MaxHeight
VARIABLES a, b

T == INSTANCE Tree WITH MaxKey <- 1, Copies <- 1, Emit <- FALSE, tree <- a, cnt <- 0, op <- <<>>
P == INSTANCE BalanceProof WITH l <- 0, c <- 0, p <- 0, u <- 0, v <- 0, h <- 0, res <- 0

\* all the AVL trees of a height; the elements don't matter
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {T!Nil}
             ELSE LET s == Shapes(n - 1)
                      t == IF n = 1 THEN {} ELSE Shapes(n - 2)
                  IN {T!Node(x[1], <<1, 1>>, x[2], n) : x \in (s \X s) \cup (s \X t) \cup (t \X s)}
AllShapes == UNION {Shapes(n) : n \in 0..MaxHeight}

RECURSIVE Nodes(_)
Nodes(t) == IF t = T!Nil THEN 0 ELSE Nodes(t[1]) + 1 + Nodes(t[3])

Init == a \in AllShapes /\ b \in AllShapes
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
ContractOK == LET t == T!Balance(T!Node(a, <<1, 1>>, b, 0)) IN
    /\ T!Balanced(t)
    /\ P!Result(T!H(a), T!H(b), T!H(t))
    /\ Nodes(t) = Nodes(a) + Nodes(b) + 1
=============================================================================
