----------------------------- MODULE SizeAgree -----------------------------
(* The operations of SizeProof, with their loops done in steps, are the ones *)
(* of HashSize, that the histories of the real code are compared with.       *)
EXTENDS SizeProof

VARIABLE op \* the operation in progress, or the last one, applied to the state before it

RECURSIVE Log(_)
Log(n) == IF n = 1 THEN 0 ELSE 1 + Log(n \div 2)
HS == INSTANCE HashSize WITH Bit <- Log(First), bit <- Log(max)
Now(c, w) == [cnt |-> c, bit |-> Log(max), low |-> low, split |-> split, st |-> st, work |-> w]

AInit == Init /\ op = <<"none">>
ANext == /\ Next
         /\ op' = IF pc # "idle" THEN op ELSE IF cnt' > cnt THEN <<"ins", Now(cnt + 1, 0)>> ELSE <<"rem", Now(cnt - 1, 0)>>
ASpec == AInit /\ [][ANext]_<<vars, op>>
AgreeOK == (pc = "idle" /\ op[1] # "none") =>
    Now(cnt, work) = (IF Kind = "hashlin" THEN (IF op[1] = "ins" THEN HS!LinGrow(op[2]) ELSE HS!LinShrink(op[2]))
                                          ELSE (IF op[1] = "ins" THEN HS!DynGrow(op[2]) ELSE HS!DynShrink(op[2])))
AView == <<cnt, max, low, split, st, pc, work, op>>
=============================================================================
