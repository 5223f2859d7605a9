----------------------------- MODULE MultiIndex ------------------------------
(* State machine of the instances of MultiOps.tla, over all the histories    *)
(* of a few instances and objects.                                           *)
EXTENDS MultiOps, TLC, TLCExt

CONSTANTS Kinds, Key, NK, Emit \* kind of each instance, key of each object, number of keys

VARIABLES cont, op
vars == cont

Insts == DOMAIN Kinds
Objects == DOMAIN Key
Ops == {<<1, i, o>> : i \in Insts, o \in Objects} \cup {<<2, i, o>> : i \in Insts, o \in Objects}
       \cup {<<3, i, k>> : i \in Insts, k \in 1..NK} \cup {<<4, i, k>> : i \in Insts, k \in 1..NK}
       \cup {<<5, i, o>> : i \in Insts, o \in Objects} \cup {<<7, i, 0>> : i \in Insts} \cup {<<8, i, 0>> : i \in Insts} \cup {<<9, i, 0>> : i \in Insts}
       \cup {<<6, i, j>> : i \in Insts, j \in Insts} \cup {<<11, 1, 0>>}
Allowed(c, o) == CASE o[1] = 6 -> /\ o[2] # o[3] /\ Kinds[o[2]] = "list" /\ Kinds[o[3]] = "list"
                   [] o[1] = 11 -> \E i \in Insts : Kinds[i] = "trie2"
                   [] o[1] = 1 /\ Kinds[o[2]] \in Arrays -> Len(c[o[2]]) < Len(Key)
                   [] OTHER -> May(Kinds[o[2]], c[o[2]], Key, o)
(* an object has one node for all the lists *)
Free(c, o) == (o[1] \in {1, 5} /\ Kinds[o[2]] = "list") => \A i \in Insts : Kinds[i] = "list" => ~Has(c[i], o[3])

Init == cont = [i \in Insts |-> <<>>] /\ op = <<>>
Do(o) == /\ Allowed(cont, o) /\ Free(cont, o)
         /\ cont' = Apply(Kinds, cont, Key, NK, o)
         /\ op' = o \o <<Result(Kinds[o[2]], cont[o[2]], Key, o)>>
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<cont, op>>

-----------------------------------------------------------------------------
UniqueOK == \A i \in Insts : Kinds[i] \notin Arrays => \A a, b \in DOMAIN cont[i] : cont[i][a] = cont[i][b] => a = b
SetOK == \A i \in Insts : Kinds[i] \in Trees => \A a, b \in DOMAIN cont[i] : Key[cont[i][a]] = Key[cont[i][b]] => a = b
(* only the instances of the operation change, and searches and iterations change none *)
Frame == [][/\ \A i \in Insts \ Touched(Kinds, op') : cont'[i] = cont[i]
            /\ ~Changes(op') => cont' = cont
            /\ (op'[1] = 3 /\ op'[4] = 0) => cont' = cont]_<<cont, op>>
(* operations on different instances commute, and neither changes the result of the other *)
Commute == \A a \in Ops : \A b \in Ops :
   (/\ Allowed(cont, a) /\ Free(cont, a) /\ Allowed(cont, b) /\ Free(cont, b)
    /\ Touched(Kinds, a) \cap Touched(Kinds, b) = {})
   => LET ca == Apply(Kinds, cont, Key, NK, a)
          cb == Apply(Kinds, cont, Key, NK, b)
      IN /\ Apply(Kinds, ca, Key, NK, b) = Apply(Kinds, cb, Key, NK, a)
         /\ (Allowed(ca, b) /\ Allowed(cb, a))
         /\ Result(Kinds[b[2]], ca[b[2]], Key, b) = Result(Kinds[b[2]], cont[b[2]], Key, b)

Seen == [i \in Insts |-> View1(Kinds[i], cont[i], Key, NK)]
View == cont
Id(s) == <<TLCFP(s), TLCFP(<<"x", s>>)>>
EmitS == Emit => PrintT("@S " \o ToString(Id(cont)) \o " " \o ToString(Seen))
EmitE == Emit => PrintT("@E " \o ToString(Id(cont)) \o " " \o ToString(op') \o " " \o ToString(Id(cont')))
=============================================================================
