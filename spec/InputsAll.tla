------------------------------ MODULE InputsAll ------------------------------
(* Every input at every site.                                                  *)
EXTENDS Inputs, TLC, Json
CONSTANTS NU
VARIABLES s, i, un
vars == <<s, i, un>>
Init == s \in Sites /\ i \in Inputs /\ un \in 1..NU /\ (i.form # "q" => un = 1)
        /\ (i.form = "q" /\ i.type \notin SiteTable[s].types => un = 1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("B " \o ToJson([site |-> s, form |-> i.form, type |-> i.type, neg |-> i.neg, un |-> un]))
=============================================================================
