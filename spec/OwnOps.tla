------------------------------- MODULE OwnOps -------------------------------
(* The list of calls, for the replay.                                           *)
EXTENDS Own, TLC, Json
VARIABLE x
Init == x = 0
Next == x = 0 /\ x' = 1
Spec == Init /\ [][Next]_x
Emit == x = 1 => PrintT("B " \o ToJson(Ops))
=============================================================================
