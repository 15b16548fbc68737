------------------------------ MODULE FitterGen ------------------------------
(* Generates sessions with interactive fitters.                                 *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Modes, V, L
VARIABLES cfg, hist, done
vars == <<cfg, hist, done>>
Pick(S) == {RandomElement(S)}
One(S) == RandomElement(S)
Cfg(now) == [auto |-> One(BOOLEAN), sed |-> One(BOOLEAN), dsed |-> One(BOOLEAN), mode |-> One(Modes),
             rough |-> One(1..4) = 1, p0 |-> <<One(V), One(V)>>, out |-> One({"flux", "sed", "tuple", "list"}),
             lab |-> One(1..4), n |-> One(0..30), prefit |-> One(BOOLEAN)]
Init == \E k \in 1..400 : cfg = <<Cfg(k), Cfg(k)>> /\ hist = <<>> /\ done = FALSE
Call == /\ ~done /\ Len(hist) < L
        /\ \E op \in Pick({"move", "move", "mouse", "mouse", "toggle", "update", "fit"}),
              r \in Pick({1, 1, 2}), k \in Pick(1..2), v \in Pick(V), f \in Pick(1..7), ui \in Pick(BOOLEAN) :
             hist' = Append(hist, [op |-> op, r |-> r, k |-> k, v |-> v, f |-> f, ui |-> ui])
        /\ UNCHANGED <<cfg, done>>
Stop == ~done /\ Len(hist) = L /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
Next == Call \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("B " \o ToJson([cfg |-> cfg, h |-> hist]))
=============================================================================
