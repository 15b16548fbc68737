------------------------------- MODULE WrapGen -------------------------------
(* Generates sessions with wrapped models.                                      *)
EXTENDS Wrap, TLC, Json
CONSTANTS Classes, L, EMax
VARIABLES cfg, hist, done
vars == <<cfg, hist, done>>
Pick(S) == {RandomElement(S)}
One(S) == RandomElement(S)
RECURSIVE Asc(_, _)
Asc(e, k) == IF k = 0 THEN <<>> ELSE <<e>> \o Asc(e + One(1..4), k - 1)
Grid(now) == [bins |-> One(BOOLEAN), e |-> Asc(One(0..(EMax - 16)), One(2..5))]
Init == /\ \E c \in Classes : \E k \in 1..60 :
             cfg = [cls |-> c, grids |-> [i \in 1..3 |-> Grid(<<k, i>>)], two |-> One(BOOLEAN)]
        /\ hist = <<>> /\ done = FALSE
Call == /\ ~done /\ Len(hist) < L
        /\ \E op \in Pick({"set", "set", "set", "eval", "eval", "eval", "given", "guess", "freeze"}), r \in Pick({1, 1, 1, 2}),
              k \in Pick(1..11), v \in Pick(1..3), g \in Pick(1..3), m \in Pick((-3)..3),
              x \in Pick(BOOLEAN), y \in Pick(BOOLEAN), f \in Pick(1..20) :
             hist' = Append(hist, [op |-> op, r |-> r, k |-> k, v |-> v, g |-> g, m |-> m, x |-> x,
                                   y |-> y, f |-> f, w |-> [i \in 1..11 |-> One(1..3)]])
        /\ UNCHANGED <<cfg, done>>
Stop == ~done /\ Len(hist) = L /\ done' = TRUE /\ UNCHANGED <<cfg, hist>>
Next == Call \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("B " \o ToJson([cfg |-> cfg, h |-> hist]))
=============================================================================
