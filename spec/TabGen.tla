------------------------------- MODULE TabGen -------------------------------
(* Tables and query histories for tabulated distributions.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MinN, MaxN, Steps, Vals, Slopes, Amps, Qs, L, NUnit, NForm
VARIABLES phase, n, lin, tab, hist
vars == <<phase, n, lin, tab, hist>>
R(S) == {RandomElement(S)}
Init == /\ phase = "table" /\ hist = <<>>
        /\ n \in MinN..MaxN /\ lin \in BOOLEAN
        /\ tab = <<<<0, 0>>>>
Last == tab[Len(tab)]
\* append a node: irregular spacing; arbitrary value, or on one power law
Node == /\ phase = "table" /\ Len(tab) < n /\ UNCHANGED <<n, lin, hist, phase>>
        /\ \E d \in R(Steps), v \in R(Vals), s \in R(Slopes) :
             LET sl == IF Len(tab) = 1 THEN s ELSE (tab[2][2] \div tab[2][1]) IN
             tab' = Append(tab, <<Last[1] + d, IF lin THEN Last[2] + sl * d ELSE v>>)
Start == /\ phase = "table" /\ Len(tab) = n /\ phase' = "run"
         /\ \E a \in R(Amps), u \in R(1..NUnit) :
              hist' = <<[a |-> "new", amp |-> a, u |-> u, tab |-> tab]>>
         /\ UNCHANGED <<n, lin, tab>>
SetAmp == /\ phase = "run" /\ Len(hist) < L
          /\ \E a \in R(Amps) : hist' = Append(hist, [a |-> "setamp", amp |-> a])
          /\ UNCHANGED <<phase, n, lin, tab>>
\* nodes, points between, points outside
Eval == /\ phase = "run" /\ Len(hist) < L
        /\ \E q1 \in R(Qs), q2 \in R(Qs), i \in R(1..n), u \in R(1..NUnit), f \in R(1..NForm) :
             hist' = Append(hist, [a |-> "eval", u |-> u, f |-> f,
                       ks |-> <<tab[i][1], q1, -1 - (q2 % 30), tab[n][1] + 1 + (q1 % 40),
                                q2, (tab[i][1] + Last[1]) \div 2>>])
        /\ UNCHANGED <<phase, n, lin, tab>>
Stop == /\ phase = "run" /\ Len(hist) = L /\ phase' = "done"
        /\ UNCHANGED <<n, lin, tab, hist>>
Next == Node \/ Start \/ SetAmp \/ Eval \/ Stop
Spec == Init /\ [][Next]_vars
Emit == phase # "done" \/ PrintT("B " \o ToJson(hist))
=============================================================================
