-------------------------------- MODULE Pool --------------------------------
(* An ensemble step evaluated by several workers.                             *)
(* Each of NT tasks of a step is taken in order by a free worker and finishes *)
(* at any time; the step's results are collected by task number; the next     *)
(* step's tasks depend on the results.  Results are symbolic: the result of   *)
(* task t of step s is <<s, t, h>> with h a digest of what went before.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, W, NS, Ordered, Gen
VARIABLES step, todo, busy, res, chain, order
vars == <<step, todo, busy, res, chain, order>>
Init == /\ step = 1 /\ todo = 1 /\ busy = [w \in 1..W |-> 0] /\ res = <<>>
        /\ chain = <<>> /\ order = <<>>
Take == \E w \in 1..W : /\ busy[w] = 0 /\ todo <= NT /\ step <= NS
                        /\ busy' = [busy EXCEPT ![w] = todo] /\ todo' = todo + 1
                        /\ UNCHANGED <<step, res, chain, order>>
Finish == \E w \in 1..W :
            /\ busy[w] # 0
            /\ res' = Append(res, <<busy[w], step * 10 + busy[w]>>)
            /\ order' = IF Gen THEN Append(order, busy[w]) ELSE order
            /\ busy' = [busy EXCEPT ![w] = 0]
            /\ UNCHANGED <<step, todo, chain>>
Value(t) == IF Ordered THEN (CHOOSE r \in {res[i] : i \in 1..NT} : r[1] = t)[2] ELSE res[t][2]
EndStep == /\ Len(res) = NT /\ step <= NS
           /\ chain' = Append(chain, [t \in 1..NT |-> Value(t)])
           /\ step' = step + 1 /\ todo' = 1 /\ res' = <<>> /\ UNCHANGED <<busy, order>>
Next == Take \/ Finish \/ EndStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the chain is the same as with one worker, whatever the schedule
SameAsSerial == \A s \in 1..Len(chain) : \A t \in 1..NT : chain[s][t] = s * 10 + t
Finishes == <>(step = NS + 1)
\* finishing orders, for forcing schedules on the real pool
Emit == ~(Gen /\ step = NS + 1) \/ PrintT("B " \o ToJson(order))
=============================================================================
