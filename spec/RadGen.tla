------------------------------- MODULE RadGen -------------------------------
(* Behaviours (call histories) of radiative models, generated for replay.     *)
(* NM models, ND distributions; parameters and distribution parameters take   *)
(* version numbers; the driver makes them concrete.                           *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS NM, ND, NP, NQ, NV, NE, Dists, Ops, NForm, L
VARIABLES hist, slot, done
vars == <<hist, slot, done>>
Do(r) == hist' = Append(hist, r) /\ UNCHANGED <<slot, done>>

Eval  == \E m \in 1..NM, op \in Ops, e \in 1..NE, d \in Dists, f \in 1..NForm :
           Do([a |-> "eval", m |-> m, op |-> op, e |-> e, d |-> d, f |-> f])
Set   == \E m \in 1..NM, p \in 1..NP, v \in 1..NV :
           Do([a |-> "set", m |-> m, p |-> p, v |-> v])
SetD  == \E d \in 1..ND, p \in 1..NQ, v \in 1..NV :
           Do([a |-> "setd", d |-> d, p |-> p, v |-> v])
Swap  == \E m \in 1..NM, d \in 1..ND :
           /\ slot[m] # d
           /\ hist' = Append(hist, [a |-> "swap", m |-> m, d |-> d])
           /\ slot' = [slot EXCEPT ![m] = d] /\ UNCHANGED done
Scale == \E m \in 1..NM, k \in {-1, 1} :
           Do([a |-> "scale", m |-> m, k |-> k])
Scrib == Do([a |-> "scribble"])

Init == hist = <<>> /\ slot = [m \in 1..NM |-> IF m <= ND THEN m ELSE 1]
        /\ done = FALSE
\* random histories
Stop == Len(hist) = L /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, slot>>
Next == (Len(hist) < L /\ (Eval \/ Set \/ SetD \/ Swap \/ Scale \/ Scrib)) \/ Stop
\* systematic histories: evaluate, change one thing, evaluate, change back
PairNext ==
  \/ Len(hist) = 0 /\ Eval
  \/ Len(hist) = 1 /\ (Set \/ SetD \/ Swap \/ Scale \/ Scrib \/ Eval)
  \/ Stop
Spec == Init /\ [][Next]_vars
PairSpec == Init /\ [][PairNext]_vars
Emit == ~done \/ PrintT("B " \o ToJson(hist))
=============================================================================
