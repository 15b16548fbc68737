------------------------------ MODULE DistGen ------------------------------
(* Histories of one particle distribution: set parameters, evaluate.          *)
(* Spec with small constants is explored exhaustively for the consistency of   *)
(* the formulas; with larger constants it is simulated to generate histories.  *)
EXTENDS Dist, TLC, Json
CONSTANTS A0s, E0s, As, EBs, ECs, Bs, Ks, L, NUnit, NForm, History
VARIABLES kind, s, hist, done
vars == <<kind, s, hist, done>>
Dom(p) == CASE p = "amp" -> A0s [] p = "e0" -> E0s [] p \in {"a", "a2"} -> As
            [] p = "eb" -> EBs [] p = "ec" -> ECs [] p = "b" -> Bs
\* generation draws at random; checking explores everything
Pick(S) == IF History THEN {RandomElement(S)} ELSE S
All == {"amp", "e0", "a", "a2", "eb", "ec", "b"}
Log(r) == hist' = IF History THEN Append(hist, r) ELSE hist

Init == /\ kind \in Kinds /\ done = FALSE
        \* (TLC makes the initial states once: many of them, each drawn at random)
        /\ \E i \in (IF History THEN 1..200 ELSE {0}) :
           \E a0 \in Pick(A0s), e0 \in Pick(E0s), a1 \in Pick(As), a2 \in Pick(As),
             eb \in Pick(EBs), ec \in Pick(ECs), b \in Pick(Bs) :
             s = [amp |-> a0, e0 |-> e0, a |-> a1, a2 |-> a2, eb |-> eb, ec |-> ec, b |-> b]
        /\ hist = IF History THEN <<[a |-> "new", kind |-> kind, s |-> s]>> ELSE <<>>
Set == /\ Len(hist) < L
       /\ \E p \in Pick(Pars(kind)), un \in Pick(1..NUnit) : \E v \in Pick(Dom(p)) :
         /\ s' = [s EXCEPT ![p] = v]
         /\ Log([a |-> "set", p |-> p, v |-> v, u |-> un])
       /\ UNCHANGED <<kind, done>>
Eval == /\ Len(hist) < L
        /\ \E k1 \in Pick(Ks), k2 \in Pick(Ks), k3 \in Pick(Ks), un \in Pick(1..NUnit),
           f \in Pick(1..NForm) :
             Log([a |-> "eval", ks |-> <<k1, k2, k3>>, u |-> un, f |-> f])
        /\ UNCHANGED <<kind, s, done>>
Stop == Len(hist) = L /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, s, hist>>
Next == Set \/ Eval \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson(hist))

\* --- design invariants of the documented formulas
AtReference == (kind \in {"PL", "LP"}) => LnVal(kind, s, s.e0) = Ln2q(4 * s.amp)
Near(x, y) == x - y \in -3..3
Continuous ==
  kind \in {"BPL", "ECBPL"} =>
    LET below == -(s.a) * (s.eb - s.e0) IN
    PowExp(kind, s, s.eb) = below
Slopes == \A k \in Ks :
  kind \in {"PL", "ECPL"} => PowExp(kind, s, k + 1) - PowExp(kind, s, k) = -(s.a)
SlopesBroken == \A k \in Ks :
  kind \in {"BPL", "ECBPL"} =>
    PowExp(kind, s, k + 1) - PowExp(kind, s, k) = IF k < s.eb THEN -(s.a) ELSE -(s.a2)
CutoffDecreases == \A k \in Ks :
  (HasCut(kind) /\ ~Zero(kind, s, k) /\ s.a > 0 /\ s.a2 > 0 /\ Exact(kind, s, k)
     /\ ~Zero(kind, s, k + 1) /\ Exact(kind, s, k + 1) /\ s.b > 0)
    => LnVal(kind, s, k + 1) < LnVal(kind, s, k)
Proportional == \A k \in Ks : ~Zero(kind, s, k) =>
  Near(LnVal(kind, [s EXCEPT !.amp = @ + 1], k) - LnVal(kind, s, k), 693147)
=============================================================================
