-------------------------------- MODULE Post --------------------------------
(* Priors and the posterior.  Parameter values are v = s * 2^k ("signed       *)
(* exponents" [s, k], s in {-1, 0, 1}); a prior term is                        *)
(*   [kind, i, a, b, bk]  on parameter i                                       *)
(*   uniform     a <= v <= b                                                  *)
(*   normal      mean a (integer), sigma 2^bk                                 *)
(*   loguniform  a <= v <= b;  kind "loguniform1" has no upper bound          *)
(* Values are quarters (integers); log-densities in micro-units.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
\* value in quarters
Val(p) == p.s * 2^(p.k + 2)
LN2 == 693147
Inside(t, p) ==
  CASE t.kind = "uniform" -> 4 * t.a <= Val(p) /\ Val(p) <= 4 * t.b
    [] t.kind = "normal" -> TRUE
    [] t.kind = "loguniform" -> p.s > 0 /\ 4 * t.a <= Val(p) /\ Val(p) <= 4 * t.b
    [] t.kind = "loguniform1" -> p.s > 0 /\ 4 * t.a <= Val(p)
    [] t.kind = "loguniform0" -> p.s > 0
Sq(x) == x * x
\* log density relative to its value at mean (normal) or 1 (log-uniform)
Rel(t, p) ==
  CASE t.kind = "normal" -> -((31250 * Sq(Val(p) - 4 * t.a)) \div Sq(2^t.bk))
    [] t.kind \in {"loguniform", "loguniform1", "loguniform0"} -> -(p.k * LN2)
    [] OTHER -> 0
Allowed(ts, ps) == \A j \in 1..Len(ts) : Inside(ts[j], ps[ts[j].i])
=============================================================================
