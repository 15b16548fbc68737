--------------------------------- MODULE Lik ---------------------------------
(* The likelihood of a model given spectral points and upper limits.          *)
(* A point is [d, lo, hi, ul, cl]: model minus data d, errors lo, hi (powers   *)
(* of two), confidence level cl in per mille.  Log-likelihoods are in         *)
(* micro-units: 2^-5 = 31250.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
\* -10^6 log(1 - cl)
NegLog(cl) == CASE cl = 500 -> 693147 [] cl = 680 -> 1139434 [] cl = 750 -> 1386294
                [] cl = 900 -> 2302585 [] cl = 950 -> 2995732 [] cl = 990 -> 4605170
CLs == {500, 680, 750, 900, 950, 990}
Sq(x) == x * x
\* 32 * 1/2 (d/e)^2 for e in {1, 2, 4}
Half(d, e) == (Sq(d) * 16) \div Sq(e)
Term(p) == IF p.ul THEN IF p.d > 0 THEN -NegLog(p.cl) ELSE 0
           ELSE -31250 * Half(p.d, IF p.d > 0 THEN p.hi ELSE p.lo)
RECURSIVE LnL(_)
LnL(ps) == IF ps = <<>> THEN 0 ELSE Term(ps[1]) + LnL(Tail(ps))
=============================================================================
