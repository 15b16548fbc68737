-------------------------------- MODULE Dist --------------------------------
(* Particle distributions: state and documented formulas, in exact integer     *)
(* arithmetic.  Energies are powers of two of a base energy (k = log2), the    *)
(* parameters a, a2 are indices in quarters, b a cutoff exponent in halves or a*)
(* curvature in eighths, amp = log2 of the amplitude.  Values are natural      *)
(* logarithms in units of 1e-6.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Kinds == {"PL", "ECPL", "BPL", "ECBPL", "LP"}
Pars(kind) ==
  CASE kind = "PL"    -> {"amp", "e0", "a"}
    [] kind = "ECPL"  -> {"amp", "e0", "a", "ec", "b"}
    [] kind = "BPL"   -> {"amp", "e0", "eb", "a", "a2"}
    [] kind = "ECBPL" -> {"amp", "e0", "eb", "a", "a2", "ec", "b"}
    [] kind = "LP"    -> {"amp", "e0", "a", "b"}

\* floor division is monotone for negative numbers too
Ln2q(p) == (p * 6931472) \div 40                  \* 1e6 * ln(2^(p/4))
Ln2sq(n) == n * 60056 + ((n * 62674) \div 100000)                             \* 1e6 * n * ln(2)^2 / 8

Pow2(n) == 2^n
\* 1e6 * (2^(j*b/2)), j*b even; 0 below the resolution
CutExp(j, b) ==
  LET x == (j * b) \div 2 IN
  IF x >= 0 THEN 1000000 * Pow2(x)
  ELSE IF x < -19 THEN 0 ELSE 1000000 \div Pow2(-x)
CutTooLarge(j, b) == (j * b) \div 2 > 10
CutMid(j, b) == (j * b) \div 2 = 10               \* exp(-1024) underflows

\* log2-exponent (in quarters) of the power-law part of distribution s at 2^k
PowExp(kind, s, k) ==
  IF kind \in {"BPL", "ECBPL"}
  THEN IF k < s.eb THEN -(s.a) * (k - s.e0)
       ELSE (s.a2 - s.a) * (s.eb - s.e0) - s.a2 * (k - s.e0)
  ELSE -(s.a) * (k - s.e0)
HasCut(kind) == kind \in {"ECPL", "ECBPL"}

Zero(kind, s, k) == HasCut(kind) /\ (CutTooLarge(k - s.ec, s.b) \/ CutMid(k - s.ec, s.b))
LnVal(kind, s, k) ==
  Ln2q(PowExp(kind, s, k) + 4 * s.amp)
    - (IF HasCut(kind) THEN CutExp(k - s.ec, s.b) ELSE 0)
    - (IF kind = "LP" THEN Ln2sq((k - s.e0) * (k - s.e0) * s.b) ELSE 0)
\* parity needed for CutExp to be exact
Exact(kind, s, k) == ~HasCut(kind) \/ ((k - s.ec) * s.b) % 2 = 0

Restrict(kind, s) == [p \in Pars(kind) |-> s[p]]
=============================================================================
