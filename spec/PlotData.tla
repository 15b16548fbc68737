------------------------------ MODULE PlotData ------------------------------
(* What a plot of spectral data shows. A row is                                 *)
(*   [k: log2 of the energy/TeV, f: flux, lo, hi: errors, el, eh: widths of the *)
(*    energy bin to both sides in TeV/8, ul: is an upper limit]                 *)
(* Fluxes are differential, in units of B; the SED is f 4^k. Heights are in     *)
(* quarters, energies in eighths of TeV.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CLIP == -999999
Fac(k, sed) == IF sed THEN 4^k ELSE 1
Y(r, sed) == 4 * r.f * Fac(r.k, sed)
X(r) == 8 * 2^r.k
\* horizontal bars (both kinds of points), vertical bars, markers
HBar(r, sed) == <<r.k, Y(r, sed), X(r) - r.el, X(r) + r.eh>>
Clipped(r) == r.lo >= r.f /\ r.f > 0
VBar(r, sed, h) ==
  IF r.ul THEN <<r.k, Y(r, sed) - (r.f * Fac(r.k, sed) * h), Y(r, sed)>>
  ELSE <<r.k, IF Clipped(r) THEN CLIP ELSE Y(r, sed) - 4 * r.lo * Fac(r.k, sed),
              Y(r, sed) + 4 * r.hi * Fac(r.k, sed)>>
Mark(r, sed) == <<r.k, Y(r, sed)>>
\* what rows add to a figure; h: length of the arrows of limits, in quarters
HBars(q, sed) == [i \in 1..Len(q) |-> HBar(q[i], sed)]
VBars(q, sed, h) == [i \in 1..Len(q) |-> VBar(q[i], sed, h)]
Det(q) == SelectSeq(q, LAMBDA r : ~r.ul)
Marks(q, sed) == LET d == Det(q) IN [i \in 1..Len(d) |-> Mark(d[i], sed)]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Elems(q) == {q[i] : i \in 1..Len(q)}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Elems(a) : Count(a, x) = Count(b, x)
\* residual times the sum of the errors, for a model value m
ResNum(r, m) == 2 * (r.f - m)
=============================================================================
