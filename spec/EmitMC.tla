------------------------------- MODULE EmitMC -------------------------------
(* The tabulated kernels themselves: they conserve energy.  Octave sums of the *)
(* tables are compared with the energy-loss rates, in 1e-6.                    *)
EXTENDS Emit, TLC
VARIABLES tabl, row, at
vars == <<tabl, row, at>>
\* 1e6 * exp(x / 1e6)
RECURSIVE Halve(_, _)
Halve(x, n) == IF n = 0 THEN x ELSE Halve(x \div 2, n - 1)
Exp(x) ==
  IF x < -30000000 THEN 0
  ELSE LET y == IF x > 0 THEN x ELSE -x
           n == IF x > 0 THEN x \div LN2 ELSE ((y + LN2 - 1) \div LN2)
           r == (IF x > 0 THEN x - n * LN2 ELSE n * LN2 - y) \div 100
           \* e^r, r in 1e-4, 0 <= r < 0.6932
           q == (r * r) \div 10000
           e == 1000000 + 100 * r + ((r * r) \div 200) + (((r * r) \div 1000) * r) \div 6000
                  + (q * q) \div 2400 IN
       IF x > 0 THEN e * 2^n ELSE Halve(e, n)
RECURSIVE Sum(_, _, _)
Sum(f(_), a, b) == IF a > b THEN 0 ELSE f(a) + Sum(f, a + 1, b)

\* int E (E dN/dE) dlnE over octaves, in the units of the energy-loss rate:
\* SYN int G dx = 16 pi / (27 sqrt 3); IC (9/8) ln2 sum 2^-i r_i
SynSum == LET f(k) == Exp(SynT[k + 41] + (k * LN2) \div 2) IN
          (Sum(f, -40, 8) \div 2000) * 693
IcSum(t, r) == LET f(i) == IF t[r][i + 4] = NONE THEN 0 ELSE Exp(t[r][i + 4] - i * LN2) IN
               ((Sum(f, -3, 12) \div 80) * 9 * 693) \div 100
Init == tabl \in {"SYN", "IC", "PP", "BR"} /\ row = 1 /\ at = 1
Rows == CASE tabl = "SYN" -> 1 [] tabl = "IC" -> 15 [] tabl = "PP" -> 19 [] OTHER -> 13
Next == row < Rows /\ row' = row + 1 /\ UNCHANGED <<tabl, at>>
Spec == Init /\ [][Next]_vars
Near(x, y, t) == Abs(x - y) <= t
SynEnergy == tabl = "SYN" => Near(SynSum \div 1000, 1074792 \div 1000, 3)
\* in the Thomson regime the octave sum resolves the spectrum
IcEnergy == (tabl = "IC" /\ row <= 6) =>
   Near(IcSum(IcT, row) \div 1000, Exp(KnT[row]) \div 1000, 5)
\* the loss rate never exceeds the Thomson rate and falls with energy
IcLoss == tabl = "IC" => KnT[row] <= 0 /\ (row > 1 => KnT[row] < KnT[row - 1])
\* a spectrum of higher energy protons contains that of lower ones where both
\* are far from their ends; no table exceeds its kinematic limit
PpLimit == tabl = "PP" =>
   \A m \in Models : \A k \in 0..23 :
      PpTab(m)[row][k + 1] = NONE => PpTab(m)[row][k + 2] = NONE
PpModels == (tabl = "PP" /\ row <= 6) =>        \* the models part above 50 GeV
   \A m \in Models : PpTab(m)[row] = PpTab("Geant4")[row]
\* hard photons come from the fast electron only, soft ones from either
BrTargets == (tabl = "BR" /\ row >= 3) => \A k \in 1..20 :
   BrE[row][k] - BrP[row][k] \in -350000..LN2
=============================================================================
