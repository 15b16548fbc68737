-------------------------------- MODULE Chain --------------------------------
(* Stored runs: chains of integer parameter vectors with a log-probability and  *)
(* the outputs of a model function, and what is read off them.                  *)
(*   run.ch[step][walker][parameter]   run.lp[step][walker]                     *)
(*   run.lay: kinds of the outputs     run.lab: kinds of the labels             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
MINF == -99
Steps(r) == 1..Len(r.ch)
Walkers(r) == 1..Len(r.ch[1])
Pars(r) == 1..Len(r.ch[1][1])
Samples(r) == Steps(r) \X Walkers(r)
\* the samples that are used: all, or those of the last step
Used(r, last) == IF last THEN {Len(r.ch)} \X Walkers(r) ELSE Samples(r)
NUsed(r, last) == IF last THEN Len(r.ch[1]) ELSE Len(r.ch) * Len(r.ch[1])
At(r, s) == r.ch[s[1]][s[2]]
\* the samples, in order, as a sequence of parameter vectors
Flat(r, last) == IF last THEN r.ch[Len(r.ch)]
                 ELSE FoldSeq(LAMBDA x, acc : acc \o x, <<>>, r.ch)
Best(r) == {s \in Samples(r) : \A t \in Samples(r) : r.lp[t[1]][t[2]] <= r.lp[s[1]][s[2]]}
Asc(q) == SortSeq(q, LAMBDA x, y : x < y)
\* percentile q of a sorted sequence, interpolated linearly, times 100
Pct(s, q) == LET pos == (Len(s) - 1) * q
                 lo == (pos \div 100) + 1 rem == pos % 100
             IN 100 * s[lo] + (IF rem = 0 THEN 0 ELSE rem * (s[lo + 1] - s[lo]))
\* median and distances to the 16th and 84th percentile (times 100)
Row(q) == LET s == Asc(q) IN <<Pct(s, 50), Pct(s, 50) - Pct(s, 16), Pct(s, 84) - Pct(s, 50)>>
\* outputs: scalars, and arrays with the energies they belong to (log2 of the
\* energy in TeV); values are those of the differential representation
Scalars == {"qs", "fl", "npf", "int"}
Arrays == {"arr", "arrsed", "pair", "pairl", "lum"}
Scalar(k, v) == CASE k = "qs" -> 50 + 3 * v[1] + v[2]
                  [] k = "fl" -> 7 * v[1] - v[2]
                  [] k = "npf" -> 7 * v[2] + v[1]
                  [] k = "int" -> v[1] - 4 * v[2]
DataE == <<0, 1, 2, 3>>
Energies(k) == IF k \in {"arr", "arrsed"} THEN DataE ELSE <<-1, 2, 5>>
ArrAt(v, e) == 100 + (e + 1) * v[1] + (4 - e) * v[2]
Values(k, v) == CASE k \in {"arr", "arrsed"} -> [i \in 1..4 |-> ArrAt(v, DataE[i])]
                  [] k = "pair" -> [i \in 1..3 |-> 200 + i * v[1] - v[2]]
                  [] k = "pairl" -> [i \in 1..3 |-> 200 + i * v[2] + v[1]]
                  [] k = "lum" -> [i \in 1..3 |-> 300 - i * v[1] + v[2]]
Pow10(v) == 10^v
Pow2(v) == 2^v
\* Gaussian tail fractions in 1e-6 (lower; upper), for confidence levels in
\* tenths of sigma
GTail(c) == CASE c = 5 -> <<308538, 691462>> [] c = 10 -> <<158655, 841345>>
             [] c = 15 -> <<66807, 933193>>
             [] c = 20 -> <<22750, 977250>> [] c = 30 -> <<1350, 998650>>
Order(n, f) == (((n - 1) * f) \div 1000000) + 1
BandLo(q, c) == LET s == Asc(q) IN s[Order(Len(s), GTail(c)[1])]
BandHi(q, c) == LET s == Asc(q) IN s[Order(Len(s), GTail(c)[2])]
=============================================================================
