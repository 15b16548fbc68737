------------------------------- MODULE StartPt -------------------------------
(* From the caller's labels and start vector to those of the sampler.          *)
(* A label is [pre, stem, style, tail]; stems "norm", "ampl", "we", "wp" name  *)
(* a normalisation.  Parameter values are in millionths; the data are 2^r      *)
(* times the model at the start vector.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
NormStems == {"norm", "ampl", "we", "wp"}
LN2 == 693147
LG2 == 301030
IsNorm(lab) == lab.stem \in NormStems
\* completion of missing labels; par number i (from 0)
Par(i) == [pre |-> "", stem |-> "par", style |-> "lower", tail |-> i]
NormLab == [pre |-> "", stem |-> "norm", style |-> "lower", tail |-> -1]
Complete(labs, given, n) ==
  IF ~given THEN [i \in 1..n |-> IF i = 1 THEN NormLab ELSE Par(i - 1)]
  ELSE [i \in 1..(IF Len(labs) < n THEN n ELSE Len(labs)) |->
          IF i <= Len(labs) THEN labs[i] ELSE Par(i - 1)]
Norms(labs) == {i \in 1..Len(labs) : IsNorm(labs[i])}
Shift(v, r) == IF r >= 0 THEN v * 2^r ELSE v \div 2^(-r)
Rescale(lab, v, r) == CASE lab.pre = "" -> Shift(v, r)
                        [] lab.pre = "log(" -> v + r * LN2
                        [] lab.pre = "log10(" -> v + r * LG2
Guess(labs, p, r, guess) ==
  IF guess /\ Cardinality(Norms(labs)) = 1
  THEN LET i == CHOOSE i \in Norms(labs) : TRUE IN [p EXCEPT ![i] = Rescale(labs[i], @, r)]
  ELSE p
\* the fit replaces the vector if the prior allows it and the minimiser did not
\* fail (status 0 converged, 1 evaluations exhausted, 2 failed)
Replaced(status, allowed) == allowed /\ status \in {0, 1}
Fitted(status, allowed) == allowed /\ status = 0
Spread(status, allowed) == IF Fitted(status, allowed) THEN 5 ELSE 100
=============================================================================
