------------------------------- MODULE LogLog -------------------------------
(* Integration of piecewise power laws, exactly.  Node i lies at x = 2^k[i]    *)
(* with value y = 2^v[i] (v = Z stands for y = 0).  On an interval of index    *)
(* b = dv/dk the integral is (x2 y2 - x1 y1)/(b+1), or x1 y1 ln(x2/x1) if      *)
(* b = -1, and 0 if an end value or the width is zero.  Values in 1e-6.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Z == 999
Pw(n) == IF n >= 0 THEN 1000000 * 2^n ELSE 1000000 \div 2^(-n)   \* 1e6*2^n
Interval(k1, v1, k2, v2) ==
  IF v1 = Z \/ v2 = Z \/ k1 = k2 THEN 0
  ELSE LET b == (v2 - v1) \div (k2 - k1) IN
       IF b = -1 THEN LET f == Pw(v1 + k1) * (k2 - k1) m == f \div 1000 IN
                          m * 693 + ((f % 1000) * 693) \div 1000 + (m * 147) \div 1000
       ELSE (Pw(k2 + v2) - Pw(k1 + v1)) \div (b + 1)
Intervals(ks, vs) == [i \in 1..Len(ks) - 1 |-> Interval(ks[i], vs[i], ks[i + 1], vs[i + 1])]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Integral(ks, vs) == SumSeq(Intervals(ks, vs))
=============================================================================
