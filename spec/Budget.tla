-------------------------------- MODULE Budget --------------------------------
(* Particle energy budgets.  Energies are 2^i (in TeV), i in 0..Top; the       *)
(* distributions are power laws of index a, of amplitude p/q (in units of a    *)
(* reference amplitude).  Unit(a, i, j) is the energy content between 2^i and  *)
(* 2^j for amplitude 1, in units of A0 E0^2 (a = 0: /2, a = 2: times ln 2,     *)
(* a = 3: / 2^Top).  Rationals are pairs <<numerator, denominator>>.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Top == 5
NONE == -1
Unit(a, i, j) == CASE a = 0 -> 4^j - 4^i
                   [] a = 1 -> 2^j - 2^i
                   [] a = 2 -> j - i
                   [] a = 3 -> 2^(Top - i) - 2^(Top - j)
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Rat(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>
Times(r, n) == Rat(r[1] * n, r[2])
Same(r, s) == r[2] > 0 /\ s[2] > 0 /\ r[1] * s[2] = s[1] * r[2]
Pow(k) == IF k >= 0 THEN <<2^k, 1>> ELSE <<1, 2^(-k)>>
\* limits of a request: those given, otherwise those of the model
Lo(lim, lo) == IF lo = NONE THEN lim[1] ELSE lo
Hi(lim, hi) == IF hi = NONE THEN lim[2] ELSE hi
\* the content, and the amplitude that gives the content w
Content(a, amp, i, j) == Times(amp, Unit(a, i, j))
AmpFor(a, w, i, j) == Rat(w, Unit(a, i, j))
=============================================================================
