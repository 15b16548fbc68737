------------------------------ MODULE ScaleTrace ------------------------------
(* Recorded emission of real models against Scale.  A value is recorded as    *)
(* mantissa and exponent, v = m * 2^e with m a 20-bit integer, in units of the *)
(* sum of the components at that energy: of the flux at 1 kpc, times E^2 for   *)
(* SEDs, times 4 pi kpc^2 for luminosities.                                   *)
EXTENDS TraceLib, Scale
VARIABLES l, bad, s, c
vars == <<l, bad, s, c>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ s = <<>> /\ c = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Start == /\ Ev.ev = "start" /\ c' = Ev.c /\ UNCHANGED bad
         /\ s' = [amp |-> 0, den |-> 0, dist |-> 0, w |-> [j \in 1..Ev.nc |-> 0]]
Set == /\ Ev.ev = "set" /\ UNCHANGED <<bad, c>>
       /\ s' = CASE Ev.what = "amp" -> [s EXCEPT !.amp = Ev.k]
                 [] Ev.what = "den" -> [s EXCEPT !.den = Ev.k]
                 [] Ev.what = "w" -> [s EXCEPT !.w[Ev.j] = Ev.k]
\* m * 2^e (recorded) against M * 2^E (expected)
Tol == 40
Same(r, x) ==
  LET d == r.e - x.e IN
  CASE x.m < 64 -> r.m = 0 \/ (r.m > 0 /\ d <= -12)     \* too faint to tell from none
    [] r.m <= 0 -> FALSE
    [] d > 9 \/ d < -26 -> FALSE
    [] OTHER -> IF d >= 0 THEN Abs(r.m * 2^d - x.m) <= Tol + x.m \div 200000
                ELSE Abs(r.m \div 2^(-d) - x.m) <= Tol + x.m \div 200000
Eval ==
  /\ Ev.ev = "eval" /\ UNCHANGED c
  /\ s' = [s EXCEPT !.dist = Ev.d]
  /\ bad' = AddBadD(bad, l,
       IF Ev.out # "ok" THEN {"returned"}
       ELSE Fails({
         <<"one_value_per_energy", Ev.n = Len(Ev.q)>>,
         <<"unit", Ev.unit_ok>>,
         <<"finite", \A i \in 1..Len(Ev.v) : Ev.v[i].fin>>,
         <<"non_negative", \A i \in 1..Len(Ev.v) : Ev.v[i].m >= 0>>,
         <<"scales", \A i \in 1..Len(Ev.v) : Ev.v[i].fin =>
              Same(Ev.v[i], Emission([s EXCEPT !.dist = Ev.d], c[Ev.q[i]], Ev.s))>>}),
       [s |-> s, d |-> Ev.d])
\* E^2 relation, luminosity relation and independence of the other energies,
\* to the last bits: ratios as powers of two in units of 1e-9 (0: exactly 1)
Exact == /\ Ev.ev = "exact" /\ UNCHANGED <<s, c>>
         /\ bad' = AddBadD(bad, l, IF Ev.out # "ok" THEN {"returned"} ELSE Fails({
              <<Ev.what, \A i \in 1..Len(Ev.r) : Ev.r[i] \in -2..2>>}), Ev.r)
Scan == /\ Ev.ev = "scan" /\ UNCHANGED <<s, c>>
        /\ bad' = AddBadD(bad, l, IF Ev.out # "ok" THEN {"returned"} ELSE Fails({
             <<"finite", Ev.nonfinite = 0>>, <<"non_negative", Ev.negative = 0>>,
             <<"positive_at_low_energies", Ev.missing = 0>>}), Ev.e)
Next == l <= NTrace /\ l' = l + 1 /\ (Start \/ Set \/ Eval \/ Exact \/ Scan)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
