----------------------------- MODULE LogLogTrace -----------------------------
(* Recorded integrals and magnetic-field estimates against LogLog.             *)
EXTENDS TraceLib, LogLog
VARIABLES l, bad
vars == <<l, bad>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Tol(x) == 70 + Abs(x) \div 50000
Is(x, w) == x \notin {OFF, NANV, INFV, NINFV} /\ Abs(x - w) <= Tol(w)
\* rows: the integrand along each line parallel to the axis, sc: log2 scale
Line(i) == Ev.rows[i]
Integ == /\ Ev.ev = "int"
       /\ bad' = AddBadD(bad, l,
           IF Ev.out # "ok" THEN {"returned"}
           ELSE Fails({
            <<"shape", Ev.shape = Ev.wshape>>,
            <<"product_of_units", Ev.uout = Ev.uwant>>,
            <<"exact_on_power_laws", Len(Ev.got) = Len(Ev.rows) /\
               \A i \in 1..Len(Ev.rows) : Is(Ev.got[i], Integral(Ev.ks, Line(i)))>>,
            <<"per_interval_values", Len(Ev.parts) = Len(Ev.rows) /\
               \A i \in 1..Len(Ev.rows) :
                 LET w == Intervals(Ev.ks, Line(i)) IN
                 Len(Ev.parts[i]) = Len(w) /\ \A j \in 1..Len(w) : Is(Ev.parts[i][j], w[j])>>}),
            [ks |-> Ev.ks, want |-> [i \in 1..Len(Ev.rows) |-> Integral(Ev.ks, Line(i))]])
\* B = sqrt(8 pi u Lx/Lg): observed log2(B / (sqrt(8 pi u0) G)) in halves;
\* ex, eg: log2 of the X-ray and gamma-ray luminosities, eu: log2(u/u0)
EstB == /\ Ev.ev = "estB"
        /\ bad' = AddBadD(bad, l,
             IF Ev.out # "ok" THEN {"returned"}
             ELSE Fails({<<"field_from_luminosity_ratio", Ev.b2 = Ev.ex - Ev.eg + Ev.eu>>,
                         <<"magnetic_field_unit", Ev.isB>>}),
             Ev.ex - Ev.eg + Ev.eu)
Next == l <= NTrace /\ l' = l + 1 /\ (Integ \/ EstB)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
