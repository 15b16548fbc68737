----------------------------- MODULE PostTrace -----------------------------
(* Recorded priors and posteriors against Post.                               *)
EXTENDS TraceLib, Post
VARIABLES l, bad
vars == <<l, bad>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Fin(x) == x \notin {OFF, NANV, INFV, NINFV}
\* one prior term evaluated at several values
Prior ==
  /\ Ev.ev = "prior"
  /\ LET t == Ev.t  n == Len(Ev.ps)
         in == {i \in 1..n : Inside(t, Ev.ps[i])} IN
     bad' = AddBadD(bad, l, Fails({
       <<"minus_infinity_outside", \A i \in 1..n : i \notin in => Ev.v[i] = NINFV>>,
       <<"finite_inside", \A i \in in : Fin(Ev.v[i])>>,
       <<"log_of_the_density", \A i, j \in in : (Fin(Ev.v[i]) /\ Fin(Ev.v[j])) =>
           Abs((Ev.v[i] - Ev.v[j]) - (Rel(t, Ev.ps[i]) - Rel(t, Ev.ps[j]))) <= 12>>}), t)
Posterior ==
  /\ Ev.ev = "lnprob"
  /\ LET ok == Allowed(Ev.ts, Ev.ps) IN
     bad' = AddBadD(bad, l,
       IF Ev.out # "ok" THEN {"returned"}
       ELSE Fails({
         <<"minus_infinity_iff_forbidden", (Ev.v = NINFV) = ~ok>>,
         <<"likelihood_plus_prior", ok => Abs(Ev.v - (Ev.lnl + Ev.pr)) <= 3>>,
         <<"outputs_of_this_vector",
             /\ Len(Ev.blobs) >= Len(Ev.want)
             /\ \A i \in 1..Len(Ev.want) : Ev.blobs[i] = Ev.want[i]>>,
         <<"first_is_the_model", Len(Ev.want) >= 1>>}), Ev.want)
Next == l <= NTrace /\ l' = l + 1 /\ (Prior \/ Posterior)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
