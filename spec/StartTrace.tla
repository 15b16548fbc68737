------------------------------ MODULE StartTrace ------------------------------
(* Recorded get_sampler calls against StartPt.                                *)
EXTENDS TraceLib, StartPt
VARIABLES l, bad
vars == <<l, bad>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
NearV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 3
SpreadIs(k) == \A i \in 1..Len(Ev.std) :
  CASE k = 5 -> Ev.std[i] \in 2000..9000
    [] k = 100 -> Ev.std[i] \in 55000..150000
Around == \A i \in 1..Len(Ev.mean) : Abs(Ev.mean[i]) <= Ev.meantol
Common == {<<"walkers", Ev.walkers_ok>>, <<"walkers_around_start", Around>>,
           <<"arguments_unchanged", Ev.args_ok>>,
           <<"record", Ev.nwalk = Ev.nw /\ Ev.rguess = Ev.guess>>}
GuessEv ==
  /\ Ev.ev = "guess"
  /\ LET labs == Complete(Ev.labs, Ev.given, Ev.n) IN
     bad' = AddBadD(bad, l,
       IF Ev.out # "ok" THEN {"accepted"}
       ELSE Fails(Common \cup {
         <<"labels_completed", Ev.outlabs = labs>>,
         <<"normalisation_rescaled", NearV(Ev.p, Guess(labs, Ev.p0, Ev.r, Ev.guess))>>,
         <<"unfitted_spread", SpreadIs(100)>>}),
       Guess(labs, Ev.p0, Ev.r, Ev.guess))
PrefitEv ==
  /\ Ev.ev = "prefit"
  /\ bad' = AddBadD(bad, l,
       IF Ev.out # "ok" THEN {"accepted"}
       ELSE Fails(Common \cup {
         <<"replaced_iff_allowed_and_not_failed", Ev.replaced = Replaced(Ev.status, Ev.allowed)>>,
         <<"at_the_optimum", Fitted(Ev.status, Ev.allowed) => Ev.near>>,
         <<"improves", Replaced(Ev.status, Ev.allowed) => Ev.better>>,
         <<"spread", SpreadIs(Spread(Ev.status, Ev.allowed))>>}), Ev.scenario)
RejectEv ==
  /\ Ev.ev = "reject"
  /\ bad' = AddBadD(bad, l, Fails({<<"rejected", Ev.out = Ev.want>>}), Ev.want)
Next == l <= NTrace /\ l' = l + 1 /\ (GuessEv \/ PrefitEv \/ RejectEv)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
