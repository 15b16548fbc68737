----------------------------- MODULE FitterTrace -----------------------------
(* Recorded sessions with real fitters against Fitter. Parameters are tokens    *)
(* for numbers; those on the lattice are given by Ev.ints (else OFF).           *)
EXTENDS TraceLib, Fitter
VARIABLES l, bad, s
vars == <<l, bad, s>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ s = <<>>
Step == l' = l + 1
Start == Ev.ev = "start" /\ Step /\ s' = <<>> /\ UNCHANGED bad
\* ten times the log-likelihood of integer parameters: points at 1, 2, 4, 8 TeV of
\* flux 101, 110, 120 with errors 10, 10, 20, and an upper limit of 111 (90%)
M(v, i) == 100 + i * v[1] + (5 - i) * v[2]
Sq(x) == x * x
LnL10(v) == LET n == 4 * Sq(M(v, 1) - 101) + 4 * Sq(M(v, 2) - 110) + Sq(M(v, 3) - 120)
                ul == IF M(v, 4) > 111 THEN 1842 ELSE 0 IN (2 * (n + ul) + 80) \div 160
\* what is shown belongs to the parameters st.pars
Shown(st) ==
  {<<"curve_is_model_of_parameters", \E i \in 1..Len(Ev.curve) : Ev.curve[i] = st.pars>>,
   <<"energies_of_curve", Ev.energies>>,
   <<"likelihood_of_parameters", Ev.hasdata => \E i \in 1..Len(Ev.lik) : Ev.lik[i] = st.pars>>,
   <<"likelihood_of_integers", (Ev.hasdata /\ ~Ev.rough /\ Ev.ints # <<>>) =>
        (Ev.lnl >= -LnL10(Ev.ints) - 1 /\ Ev.lnl <= -LnL10(Ev.ints) + 1)>>,
   <<"data_points", Ev.hasdata => Ev.points>>}
Same(st) ==
  {<<"sliders", Ev.sl = st.sl>>, <<"parameters", Ev.full => Ev.pars = st.pars>>,
   <<"automatic_update", Ev.full => Ev.auto = st.auto>>, <<"checkbox", Ev.box = st.auto>>,
   <<"optimum_flag", Ev.full => Ev.ml = st.ml>>} \union Shown(st)
Check(st, cs) == bad' = AddBadD(bad, l, Fails({<<"returned", Ev.out = "ok">>} \union
                     (IF Ev.out = "ok" THEN cs \union Same(st) ELSE {})), <<Ev.out, Ev.k, Ev.lnl>>)
New == /\ Ev.ev = "new" /\ Step
       /\ LET st == Made(Ev.p0, Ev.auto0) IN s' = Append(s, st) /\ Check(st, {})
R == s[Ev.r]
Put(st) == s' = [s EXCEPT ![Ev.r] = IF Ev.out = "ok" THEN st ELSE @]
\* the value a slider takes is up to the slider; no other slider moves
Move == /\ Ev.ev = "move" /\ Step
        /\ LET v == IF Ev.out # "ok" THEN 0 ELSE IF Ev.v = 0 THEN Ev.sl[Ev.k] ELSE Ev.v st == Moved(R, Ev.k, v) IN Put(st) /\ Check(st, {})
Toggle == Ev.ev = "toggle" /\ Step /\ LET st == Toggled(R) IN Put(st) /\ Check(st, {})
Update == Ev.ev = "update" /\ Step /\ LET st == Updated(R) IN Put(st) /\ Check(st, {})
Fit == /\ Ev.ev = "fit" /\ Step
       /\ LET ok == IF Ev.calls > 490 /\ Ev.calls < 500 THEN Ev.ml ELSE Ev.calls < 500 st == Fitted(R, Ev.sl, ok) IN
          Put(st) /\ Check(st, {<<"fit_not_worse", Ev.better>>})
\* a sampler started interactively: from the parameters shown at the end, unless a
\* fit was asked for and none was done
Sampler == /\ Ev.ev = "sampler" /\ Step /\ UNCHANGED s
           /\ LET st == s[1] IN
              bad' = AddBadD(bad, l, Fails(
                {<<"returned", Ev.out = "ok">>,
                 <<"start_is_what_was_shown", (Ev.out = "ok" /\ (st.ml \/ ~Ev.prefit)) => Ev.p0 = st.pars>>,
                 <<"spread_after_fit", (Ev.out = "ok" /\ st.ml) => Ev.spread # "wide">>,
                 <<"spread_without_fit", (Ev.out = "ok" /\ ~st.ml /\ ~Ev.prefit) => Ev.spread # "narrow">>}), Ev.out)
Next == l <= NTrace /\ (Start \/ New \/ Move \/ Toggle \/ Update \/ Fit \/ Sampler)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
