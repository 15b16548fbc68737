---------------------------- MODULE SamplerTrace ----------------------------
(* Recorded sampler life cycles against Sampler.  Ensembles (positions of all *)
(* walkers) are value classes; ens maps ensemble numbers to classes.          *)
EXTENDS TraceLib, Sampler
VARIABLES l, bad, s, ens
vars == <<l, bad, s, ens>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ s = Fresh /\ ens = <<>>
Start == Ev.ev = "new" /\ s' = Fresh /\ ens' = <<>> /\ UNCHANGED bad
Record(s2, g) == {
  <<"burn_in_length_recorded", g.n_burn = s2.info.n_burn>>,
  <<"walkers_recorded", g.n_walkers = s2.info.n_walkers>>,
  <<"start_point_recorded", g.p0_ok>>,
  <<"burn_in_medians_recorded", g.med = g.medref>>}
Contents(s2) == {
  <<"exactly_the_stored_steps", Ev.nsteps = s2.steps>>,
  <<"chain_shape", Ev.shape_ok>>,
  <<"state_is_the_last_step", s2.steps > 0 => Ev.last_ok>>,
  <<"log_probability_of_stored_vector", Ev.lp_bad = 0>>,
  <<"outputs_of_stored_vector", Ev.blob_bad = 0>>}
Get == /\ Ev.ev = "get" /\ s' = Created(Ev.nw, Ev.nb, Ev.th) /\ ens' = <<Ev.end>>
       /\ bad' = AddBadD(bad, l,
            IF Ev.out # "ok" THEN {"created"}
            ELSE Fails(Record(s', Ev.info) \cup Contents(s')), s')
DoRun(s2, from, ens2) ==
  /\ s' = s2 /\ ens' = IF s2.end > Len(ens2) THEN Append(ens2, Ev.end) ELSE ens2
  /\ bad' = AddBadD(bad, l,
       IF Ev.out # "ok" THEN {"run_and_resume_accepted"}
       ELSE Fails(Record(s2, Ev.info) \cup Contents(s2) \cup {
         <<"run_length_recorded", Ev.info.n_run = s2.info.n_run>>,
         <<"starts_from_the_given_state", from = -1 \/ s2.steps = 0 \/ Ev.moved = Ev.accepted>>,
         <<"no_steps_no_change", (s2.steps = 0 /\ from # -1) => Ev.end = ens2[from]>>}), s2)
Run == /\ Ev.ev = "run" /\ DoRun(Ran(s, Ev.n, Ev.from), Ev.from, ens)
RunNew == /\ Ev.ev = "runnew"
          /\ DoRun(Ran(Created(Ev.nw, Ev.nb, Ev.th), Ev.n, 1), -1, <<Ev.end>>)
Next == l <= NTrace /\ l' = l + 1 /\ (Start \/ Get \/ Run \/ RunNew)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
