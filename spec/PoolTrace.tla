------------------------------ MODULE PoolTrace ------------------------------
(* Runs of the same problem with different workers and schedules: the first   *)
(* recorded run of a problem (one worker) fixes every observable.             *)
EXTENDS TraceLib
VARIABLES l, bad, ref
vars == <<l, bad, ref>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ ref = [x \in {} |-> 0]
Obs == Ev.obs
RunEv == /\ Ev.ev = "run"
         /\ IF Ev.problem \notin DOMAIN ref
            THEN /\ ref' = (Ev.problem :> Obs) @@ ref
                 /\ bad' = AddBad(bad, l, Fails({<<"reference_run", Ev.out = "ok">>}))
            ELSE /\ UNCHANGED ref
                 /\ bad' = AddBadD(bad, l,
                      IF Ev.out # "ok" THEN {"run_completed"}
                      ELSE Fails({<<"same_chain", Obs.chain = ref[Ev.problem].chain>>,
                        <<"same_log_probability", Obs.lp = ref[Ev.problem].lp>>,
                        <<"same_model_outputs", Obs.blobs = ref[Ev.problem].blobs>>,
                        <<"same_run_record", Obs.info = ref[Ev.problem].info>>,
                        <<"same_final_state", Obs.end = ref[Ev.problem].end>>,
                        <<"global_random_state", Obs.rnd = ref[Ev.problem].rnd>>}), Ev.threads)
Next == l <= NTrace /\ l' = l + 1 /\ RunEv
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
