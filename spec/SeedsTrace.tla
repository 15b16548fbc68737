------------------------------ MODULE SeedsTrace ------------------------------
(* Recorded seed evaluations against Seeds.  den maps a contribution (with     *)
(* operation, energies and distance) to the value class of a model that has    *)
(* only that field.                                                           *)
EXTENDS TraceLib, Seeds
VARIABLES l, bad, st, den
vars == <<l, bad, st, den>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ st = <<>> /\ den = <<>>
New == /\ Ev.ev = "new" /\ UNCHANGED bad /\ den' = [x \in {} |-> 0]
       /\ st' = [order |-> Ev.order, ver |-> Ev.ver, pd |-> 1]
SetE == /\ Ev.ev \in {"field", "pd", "order"} /\ UNCHANGED <<bad, den>>
        /\ st' = CASE Ev.ev = "field" -> [st EXCEPT !.ver[Ev.f] = Ev.v]
                   [] Ev.ev = "pd" -> [st EXCEPT !.pd = Ev.v]
                   [] Ev.ev = "order" -> [st EXCEPT !.order = Ev.order]
Alone == /\ Ev.ev = "alone" /\ UNCHANGED <<bad, st>>
         /\ den' = (<<Ev.t, Ev.op, Ev.d, Ev.e>> :> Ev.c) @@ den
Eval ==
  /\ Ev.ev = "eval" /\ UNCHANGED <<st, den>>
  /\ bad' = AddBadD(bad, l,
       IF ~Valid(st.order, Ev.sel) THEN Fails({<<"unknown_seed_rejected", Ev.out = "ValueError">>})
       ELSE IF Ev.out # "ok" THEN {"returned"}
       ELSE IF Ev.sel.by = "none"
       THEN Fails({<<"fields_add_up", \A i \in 1..Len(Ev.r) : Ev.r[i] \in -3..3>>,
                   <<"one_contribution_per_field", Ev.n = Len(st.order)>>})
       ELSE LET t == <<Contribution(st, Field(st.order, Ev.sel)), Ev.op, Ev.d, Ev.e>> IN
            IF t \notin DOMAIN den THEN {"no_reference"}
            ELSE Fails({<<"equals_field_alone", Ev.c = den[t]>>}),
       [sel |-> Ev.sel, st |-> st])
Next == l <= NTrace /\ l' = l + 1 /\ (New \/ SetE \/ Alone \/ Eval)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
