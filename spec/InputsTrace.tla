----------------------------- MODULE InputsTrace -----------------------------
(* Recorded outcomes of real calls against Inputs.                            *)
EXTENDS TraceLib, Inputs
VARIABLES l, bad
vars == <<l, bad>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>>
In(a) == [form |-> a.form, type |-> a.type, neg |-> a.neg]
Expected == Together({Outcome(Ev.sites[k], In(Ev.args[k])) : k \in 1..Len(Ev.sites)})
Next == /\ l <= NTrace /\ l' = l + 1
        /\ bad' = AddBadD(bad, l, Fails({
             <<"outcome", "free" \in Expected \/ Ev.out \in Expected>>,
             \* the same value in another unit gives the same result
             <<"units_equivalent", (Ev.out = "ok" /\ Expected = {"ok"}) => Ev.same>>,
             \* whatever the outcome: objects are as after the accepted calls only
             <<"objects_as_accepted", Ev.kept>>}), [want |-> SetToSeq(Expected), got |-> Ev.out])
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
