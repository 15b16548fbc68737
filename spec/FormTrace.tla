------------------------------ MODULE FormTrace ------------------------------
(* Recorded answers of real models and distributions: every value is a value   *)
(* class, a function of object, operation and energy alone.                   *)
EXTENDS TraceLib, Form
VARIABLES l, bad, den
vars == <<l, bad, den>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ den = [x \in {} |-> 0]
Start == Ev.ev = "start" /\ den' = [x \in {} |-> 0] /\ UNCHANGED bad
Ref == /\ Ev.ev = "ref" /\ UNCHANGED bad
       /\ den' = [x \in {<<Ev.o, Ev.op, i>> : i \in 1..Len(Ev.c)} |-> Ev.c[x[3]]] @@ den
Ask == /\ Ev.ev = "ask" /\ UNCHANGED den
       /\ bad' = AddBadD(bad, l,
            IF ~Accepts(Ev.form) THEN Fails({<<"not_energies_rejected", Ev.out = "TypeError">>})
            ELSE IF Ev.out # "ok" THEN {"accepted"}
            ELSE Fails({<<"shape", Ev.shape = Shape(Ev.form, Ev.q)>>,
                        <<"same_values", Len(Ev.c) = Len(Ev.q) /\
                           Ev.c = Answer(LAMBDA i : den[<<Ev.o, Ev.op, i>>], Ev.q)>>}),
            [form |-> Ev.form, q |-> Ev.q])
Next == l <= NTrace /\ l' = l + 1 /\ (Start \/ Ref \/ Ask)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
