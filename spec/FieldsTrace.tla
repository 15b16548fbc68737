----------------------------- MODULE FieldsTrace ------------------------------
(* Recorded emission of models with described seed photon fields.               *)
EXTENDS TraceLib, Fields
VARIABLES l, bad, shapes
vars == <<l, bad, shapes>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ shapes = <<>>
\* emission of the shapes, each written the plainest way
Start == /\ Ev.ev = "start" /\ shapes' = [i \in 1..Len(Ev.ref) |-> Ev.ref[i]]
         /\ bad' = AddBadD(bad, l, Fails({<<"other_field_other_emission",
              \A i, j \in 1..Len(Ev.ref) : i # j => Ev.ref[i].c # Ev.ref[j].c>>}), Ev.ref)
Abs(x) == IF x < 0 THEN -x ELSE x
\* r: logarithm of the ratio to the plainest form of that shape, at all energies
Is(i, v) == /\ <<v.kind, v.T, v.th>> = Shape(i)
            /\ \A k \in 1..Len(v.r) : Abs(v.r[k] - Amount(i)) <= 20
Model == /\ Ev.ev = "model" /\ UNCHANGED shapes
  /\ LET c == Ev.c n == Len(c.items) IN
     bad' = AddBadD(bad, l,
       IF ~Accepted(c) THEN Fails({<<"wrong_description_rejected", Ev.out \in Errors(c)>>,
                                   <<"caller_unchanged", Ev.same>>})
       ELSE IF Ev.out # "ok" THEN {"documented_description_accepted"}
       ELSE Fails({<<"fields_named_in_order", Ev.names = [k \in 1..n |-> c.items[k].n]>>,
                   <<"by_number", \A k \in 1..n : Is(c.items[k], Ev.num[k])>>,
                   <<"by_name", \A k \in 1..n : Is(c.items[k], Ev.name[k])>>,
                   <<"total_of_all", \A k \in 1..Len(Ev.tot) : Ev.tot[k] \in -3..3>>,
                   <<"caller_unchanged", Ev.same>>}),
       c)
Next == l <= NTrace /\ l' = l + 1 /\ (Start \/ Model)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
===============================================================================
