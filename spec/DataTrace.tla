------------------------------ MODULE DataTrace ------------------------------
(* Recorded validations of real tables against DataTab.                        *)
EXTENDS TraceLib, DataTab
VARIABLES l, bad
vars == <<l, bad>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>>
Want == CanonSeq(Ev.ts, Ev.sed)
FieldsOk(names) ==
  LET got == Ev.rows w == Want
      pr(r) == [n \in names |-> r[n]] IN
  SameBag([i \in 1..Len(got) |-> pr(got[i])], [i \in 1..Len(w) |-> pr(w[i])])
ValidateEv ==
  /\ Ev.ev = "validate"
  /\ bad' = AddBadD(bad, l,
      IF Acceptable(Ev.ts) THEN
        IF Ev.out # "ok" THEN {"valid_table_accepted"}
        ELSE LET ks == {"k"} IN Fails({
          <<"every_point_once", Len(Ev.rows) = Len(Want) /\ FieldsOk({"k", "g"})>>,
          <<"sorted_by_energy", Sorted(Ev.rows)>>,
          <<"representation", Ev.rep = (IF OutSed(Ev.ts, Ev.sed) THEN "sed" ELSE "diff")
                 /\ Ev.lum = IsLum(Ev.ts[1].fpt)>>,
          <<"flux_values", FieldsOk({"k", "g", "f"})>>,
          <<"flux_errors", FieldsOk({"k", "g", "lo", "hi"})>>,
          <<"energy_bins", FieldsOk({"k", "g", "el", "eh"})>>,
          <<"upper_limit_flags", FieldsOk({"k", "g", "ul"})>>,
          <<"confidence_levels", FieldsOk({"k", "g", "cl"})>>,
          <<"rows_together", SameBag(Ev.rows, Want)>>,
          <<"idempotent", Ev.again = "ok">>})
      ELSE Fails({<<"rejected_with_TypeError", Ev.out = "TypeError">>}), Ev.ts)
Next == l <= NTrace /\ l' = l + 1 /\ ValidateEv
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
