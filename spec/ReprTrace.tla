----------------------------- MODULE ReprTrace -----------------------------
(* Recorded conversions of real spectra against Repr.                         *)
EXTENDS TraceLib, Repr
VARIABLES l, bad, fam, form, x, ks
vars == <<l, bad, fam, form, x, ks>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ fam = Other /\ form = "diff" /\ x = <<>> /\ ks = <<>>
Start == /\ Ev.ev = "start" /\ fam' = Ev.fam /\ form' = Ev.form /\ x' = Ev.x
         /\ ks' = Ev.ks /\ UNCHANGED bad
DoConv ==
  /\ Ev.ev = "convert"
  /\ IF fam = Other THEN
       /\ bad' = AddBad(bad, l, Fails({<<"other_types_rejected", Ev.out = "UnitsError">>}))
       /\ UNCHANGED <<form, x>>
     ELSE
       /\ form' = FormOf(Ev.sed) /\ x' = Conv(x, ks, form, Ev.sed)
       /\ bad' = AddBadD(bad, l,
            IF Ev.out # "ok" THEN {"convertible_accepted"}
            ELSE Fails({
              <<"values", Ev.x = x'>>,
              <<"unchanged_if_already_there", Factor(form, Ev.sed) = 0 => Ev.same>>,
              <<"documented_unit", Ev.unit = OutUnit(fam, Ev.sed)>>}), x')
  /\ UNCHANGED <<fam, ks>>
Next == l <= NTrace /\ l' = l + 1 /\ (Start \/ DoConv)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
