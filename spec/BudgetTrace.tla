----------------------------- MODULE BudgetTrace -----------------------------
(* Recorded energy budgets of real models against Budget.                     *)
EXTENDS TraceLib, Budget
VARIABLES l, bad, a, amp, lim, slot, curved
vars == <<l, bad, a, amp, lim, slot, curved>>
Ev == Trace[l]
Init == /\ l = 1 /\ bad = <<>> /\ a = <<>> /\ amp = <<>> /\ lim = <<>> /\ slot = <<>>
        /\ curved = <<>>
Step == l' = l + 1
Is(r, s) == r[1] # OFF /\ Same(r, s)
\* what every distribution returns, relative to its shape, at several energies
Shapes(A) == \A d \in 1..Len(A) : \A i \in 1..Len(Ev.amps[d]) : Is(Ev.amps[d][i], A[d])
Start == /\ Ev.ev = "start" /\ Step /\ bad' = bad
         /\ a' = Ev.a /\ slot' = Ev.slot
         /\ amp' = [d \in 1..Len(Ev.a) |-> <<1, 1>>]
         /\ lim' = [m \in 1..Len(Ev.slot) |-> <<0, Top>>]
         /\ curved' = Ev.curved
Common(A) == {<<"distributions_as_specified", Shapes(A)>>,
              <<"callers_amplitudes_kept", Ev.vars>>,
              <<"amplitude_units", Ev.units>>}
\* a model the amplitude of which cannot be found is left alone; contents of
\* curved shapes are in units of that of the shape itself over the same range
Set == /\ Ev.ev = "set" /\ Step
       /\ LET d == slot[Ev.m] i == Lo(lim[Ev.m], Ev.lo) j == Hi(lim[Ev.m], Ev.hi)
              A == IF Ev.named THEN [amp EXCEPT ![d] = IF curved[d] THEN <<Ev.w, 1>>
                                                       ELSE AmpFor(a[d], Ev.w, i, j)] ELSE amp
          IN /\ amp' = A
             /\ bad' = AddBadD(bad, l, IF Ev.out # "ok" THEN {"accepted"}
                  ELSE Fails(Common(A) \union
                    {<<"budget_met", Ev.named => Is(Ev.now, <<Ev.w, 1>>)>>}), A)
       /\ UNCHANGED <<a, lim, slot, curved>>
Amp == /\ Ev.ev = "amp" /\ Step
       /\ LET A == [e \in 1..Len(amp) |-> IF e = Ev.d \/ Ev.s THEN Pow(Ev.k) ELSE amp[e]] IN
            amp' = A /\ bad' = AddBadD(bad, l, Fails(Common(A)), A)
       /\ UNCHANGED <<a, lim, slot, curved>>
Limits == /\ Ev.ev = "lim" /\ Step /\ lim' = [lim EXCEPT ![Ev.m] = <<Ev.lo, Ev.hi>>]
          /\ bad' = AddBadD(bad, l, Fails(Common(amp)), amp)
          /\ UNCHANGED <<a, amp, slot, curved>>
Swap == /\ Ev.ev = "swap" /\ Step /\ slot' = [slot EXCEPT ![Ev.m] = Ev.d]
        /\ bad' = AddBadD(bad, l, Fails(Common(amp)), amp)
        /\ UNCHANGED <<a, amp, lim, curved>>
Ask == /\ Ev.ev = "ask" /\ Step
       /\ LET d == slot[Ev.m]
              w == IF curved[d] THEN amp[d]
                   ELSE Content(a[d], amp[d], Lo(lim[Ev.m], Ev.lo), Hi(lim[Ev.m], Ev.hi)) IN
          bad' = AddBadD(bad, l, IF Ev.out # "ok" THEN {"returned"}
                   ELSE Fails(Common(amp) \union {<<"energy_content", Is(Ev.got, w)>>,
                                                  <<"energy_unit", Ev.isE>>}), w)
       /\ UNCHANGED <<a, amp, lim, slot, curved>>
Refuse == /\ Ev.ev = "refuse" /\ Step
          /\ bad' = AddBadD(bad, l, Fails(Common(amp) \union
                      {<<"refused_with_TypeError", Ev.out = "TypeError">>}), Ev.what)
          /\ UNCHANGED <<a, amp, lim, slot, curved>>
\* adjacent ranges of a curved shape (in 1e-6 of the whole)
Add == /\ Ev.ev = "add" /\ Step
       /\ bad' = AddBadD(bad, l, Fails({<<"additive", Ev.sum \notin {OFF, NANV, INFV, NINFV}
                                   /\ Ev.sum >= 1000000 - Ev.tol /\ Ev.sum <= 1000000 + Ev.tol>>}), Ev.sum)
       /\ UNCHANGED <<a, amp, lim, slot, curved>>
Next == l <= NTrace /\ (Start \/ Set \/ Amp \/ Limits \/ Swap \/ Ask \/ Refuse \/ Add)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
