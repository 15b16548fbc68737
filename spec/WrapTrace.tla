------------------------------ MODULE WrapTrace ------------------------------
(* Recorded sessions with real wrapped models against Wrap.                     *)
EXTENDS TraceLib, Wrap
VARIABLES l, bad, s
vars == <<l, bad, s>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ s = <<>>
Step == l' = l + 1
R == s[Ev.r]
Vec(st) == [i \in 1..Len(st) |-> IF i = AMPL THEN st[i] ELSE st[i]]
Judge(cs) == bad' = AddBadD(bad, l, Fails({<<"returned", Ev.out = "ok">>} \union
                            (IF Ev.out = "ok" THEN cs ELSE {})), Ev.detail)
\* values of all parameters of all instances are as they should be
Values(t) == {<<"parameters", Ev.vals = t>>}
Start == /\ Ev.ev = "start" /\ Step
         /\ s' = [i \in 1..2 |-> [k \in 1..Ev.np |-> IF k = AMPL THEN 0 ELSE 1]]
         /\ Judge({<<"order_of_parameters", Ev.ampl = AMPL>>})
DoSet == /\ Ev.ev = "set" /\ Step
         /\ LET t == [s EXCEPT ![Ev.r] = Put(@, Ev.k, Ev.v)] IN s' = t /\ Judge(Values(t))
Freeze == Ev.ev = "freeze" /\ Step /\ UNCHANGED s /\ Judge(Values(s))
\* the result is that of the native model with the current (or given) parameters
Eval == /\ Ev.ev = "eval" /\ Step /\ UNCHANGED s
        /\ LET p == IF Ev.given # <<>> THEN Ev.given ELSE R IN
           Judge(Values(s) \union
                 {<<"photons_of_native_model", \E i \in 1..Len(Ev.match) : Ev.match[i] = p>>,
                  <<"one_value_per_request", Ev.n = Ev.nreq>>})
Guess == /\ Ev.ev = "guess" /\ Step
         /\ LET t == [s EXCEPT ![Ev.r] = Guessed(@, Ev.m)] IN
            s' = t /\ Judge(Values(t) \union {<<"flux_matches_data", Ev.fluxok>>})
\* data of another shape: only the amplitude changes (it is reset afterwards)
GuessShape == /\ Ev.ev = "gshape" /\ Step /\ UNCHANGED s
              /\ Judge({<<"other_parameters", [i \in 1..2 |-> [Ev.vals[i] EXCEPT ![AMPL] = 0]] =
                                             [i \in 1..2 |-> [s[i] EXCEPT ![AMPL] = 0]]>>,
                        <<"other_instance", Ev.vals[3 - Ev.r] = s[3 - Ev.r]>>,
                        <<"flux_matches_data", Ev.fluxok>>})
Next == l <= NTrace /\ (Start \/ DoSet \/ Freeze \/ Eval \/ Guess \/ GuessShape)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
