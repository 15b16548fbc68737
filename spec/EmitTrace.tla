------------------------------ MODULE EmitTrace -----------------------------
(* Recorded spectra against the kernels of Emit.tla, and superposition: the    *)
(* emission of a population is the sum of the emissions of its parts.          *)
EXTENDS Emit, TraceLib
VARIABLES l, bad, st
vars == <<l, bad, st>>
Ev == Trace[l]
Step == l' = l + 1
Init == l = 1 /\ bad = <<>> /\ st = <<>>
Number(v) == v \notin {OFF, NANV, INFV}
State == /\ Ev.ev = "new" /\ Step /\ st' = Ev.st
         /\ bad' = AddBad(bad, l, Fails({<<"constructed", Ev.out = "ok">>}))
Set == /\ Ev.ev = "set" /\ Step
       /\ st' = [st EXCEPT ![Ev.f] = Ev.v] /\ UNCHANGED bad
Ask == /\ Ev.ev = "ask" /\ Step /\ UNCHANGED st
       /\ bad' = AddBadD(bad, l,
            IF Ev.out # "ok" THEN {"returned"}
            ELSE Fails({
              <<"one_value_per_energy", Len(Ev.v) = Len(Ev.ks)>>,
              <<"finite", \A i \in 1..Len(Ev.v) : Number(Ev.v[i])>>,
              <<"published_kernel", Len(Ev.v) = Len(Ev.ks) =>
                  \A i \in 1..Len(Ev.v) : Number(Ev.v[i]) =>
                     Agrees(st, Ev.ks, Ev.ks[i], Ev.v[i])>>}),
            [st |-> st, want |-> [i \in 1..Len(Ev.ks) |-> Value(st, Ev.ks, Ev.ks[i])]])
\* no photon carries more energy than the particle that made it
Over == /\ Ev.ev = "over" /\ Step /\ UNCHANGED st
        /\ bad' = AddBadD(bad, l, IF Ev.out # "ok" THEN {"returned"}
             ELSE Fails({<<"nothing_beyond_particle_energy",
                           \A i \in 1..Len(Ev.v) : Ev.v[i] = NINFV>>}), [st |-> st])
Pow == /\ Ev.ev = "power" /\ Step /\ UNCHANGED st
       /\ bad' = AddBadD(bad, l, IF Ev.out # "ok" THEN {"returned"}
            ELSE Fails({<<"energy_loss_rate",
                 Number(Ev.v) /\ Abs(Ev.v - Power(st)) <= PowerTol(st)>>}),
            [st |-> st, want |-> Power(st)])
\* parts: emission of each part over that of the whole, 1e-6
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
PartTol == CASE Ev.proc = "SYN" -> 3000 [] Ev.proc = "IC" -> 20000 [] Ev.proc = "PP" -> 20000 [] OTHER -> 40000
Parts == /\ Ev.ev = "parts" /\ Step /\ UNCHANGED st
         /\ bad' = AddBad(bad, l, IF Ev.out # "ok" THEN {"returned"}
              ELSE Fails({<<"emission_not_negative",
                            \A i \in 1..Len(Ev.v) : \A e \in 1..Len(Ev.v[i]) : Ev.v[i][e] >= 0>>,
                          <<"whole_is_sum_of_parts",
                            \A i \in 1..Len(Ev.v) : Abs(Total(Ev.v[i]) - 1000000) <= PartTol>>}))
\* two ways to the same emission (lookup table or cross section; 1e-6)
Same == /\ Ev.ev = "same" /\ Step /\ UNCHANGED st
        /\ bad' = AddBad(bad, l, IF Ev.out # "ok" THEN {"returned"}
             ELSE Fails({<<"table_as_cross_section", \A i \in 1..Len(Ev.v) :
                           Number(Ev.v[i]) /\ Abs(Ev.v[i]) <= Ev.tol>>}))
Next == l <= NTrace /\ (State \/ Set \/ Ask \/ Over \/ Pow \/ Parts \/ Same)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
