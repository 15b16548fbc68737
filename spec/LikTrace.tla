------------------------------ MODULE LikTrace ------------------------------
(* Recorded log-likelihoods of real data tables and models against Lik.       *)
EXTENDS TraceLib, Lik
VARIABLES l, bad
vars == <<l, bad>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, n) == x # OFF /\ x # NANV /\ Abs(x - y) <= 2 + n
Lnl == /\ Ev.ev = "lnl"
       /\ bad' = AddBadD(bad, l,
            IF Ev.out # "ok" THEN {"returned"}
            ELSE Fails({<<"documented_sum", Near(Ev.v, LnL(Ev.ps), Len(Ev.ps))>>,
                        <<"scalar", Ev.scalar>>}), LnL(Ev.ps))
Next == l <= NTrace /\ l' = l + 1 /\ Lnl
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
