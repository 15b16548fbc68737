----------------------------- MODULE DistTrace -----------------------------
(* Recorded evaluations of real particle distributions against Dist.           *)
EXTENDS TraceLib, Dist
VARIABLES l, bad, kind, s
vars == <<l, bad, kind, s>>
Ev == Trace[l]
Step == l' = l + 1
Init == l = 1 /\ bad = <<>> /\ kind = "" /\ s = <<>>
New == /\ Ev.ev = "new" /\ Step /\ kind' = Ev.kind /\ s' = Ev.s
       /\ bad' = AddBad(bad, l, Fails({<<"constructed", Ev.out = "ok">>}))
Set == /\ Ev.ev = "set" /\ Step /\ s' = [s EXCEPT ![Ev.p] = Ev.v]
       /\ UNCHANGED <<bad, kind>>
Close(x, y) == x - y \in -4..4
OkAt(i) ==
  LET k == Ev.ks[i] IN
  IF Zero(kind, s, k) THEN Ev.lnv[i] = NINFV
  ELSE Exact(kind, s, k) => Close(Ev.lnv[i], LnVal(kind, s, k))
Eval == /\ Ev.ev = "eval" /\ Step /\ UNCHANGED <<kind, s>>
        /\ bad' = AddBadD(bad, l,
             IF Ev.out # "ok" THEN {"returned"}
             ELSE Fails({
               <<"unit_of_amplitude", Ev.uout = Ev.uamp>>,
               <<"shape_of_energies", Ev.shape = Ev.eshape>>,
               <<"documented_formula", Len(Ev.lnv) = Len(Ev.ks) /\ \A i \in 1..Len(Ev.ks) : OkAt(i)>>}),
             [kind |-> kind, s |-> s,
              want |-> [i \in 1..Len(Ev.ks) |->
                 IF Zero(kind, s, Ev.ks[i]) THEN NINFV ELSE LnVal(kind, s, Ev.ks[i])]])
Next == l <= NTrace /\ (New \/ Set \/ Eval)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
