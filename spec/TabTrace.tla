------------------------------ MODULE TabTrace ------------------------------
(* Tabulated distributions.  A table is a sequence of nodes (k, v): energy 2^k *)
(* (k in sixteenths), value 2^(v/16); queries are energies 2^(k/16).  The      *)
(* meaning of a query: the node's value at a node, the power law through the   *)
(* nodes if all lie on one (LinearTable), zero outside the table.              *)
EXTENDS TraceLib
VARIABLES l, bad, tab, amp
vars == <<l, bad, tab, amp>>
Ev == Trace[l]
Step == l' = l + 1
Init == l = 1 /\ bad = <<>> /\ tab = <<>> /\ amp = 0

Ks(t) == {t[i][1] : i \in 1..Len(t)}
MinK(t) == CHOOSE k \in Ks(t) : \A j \in Ks(t) : k <= j
MaxK(t) == CHOOSE k \in Ks(t) : \A j \in Ks(t) : k >= j
NodeAt(t, k) == {t[i][2] : i \in {j \in 1..Len(t) : t[j][1] = k}}
\* collinear in log-log: value increments proportional to energy increments
Linear(t) == \A i, j \in 1..Len(t) :
   (t[j][2] - t[1][2]) * (t[i][1] - t[1][1]) = (t[i][2] - t[1][2]) * (t[j][1] - t[1][1])
\* 1e6*ln(2^(p/16)) for |p| up to 40000: 100 units are 4332169.8785
Ln2s(p) == LET h == p \div 100 r == p % 100 IN
  h * 4332170 - ((h * 1215) \div 10000) + ((r * 4332170) \div 100)
Zero(t, k) == k < MinK(t) \/ k > MaxK(t)
Known(t, k) == Zero(t, k) \/ NodeAt(t, k) # {} \/ Linear(t)
LnAt(t, a, k) ==
  IF NodeAt(t, k) # {} THEN Ln2s((CHOOSE v \in NodeAt(t, k) : TRUE) + 16 * a)
  ELSE LET i == CHOOSE i \in 1..Len(t) : t[i][1] # t[1][1]
           num == (t[i][2] - t[1][2]) * (k - t[1][1])
           den == t[i][1] - t[1][1] IN
       \* slope in quarters of an octave: choose tables with integral values
       Ln2s(t[1][2] + (num \div den) + 16 * a) +
         (((num % den) * 43322) \div den)

New == /\ Ev.ev = "new" /\ Step /\ tab' = Ev.tab /\ amp' = Ev.amp
       /\ bad' = AddBad(bad, l, Fails({<<"constructed", Ev.out = "ok">>}))
SetAmp == /\ Ev.ev = "setamp" /\ Step /\ amp' = Ev.amp /\ UNCHANGED <<bad, tab>>
Close(x, y) == x - y \in -12..12
OkAt(i) ==
  LET k == Ev.ks[i] IN
  IF Zero(tab, k) THEN Ev.lnv[i] = NINFV
  ELSE Known(tab, k) => Close(Ev.lnv[i], LnAt(tab, amp, k))
Outside(i) == Zero(tab, Ev.ks[i])
Idx == 1..Len(Ev.ks)
Eval == /\ Ev.ev = "eval" /\ Step /\ UNCHANGED <<tab, amp>>
        /\ bad' = AddBadD(bad, l,
             IF Ev.out # "ok" THEN {"returned"}
             ELSE Fails({
               <<"unit_of_values", Ev.uout = Ev.uval>>,
               <<"shape_of_energies", Ev.shape = Ev.eshape>>,
               <<"zero_outside", \A i \in Idx : Outside(i) => OkAt(i)>>,
               <<"finite_inside", \A i \in Idx : ~Outside(i) =>
                    Ev.lnv[i] \notin {NANV, INFV, NINFV, OFF}>>,
               <<"tabulated_value", \A i \in Idx :
                    (~Outside(i) /\ NodeAt(tab, Ev.ks[i]) # {}) => OkAt(i)>>,
               <<"power_law_table", \A i \in Idx :
                    (~Outside(i) /\ NodeAt(tab, Ev.ks[i]) = {}) => OkAt(i)>>}),
             [tab |-> tab, amp |-> amp])
Next == l <= NTrace /\ (New \/ SetAmp \/ Eval)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
