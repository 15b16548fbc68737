------------------------------ MODULE BudgetGen ------------------------------
(* Models (their energy limits) sharing distributions (their amplitudes) that  *)
(* are normalised to budgets: design invariants and generation of histories.   *)
EXTENDS Budget, TLC, Json
CONSTANTS NM, ND, Idx, Ws, Ks, L, Generate
VARIABLES a, amp, lim, slot, last, hist, done
vars == <<a, amp, lim, slot, last, hist, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Ranges == {r \in (0..Top) \X (0..Top) : r[1] < r[2]}
Args(m) == {r \in (-1..Top) \X (-1..Top) : Lo(lim[m], r[1]) < Hi(lim[m], r[2])}
Init == /\ a \in [1..ND -> Idx]
        /\ amp = [d \in 1..ND |-> <<1, 1>>]
        /\ lim = [m \in 1..NM |-> <<0, Top>>]
        /\ slot = [m \in 1..NM |-> IF m <= ND THEN m ELSE 1]
        /\ last = <<>> /\ hist = <<>> /\ done = FALSE
Go == ~done /\ Len(hist) < L
Log(r) == hist' = Append(hist, r) /\ UNCHANGED <<a, done>>
SetW == Go /\ \E m \in Pick(1..NM), w \in Pick(Ws), n \in Pick({"none", "amplitude", "other"}) :
        \E r \in Pick(Args(m)) :
          LET d == slot[m] i == Lo(lim[m], r[1]) j == Hi(lim[m], r[2]) IN
          /\ amp' = [amp EXCEPT ![d] = AmpFor(a[d], w, i, j)]
          /\ last' = [m |-> m, d |-> d, i |-> i, j |-> j, w |-> w]
          /\ Log([op |-> "set", m |-> m, w |-> w, lo |-> r[1], hi |-> r[2], n |-> n])
          /\ UNCHANGED <<lim, slot>>
\* a new amplitude; shared: two distributions get the same amplitude object
SetA == Go /\ \E d \in Pick(1..ND), k \in Pick(Ks), s \in Pick(BOOLEAN) :
          /\ amp' = [e \in 1..ND |-> IF e = d \/ s THEN Pow(k) ELSE amp[e]]
          /\ Log([op |-> "amp", d |-> d, k |-> k, s |-> s])
          /\ last' = <<>> /\ UNCHANGED <<lim, slot>>
SetL == Go /\ \E m \in Pick(1..NM), r \in Pick(Ranges) :
          /\ lim' = [lim EXCEPT ![m] = r]
          /\ Log([op |-> "lim", m |-> m, lo |-> r[1], hi |-> r[2]])
          /\ UNCHANGED <<amp, slot, last>>
Swap == Go /\ \E m \in Pick(1..NM), d \in Pick(1..ND) :
          /\ slot' = [slot EXCEPT ![m] = d] /\ Log([op |-> "swap", m |-> m, d |-> d])
          /\ UNCHANGED <<amp, lim, last>>
Ask == Go /\ \E m \in Pick(1..NM) : \E r \in Pick(Args(m)) :
          /\ Log([op |-> "ask", m |-> m, lo |-> r[1], hi |-> r[2]])
          /\ UNCHANGED <<amp, lim, slot, last>>
Prop == Go /\ \E m \in Pick(1..NM) :
          /\ Log([op |-> "prop", m |-> m]) /\ UNCHANGED <<amp, lim, slot, last>>
Refuse == Go /\ \E m \in Pick(1..NM), x \in Pick(1..5) :
          /\ Log([op |-> "refuse", m |-> m, x |-> x]) /\ UNCHANGED <<amp, lim, slot, last>>
Stop == /\ ~done /\ Len(hist) > 0 /\ (Generate => Len(hist) = L)
        /\ done' = TRUE /\ UNCHANGED <<a, amp, lim, slot, last, hist>>
Next == SetW \/ SetA \/ SetL \/ Swap \/ Ask \/ Prop \/ Refuse \/ Stop
Spec == Init /\ [][Next]_vars
\* what was asked for is what is there
SetExactly == last # <<>> =>
  Same(Content(a[last.d], amp[last.d], last.i, last.j), <<last.w, 1>>)
\* contents of adjacent ranges add up
ASSUME Additive == \A x \in 0..3 : \A i, j, k \in 0..Top : i < j /\ j < k =>
  Unit(x, i, k) = Unit(x, i, j) + Unit(x, j, k)
Positive == \A d \in 1..ND : amp[d][1] > 0 /\ amp[d][2] > 0
\* setting one distribution changes no other one
Others == [][\A m \in 1..NM : Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "set" /\ hist'[Len(hist')].m = m =>
             \A d \in 1..ND : d # slot[m] => amp'[d] = amp[d]]_vars
Emit == done => PrintT("B " \o ToJson([a |-> a, h |-> hist]))
=============================================================================
