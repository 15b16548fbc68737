------------------------------ MODULE FitterMC ------------------------------
(* The fitter as made of widgets with callbacks, model checked against Fitter:  *)
(* a fit sets the sliders one by one, each calling back.                        *)
EXTENDS Fitter, TLC
CONSTANTS NP, V, Broken
VARIABLES s, i, fit
\* s: state according to Fitter; i: the widgets; fit: result of the fit and next slider
vars == <<s, i, fit>>
P == [1..NP -> V]
Idle == fit = <<>>
Init == /\ \E p \in P, a \in BOOLEAN : s = Made(p, a) /\ i = [sl |-> p, pars |-> p, curve |-> p,
                lik |-> p, auto |-> a, ml |-> FALSE, keep |-> a]
        /\ fit = <<>>
Up(w) == [w EXCEPT !.pars = w.sl, !.curve = w.sl, !.lik = w.sl, !.ml = FALSE]
Back(w) == IF w.auto THEN Up(w) ELSE w
Set(w, k, v) == Back([w EXCEPT !.sl[k] = v])
Move == /\ Idle /\ \E k \in 1..NP, v \in V : s' = Moved(s, k, v) /\ i' = Set(i, k, v)
        /\ UNCHANGED fit
Toggle == Idle /\ s' = Toggled(s) /\ i' = [i EXCEPT !.auto = ~i.auto] /\ UNCHANGED fit
Update == Idle /\ s' = Updated(s) /\ i' = Up(i) /\ UNCHANGED fit
\* the result is known; the flag is to be set when everything is shown
Fit == /\ Idle
       /\ \E x \in P, ok \in BOOLEAN :
            /\ fit' = <<x, ok, 1>> /\ s' = Fitted(s, x, ok)
            /\ i' = [i EXCEPT !.pars = x, !.keep = i.auto,
                              !.auto = IF Broken THEN i.auto ELSE FALSE,
                              !.ml = IF Broken THEN ok ELSE i.ml]
Apply == /\ ~Idle /\ fit[3] <= NP /\ i' = Set(i, fit[3], fit[1][fit[3]])
         /\ fit' = [fit EXCEPT ![3] = @ + 1] /\ UNCHANGED s
Finish == /\ ~Idle /\ fit[3] > NP /\ fit' = <<>> /\ UNCHANGED s
          /\ i' = IF Broken THEN [i EXCEPT !.auto = i.keep]
                  ELSE [Up(i) EXCEPT !.auto = i.keep, !.ml = fit[2]]
Next == Move \/ Toggle \/ Update \/ Fit \/ Apply \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Apply \/ Finish)
Refines == Idle => [sl |-> i.sl, pars |-> i.pars, auto |-> i.auto, ml |-> i.ml] = s
Together == Idle => i.curve = i.pars /\ i.lik = i.pars
\* parameters change only when this is enabled or asked for
Asked == [][(s.pars # s'.pars /\ s.sl # s'.sl) => (s.auto \/ fit' # <<>>)]_vars
Ends == []<>Idle
=============================================================================
