------------------------------- MODULE Fitter -------------------------------
(* The interactive fitter: sliders, the parameters in use, automatic updates    *)
(* and the flag that the parameters are a fitted optimum. The curve and the     *)
(* likelihood shown are always those of the parameters in use.                  *)
(*   s.sl   values of the sliders       s.pars  parameters in use               *)
(*   s.auto update on every change      s.ml    parameters are the optimum      *)
EXTENDS Naturals, Sequences
Made(p0, auto) == [sl |-> p0, pars |-> p0, auto |-> auto, ml |-> FALSE]
Updated(s) == [s EXCEPT !.pars = s.sl, !.ml = FALSE]
Moved(s, k, v) == LET t == [s EXCEPT !.sl[k] = v] IN IF s.auto THEN Updated(t) ELSE t
Toggled(s) == [s EXCEPT !.auto = ~s.auto]
Fitted(s, x, ok) == [s EXCEPT !.sl = x, !.pars = x, !.ml = ok]
=============================================================================
