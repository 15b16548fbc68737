------------------------------ MODULE EblTrace ------------------------------
(* Recorded transmissions against the lookup of Ebl.  Events:                  *)
(*  eval: z (1e-4), pts: sequence of [j |-> region/node, t |-> transmission    *)
(*        in 1e-9, o |-> opacity in 1e-6], rows: columns near z with their     *)
(*        tabulated opacities at the queried nodes                             *)
(*  zpair: transmissions at the same energies for two redshifts                *)
(*  bad:  construction outcomes for invalid arguments                          *)
EXTENDS TraceLib
VARIABLES l, bad
vars == <<l, bad>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(rows, z) == {i \in 1..Len(rows) : \A k \in 1..Len(rows) :
                     Abs(rows[i].z - z) <= Abs(rows[k].z - z)}
Tol(x) == 3 + x \div 200000
\* expected opacities of point p (a set: ties admit both columns)
Want(p) == IF Ev.z < 100 \/ p.j = 0 THEN {0}
           ELSE IF p.j < 0 THEN {}                 \* between nodes: not exact
           ELSE {Ev.rows[i].tau[p.j] : i \in Near(Ev.rows, Ev.z)}
Eval == /\ Ev.ev = "eval"
        /\ bad' = AddBadD(bad, l,
            IF Ev.out # "ok" THEN {"returned"}
            ELSE LET P == Ev.pts IN Fails({
              <<"one_value_per_energy", Ev.shape = Ev.eshape>>,
              <<"probability", \A i \in 1..Len(P) : P[i].t \in 0..1000000000>>,
              <<"transparent_at_low_energy_or_redshift", \A i \in 1..Len(P) :
                  (Ev.z < 100 \/ P[i].j = 0) => P[i].t = 1000000000>>,
              <<"tabulated_opacity", \A i \in 1..Len(P) : Want(P[i]) # {} =>
                  \E w \in Want(P[i]) : Abs(w - P[i].o) <= Tol(w)>>,
              <<"falls_with_energy", \A i, k \in 1..Len(P) :
                  Ev.ek[i] < Ev.ek[k] => P[k].t <= P[i].t + 2000>>}),
            Ev.z)
ZPair == /\ Ev.ev = "zpair"
         /\ bad' = AddBadD(bad, l, Fails({
              <<"falls_with_redshift", Ev.z1 < Ev.z2 =>
                 \A i \in 1..Len(Ev.t1) : Ev.t2[i] <= Ev.t1[i] + 500000>>,
              <<"one_value_per_energy", Len(Ev.t1) = Len(Ev.t2)>>}), <<Ev.z1, Ev.z2>>)
\* what may be constructed
Class(k) == CASE k \in {"good_float", "good_int", "good_quantity", "zero"} -> {"ok"}
              [] k \in {"negative", "array", "list", "unknown_model"} -> {"ValueError", "TypeError"}
              [] k \in {"wrong_unit"} -> {"TypeError"}
Make == /\ Ev.ev = "make"
        /\ bad' = AddBadD(bad, l, Fails({<<"redshift_and_model_validated",
                     Ev.out \in Class(Ev.k)>>}), Ev.k)
Next == l <= NTrace /\ l' = l + 1 /\ (Eval \/ ZPair \/ Make)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
