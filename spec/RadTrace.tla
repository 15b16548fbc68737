------------------------------ MODULE RadTrace ------------------------------
(* The meaning of a radiative model's results, and validation of recorded     *)
(* call histories against it.                                                 *)
(*                                                                            *)
(* Abstract state: per model its class, current parameter versions and the    *)
(* distribution it uses; per distribution its kind, current parameter         *)
(* versions and amplitude exponent (energy normalisations by powers of two).  *)
(* The result of an evaluation is the denotation of the current state: a      *)
(* value class recorded from a freshly built model ("fresh" events).          *)
EXTENDS TraceLib
VARIABLES l, bad, mod, dis, den
vars == <<l, bad, mod, dis, den>>

\* physical distance selected by each way of passing it
DistOf(code) == CASE code \in {"default", "kw1", "pos1", "kw1000pc"} -> 1
                  [] code \in {"kw2", "pos2", "kw2000pc"} -> 2
                  [] code \in {"kw0", "pos0", "kw0kpc"} -> 0

Term(m, op, e, dc, s) ==
  LET o == mod[m] d == dis[o.slot] IN
  <<o.cls, o.par, d.kind, d.par, d.exp, op, e,
    IF op \in {"flux", "sed"} THEN DistOf(dc) ELSE 0, s>>
\* energy contents do not depend on photon energies
TermE(op, e) == IF op \in {"flux", "sed"} THEN e ELSE 0

Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ mod = <<>> /\ dis = <<>> /\ den = <<>>
Step == l' = l + 1

Start == /\ Ev.ev = "start" /\ Step /\ UNCHANGED bad
         /\ mod' = Ev.models /\ dis' = Ev.dists /\ den' = [x \in {} |-> 0]
Set   == /\ Ev.ev = "set" /\ Step /\ UNCHANGED <<bad, dis, den>>
         /\ mod' = [mod EXCEPT ![Ev.m].par[Ev.p] = Ev.v]
SetD  == /\ Ev.ev = "setd" /\ Step /\ UNCHANGED <<bad, mod, den>>
         /\ dis' = [dis EXCEPT ![Ev.d].par[Ev.p] = Ev.v]
\* assigning the amplitude forgets earlier normalisations
SetAmp == /\ Ev.ev = "setamp" /\ Step /\ UNCHANGED <<bad, mod, den>>
          /\ dis' = [dis EXCEPT ![Ev.d].par[Ev.p] = Ev.v, ![Ev.d].exp = 0]
Swap  == /\ Ev.ev = "swap" /\ Step /\ UNCHANGED <<bad, dis, den>>
         /\ mod' = [mod EXCEPT ![Ev.m].slot = Ev.d]
Scale == /\ Ev.ev = "scale" /\ Step /\ UNCHANGED <<mod, den>>
         /\ dis' = [dis EXCEPT ![mod[Ev.m].slot].exp = @ + Ev.k]
         /\ bad' = AddBad(bad, l, Fails({<<"normalise_accepted", Ev.out = "ok">>}))
Scribble == /\ Ev.ev = "scribble" /\ Step /\ UNCHANGED <<bad, mod, dis, den>>
Fresh == /\ Ev.ev = "fresh" /\ Step /\ UNCHANGED <<bad, mod, dis>>
         /\ den' = (Ev.t :> Ev.c) @@ den
Eval  == /\ Ev.ev = "eval" /\ Step /\ UNCHANGED <<mod, dis, den>>
         /\ LET t == Term(Ev.m, Ev.op, TermE(Ev.op, Ev.e), Ev.d, Ev.s) IN
            bad' = AddBadD(bad, l,
                     IF t \notin DOMAIN den THEN {"no_reference"}
                     ELSE Fails({<<"returned", Ev.out = "ok">>,
                                 <<"equals_fresh_model", Ev.out = "ok" => Ev.c = den[t]>>}),
                     t)
Next == l <= NTrace /\ (Start \/ Set \/ SetD \/ SetAmp \/ Swap \/ Scale
                        \/ Scribble \/ Fresh \/ Eval)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
