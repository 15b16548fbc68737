------------------------------- MODULE Sampler -------------------------------
(* Life cycle of a sampler: create (with burn-in), run, resume.               *)
(*   steps   stored steps               info  the run record                  *)
(*   start   the ensemble the stored steps started from, end the last one     *)
(*   pool    worker processes: "none", "open" or "closed" (and dropped)       *)
EXTENDS Naturals, Integers, Sequences
NoInfo == [n_run |-> -1, n_burn |-> -1, n_walkers |-> -1]
Fresh == [made |-> FALSE, steps |-> 0, start |-> 0, end |-> 0, info |-> NoInfo,
          pool |-> "none", next |-> 1]
\* ensembles are numbered in order of appearance
Created(nw, nb, th) ==
  [made |-> TRUE, steps |-> nb, start |-> 0, end |-> 1,
   info |-> [n_run |-> -1, n_burn |-> nb, n_walkers |-> nw],
   pool |-> IF th > 1 THEN "open" ELSE "none", next |-> 2]
Ran(s, n, from) ==
  [s EXCEPT !.steps = n, !.start = from, !.end = IF n = 0 THEN from ELSE s.next,
            !.info.n_run = n, !.pool = "none",
            !.next = IF n = 0 THEN @ ELSE @ + 1]
CanRun(s, from) == s.made /\ from \in 1..(s.next - 1)
=============================================================================
