------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded executions and reporting total verdicts.                 *)
(*   Trace   the recorded events, one JSON record per line                   *)
(*   Fails(S) turns a set of <<clause, holds>> pairs into the names of the    *)
(*            clauses that do not hold                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)

OFF  == -777777777     \* "not on the lattice": never equal to a spec value
NANV == -777777776
INFV == 777777777
NINFV == -777777775

Has(r, f) == f \in DOMAIN r

Fails(S) == {p[1] : p \in {q \in S : ~q[2]}}

AddBad(bad, i, cs) ==
  IF cs = {} \/ Len(bad) > 40 THEN bad
  ELSE bad \o SetToSeq({[i |-> i, c |-> c] : c \in cs})
AddBadD(bad, i, cs, d) ==
  IF cs = {} \/ Len(bad) > 40 THEN bad
  ELSE bad \o SetToSeq({[i |-> i, c |-> c, d |-> d] : c \in cs})

Verdict(l, bad) ==
  \/ l <= NTrace
  \/ PrintT("VERDICT " \o ToJson([n |-> l - 1, bad |-> bad]))
=============================================================================
