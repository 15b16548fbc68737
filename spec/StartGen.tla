------------------------------- MODULE StartGen -------------------------------
(* Label lists, start vectors and fits: design invariants and generation.      *)
EXTENDS StartPt, TLC, Json
CONSTANTS MaxP, Stems, Styles, Pres, Rs, Generate, MaxL
VARIABLES labs, given, n, r, guess, done
vars == <<labs, given, n, r, guess, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Init == /\ labs = <<>> /\ given = TRUE /\ n \in 1..MaxP /\ r \in Rs /\ guess \in BOOLEAN
        /\ done = FALSE
AddLabel == /\ ~done /\ Len(labs) < n /\ Len(labs) < MaxL
            /\ \E pre \in Pick(Pres), stem \in Pick(Stems), style \in Pick(Styles),
                  tail \in Pick({-1, -2}) :
                 labs' = Append(labs, [pre |-> pre, stem |-> stem, style |-> style,
                                       tail |-> tail])
            /\ UNCHANGED <<given, n, r, guess, done>>
NoLabels == ~done /\ labs = <<>> /\ given /\ given' = FALSE /\ done' = TRUE
            /\ UNCHANGED <<labs, n, r, guess>>
Stop == ~done /\ done' = TRUE /\ UNCHANGED <<labs, given, n, r, guess>>
Next == AddLabel \/ NoLabels \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson([labs |-> labs, given |-> given, n |-> n, r |-> r,
                                        guess |-> guess]))
P0 == [i \in 1..n |-> 8000000 * i]
C == Complete(labs, given, n)
G == Guess(C, P0, r, guess)
AllNamed == Len(C) >= n
KeepsGiven == given => \A i \in 1..Len(labs) : C[i] = labs[i]
OneAtMost == Cardinality({i \in 1..n : G[i] # P0[i]}) <= 1
OnlyWhenUnique == (G # P0) => /\ guess /\ Cardinality(Norms(C)) = 1
NoLabelsMeansNorm == ~given => Norms(C) = {1}
=============================================================================
