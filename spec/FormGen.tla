------------------------------- MODULE FormGen -------------------------------
EXTENDS Form, TLC, Json
CONSTANTS NE, MaxQ, Units, Objs, L, Generate
VARIABLES q, hist, done
vars == <<q, hist, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Init == q = <<>> /\ hist = <<>> /\ done = FALSE
Extend == ~done /\ Len(q) < MaxQ /\ \E i \in Pick(1..NE) :
            q' = Append(q, i) /\ UNCHANGED <<hist, done>>
Ask == /\ ~done /\ Len(hist) < L /\ q # <<>>
       /\ \E form \in Pick(Forms), un \in Pick(Units), o \in Pick(Objs) :
            /\ hist' = Append(hist, [q |-> IF form = "scalar" THEN <<q[1]>> ELSE q,
                                     form |-> form, unit |-> un, o |-> o])
            /\ q' = <<>> /\ UNCHANGED done
AskGood == /\ ~done /\ Len(hist) < L /\ q # <<>>
           /\ \E form \in Pick(Good), un \in Pick(Units), o \in Pick(Objs) :
            /\ hist' = Append(hist, [q |-> IF form = "scalar" THEN <<q[1]>> ELSE q,
                                     form |-> form, unit |-> un, o |-> o])
            /\ q' = <<>> /\ UNCHANGED done
Stop == /\ ~done /\ hist # <<>> /\ (Generate => Len(hist) = L) /\ done' = TRUE
        /\ UNCHANGED <<q, hist>>
Next == Extend \/ Ask \/ AskGood \/ Stop
Spec == Init /\ [][Next]_vars
\* permuting a request permutes its answer; scalars are the only scalar answers
Last == hist[Len(hist)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
F(i) == 100 + i
PermutationCommutes == hist # <<>> => Answer(F, Rev(Last.q)) = Rev(Answer(F, Last.q))
ScalarsOnly == hist # <<>> => (Shape(Last.form, Last.q) = Scalar <=> Last.form = "scalar")
Emit == done => PrintT("B " \o ToJson(hist))
=============================================================================
