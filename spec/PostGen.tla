------------------------------ MODULE PostGen ------------------------------
(* Histories of posterior evaluations with composite priors.                  *)
EXTENDS Post, TLC, Json
CONSTANTS L, NP, Generate, Forms, KS, AS
VARIABLES hist, done
vars == <<hist, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Kinds == {"uniform", "normal", "loguniform", "loguniform1", "loguniform0"}
P(s, k) == [s |-> s, k |-> IF s = 0 THEN 0 ELSE k]
T(kind, i, a, w, bk) == [kind |-> kind, i |-> i, a |-> a, b |-> a + w, bk |-> bk]
Init == hist = <<>> /\ done = FALSE
Eval(ps, ts, f) == hist' = Append(hist, [ps |-> ps, ts |-> ts, f |-> f]) /\ UNCHANGED done
\* one term, one parameter: exhaustive
One == /\ Len(hist) < L /\ ~done
       /\ \E s \in Pick({-1, 0, 1}), k \in Pick(KS), kind \in Pick(Kinds),
             a \in Pick(AS), w \in Pick({0, 2, 3}), bk \in Pick({0, 1}), f \in Pick(Forms) :
            Eval([i \in 1..NP |-> IF i = 1 THEN P(s, k) ELSE P(1, 1)],
                 <<T(kind, 1, a, w, bk)>>, f)
Many == /\ Len(hist) < L /\ ~done /\ Generate
        /\ \E n \in Pick(0..4), f \in Pick(Forms), z \in Pick(0..2) :
           Eval([i \in 1..NP |-> P(RandomElement({-1, 1, 1, 1, 0}), RandomElement(KS))],
                [j \in 1..n |-> T(RandomElement(Kinds), RandomElement(1..NP),
                    RandomElement(AS \cup {-40, -20}), RandomElement({60, 3, 0, 60 + z}),
                    RandomElement({0, 1}))], f)
Stop == /\ Len(hist) = L /\ ~done /\ done' = TRUE /\ UNCHANGED hist
Next == One \/ Many \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson(hist))
\* design: a prior term is a density with the mode where it belongs
ModeAtMean == \A i \in 1..Len(hist) : \A t \in {hist[i].ts[j] : j \in 1..Len(hist[i].ts)} :
   t.kind = "normal" => Rel(t, hist[i].ps[t.i]) <= 0
BoundsInclusive == \A i \in 1..Len(hist) : \A t \in {hist[i].ts[j] : j \in 1..Len(hist[i].ts)} :
   (t.kind \in {"uniform", "loguniform"} /\ t.a > 0 /\ Val(hist[i].ps[t.i]) \in {4 * t.a, 4 * t.b})
       => Inside(t, hist[i].ps[t.i])
=============================================================================
