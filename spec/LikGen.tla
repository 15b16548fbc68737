------------------------------- MODULE LikGen -------------------------------
(* Point sets: design invariants of the likelihood, and generation.           *)
EXTENDS Lik, TLC, Json
CONSTANTS MaxN, MinN, Ds, Errs, Cs, Generate
VARIABLES ps, done
vars == <<ps, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Init == ps = <<>> /\ done = FALSE
Add == /\ Len(ps) < MaxN /\ ~done
       /\ \E d \in Pick(Ds), lo \in Pick(Errs), hi \in Pick(Errs), c \in Pick(Cs) :
            \/ ps' = Append(ps, [d |-> d, lo |-> lo, hi |-> hi, ul |-> FALSE, cl |-> c])
            \/ d # 0     \* exactly at a limit: decided by rounding
               /\ ps' = Append(ps, [d |-> d, lo |-> 1, hi |-> 1, ul |-> TRUE, cl |-> c])
       /\ UNCHANGED done
Stop == /\ Len(ps) >= MinN /\ ~done /\ done' = TRUE /\ UNCHANGED ps
Next == Add \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson([ps |-> ps]))
\* design
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NonPositive == LnL(ps) <= 0
OrderFree == LnL(Rev(ps)) = LnL(ps)
Additive == \A i \in 0..Len(ps) :
   LnL(ps) = LnL(SubSeq(ps, 1, i)) + LnL(SubSeq(ps, i + 1, Len(ps)))
PerfectIsZero == (\A i \in 1..Len(ps) : IF ps[i].ul THEN ps[i].d <= 0 ELSE ps[i].d = 0)
                  => LnL(ps) = 0
\* moving the model away from a point never helps
Monotone == \A i \in 1..Len(ps) : \A s \in {-1, 1} :
   LET q == [ps EXCEPT ![i].d = @ + s] IN
   (ps[i].d * s >= 0) => LnL(q) <= LnL(ps)
\* the side of the error is that of the model
Sided == \A i \in 1..Len(ps) : LET p == ps[i] IN
   /\ p.d < 0 => LnL([ps EXCEPT ![i].hi = 4]) = LnL(ps)
   /\ p.d > 0 => LnL([ps EXCEPT ![i].lo = 4]) = LnL(ps)
=============================================================================
