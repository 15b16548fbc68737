------------------------------ MODULE LogLogMC ------------------------------
(* Piecewise power laws built node by node: design invariants and generation.  *)
EXTENDS LogLog, TLC, Json
CONSTANTS DK, B, N, V0, Lo, Hi, Generate
VARIABLES ks, vs, done
vars == <<ks, vs, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Init == /\ done = FALSE
        /\ ks = <<0>> /\ \E v \in Pick(V0) : vs = <<v>>
LastK == ks[Len(ks)]
LastV == vs[Len(vs)]
Fits(k, v) == v + k \in Lo..Hi /\ k \in -12..24
Seg == /\ Len(ks) < N /\ LastV # Z
       /\ \E d \in Pick(DK), b \in Pick(B) :
            /\ Fits(LastK + d, LastV + b * d)
            /\ ks' = Append(ks, LastK + d) /\ vs' = Append(vs, LastV + b * d)
       /\ UNCHANGED done
Zero == /\ Len(ks) < N /\ (Generate => RandomElement(1..4) = 1)
        /\ \E d \in Pick(DK) : ks' = Append(ks, LastK + d) /\ vs' = Append(vs, Z)
        /\ UNCHANGED done
Rise == /\ Len(ks) < N /\ LastV = Z
        /\ LET S == {p \in DK \X V0 : Fits(LastK + p[1], p[2])} IN
           \E p \in (IF S = {} THEN {} ELSE Pick(S)) :
             ks' = Append(ks, LastK + p[1]) /\ vs' = Append(vs, p[2])
        /\ UNCHANGED done
Stop == Len(ks) = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<ks, vs>>
Next == Seg \/ Zero \/ Rise \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson([ks |-> ks, vs |-> vs]))
\* the integral is non-negative and additive over any cut; a segment split at
\* an interior lattice node of the same power law has the same integral
NonNegative == Integral(ks, vs) >= 0
Additive == \A i \in 2..Len(ks) - 1 :
   Integral(SubSeq(ks, 1, i), SubSeq(vs, 1, i))
     + Integral(SubSeq(ks, i, Len(ks)), SubSeq(vs, i, Len(vs))) = Integral(ks, vs)
Close(x, y) == x - y \in -60..60
SplitSame == \A i \in 1..Len(ks) - 1 :
   LET k1 == ks[i] k2 == ks[i + 1] v1 == vs[i] v2 == vs[i + 1] IN
   (v1 # Z /\ v2 # Z /\ k2 - k1 > 1) =>
     LET b == (v2 - v1) \div (k2 - k1) IN
     Close(Interval(k1, v1, k1 + 1, v1 + b) + Interval(k1 + 1, v1 + b, k2, v2),
           Interval(k1, v1, k2, v2))
=============================================================================
