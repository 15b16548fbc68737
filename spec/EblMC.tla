------------------------------- MODULE EblMC -------------------------------
(* Design check: for every small non-decreasing opacity table the lookup is    *)
(* monotone in energy and redshift and transparent below the thresholds.       *)
EXTENDS Ebl, TLC
CONSTANTS Zs, MaxTau
VARIABLES tab, z, j
vars == <<tab, z, j>>
Tabs == {t \in [Cols -> [1..NE -> 0..MaxTau]] :
           /\ \A c \in Cols : \A i \in 1..NE-1 : t[c][i] <= t[c][i + 1]
           /\ \A c, d \in Cols : c < d => \A i \in 1..NE : t[c][i] <= t[d][i]}
Init == tab \in Tabs /\ z = 0 /\ j = 0
MoveZ == \E y \in Zs : y > z /\ z' = y /\ UNCHANGED <<tab, j>>
MoveE == j <= NE /\ j' = j + 1 /\ UNCHANGED <<tab, z>>
Next == MoveZ \/ MoveE
Spec == Init /\ [][Next]_vars
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
MonotoneE == j <= NE => Max(Tau(tab, z, j)) <= Min(Tau(tab, z, j + 1)) \/
               Cardinality(Nearest(Cols, z)) > 1
MonotoneZ == \A y \in Zs : y > z => Min(Tau(tab, z, j)) <= Max(Tau(tab, y, j))
Transparent == (z < 100 \/ j = 0) => Tau(tab, z, j) = {0}
=============================================================================
