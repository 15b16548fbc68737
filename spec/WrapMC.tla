------------------------------- MODULE WrapMC -------------------------------
(* Cached evaluation, model checked: the cache holds results for whole parameter *)
(* vectors and grids, the oldest is dropped when it is full.                     *)
EXTENDS Wrap, FiniteSets, TLC
CONSTANTS NP, V, Grids, Size, L, Broken
VARIABLES st, cache, out, n
vars == <<st, cache, out, n>>
\* a key of the cache; the mutant forgets the last parameter
Key(p, g) == IF Broken THEN <<SubSeq(p, 1, NP - 1), g>> ELSE <<p, g>>
Init == st = [k \in 1..NP |-> 0] /\ cache = <<>> /\ out = <<>> /\ n = 0
Set == /\ n < L /\ n' = n + 1 /\ \E k \in 1..NP, v \in V : st' = Put(st, k, v)
       /\ UNCHANGED <<cache, out>>
Hit(p, g) == {i \in 1..Len(cache) : cache[i][1] = Key(p, g)}
Eval(p, g) == /\ IF Hit(p, g) # {} THEN cache' = cache
                 ELSE cache' = Append(IF Len(cache) >= Size THEN Tail(cache) ELSE cache, <<Key(p, g), <<p, g>>>>)
              /\ out' = <<p, g, IF Hit(p, g) # {} THEN cache[CHOOSE i \in Hit(p, g) : TRUE][2] ELSE <<p, g>>>>
Own == n < L /\ n' = n + 1 /\ UNCHANGED st /\ \E g \in Grids : Eval(st, g)
Given == n < L /\ n' = n + 1 /\ UNCHANGED st /\ \E g \in Grids, p \in [1..NP -> V] : Eval(p, g)
Next == Set \/ Own \/ Given
Spec == Init /\ [][Next]_vars
Current == out # <<>> => out[3] = <<out[1], out[2]>>
Bounded == Len(cache) <= Size
=============================================================================
