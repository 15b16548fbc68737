-------------------------------- MODULE OwnMC --------------------------------
(* A library function with a cache between callers that write into what they    *)
(* own. Contents live in a heap; arguments and results are references.          *)
(* Share = "result": the cached result itself is returned; "argument": the      *)
(* argument is converted in place; "none": copies everywhere.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, V, Share
VARIABLES heap, mine, cache, ret, shadow
vars == <<heap, mine, cache, ret, shadow>>
F(x) == (3 * x + 1) % V
Init == /\ heap \in [1..1 -> 0..(V - 1)] /\ mine = {1} /\ cache = {} /\ ret = <<>> /\ shadow = heap
Call == /\ Len(heap) + 2 <= N
        /\ \E a \in mine :
           LET hit == {c \in cache : c[1] = heap[a]}
               h0 == IF Share = "argument" THEN [heap EXCEPT ![a] = F(@)] ELSE heap
           IN IF hit # {}
              THEN LET c == CHOOSE c \in hit : TRUE IN
                   IF Share = "result"
                   THEN /\ ret' = <<a, heap[a], c[2]>> /\ heap' = h0 /\ mine' = mine \union {c[2]} /\ UNCHANGED cache
                   ELSE /\ heap' = Append(h0, heap[c[2]]) /\ ret' = <<a, heap[a], Len(heap) + 1>>
                        /\ mine' = mine \union {Len(heap) + 1} /\ UNCHANGED cache
              ELSE LET r == Len(heap) + 1 IN
                   /\ heap' = h0 \o <<F(heap[a]), F(heap[a])>>
                   /\ cache' = cache \union {<<heap[a], IF Share = "result" THEN r ELSE r + 1>>}
                   /\ ret' = <<a, heap[a], r>> /\ mine' = mine \union {r}
        /\ UNCHANGED shadow
        /\ TRUE
Write == /\ \E o \in mine, v \in 0..(V - 1) : heap' = [heap EXCEPT ![o] = v] /\ shadow' = [i \in 1..Len(heap) |-> IF i = o THEN v ELSE heap[i]]
         /\ ret' = <<>> /\ UNCHANGED <<mine, cache>>
Next == Call \/ Write
Spec == Init /\ [][Next]_vars
Right == ret # <<>> => heap[ret[3]] = F(ret[2])
Kept == ret # <<>> => heap[ret[1]] = ret[2]
=============================================================================
