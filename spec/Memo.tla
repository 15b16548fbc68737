-------------------------------- MODULE Memo --------------------------------
(* Design model of result caching in the radiative models.                    *)
(* A request is determined by the current value of every field (model         *)
(* parameters, particle distribution identity and parameters, photon energies,*)
(* distance ...).  Computing returns that full assignment; the cache is a     *)
(* bounded FIFO keyed by the restriction of the assignment to KeyFields, as   *)
(* the code keys its cache by what it puts in the key.  The caller may        *)
(* scribble on what it was handed.                                            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Fields, KeyFields, Cap, CopyOut, Nobody
VARIABLES st, cache, last, handle
vars == <<st, cache, last, handle>>

Vals == {0, 1}
Key(s) == [f \in KeyFields |-> s[f]]
Idx(k) == {i \in 1..Len(cache) : cache[i].key = k}

Init == /\ st = [f \in Fields |-> 0]
        /\ cache = <<>>
        /\ last = [req |-> st, got |-> st, dirty |-> FALSE]
        /\ handle = Nobody

Set(f, v) == /\ st[f] # v
             /\ st' = [st EXCEPT ![f] = v]
             /\ UNCHANGED <<cache, last, handle>>

Hit == /\ Idx(Key(st)) # {}
       /\ LET i == CHOOSE i \in Idx(Key(st)) : TRUE
          IN last' = [req |-> st, got |-> cache[i].val, dirty |-> cache[i].dirty]
       /\ handle' = Key(st)
       /\ UNCHANGED <<st, cache>>

Miss == /\ Idx(Key(st)) = {}
        /\ cache' = Append(IF Len(cache) >= Cap THEN Tail(cache) ELSE cache,
                           [key |-> Key(st), val |-> st, dirty |-> FALSE])
        /\ last' = [req |-> st, got |-> st, dirty |-> FALSE]
        /\ handle' = Key(st)
        /\ UNCHANGED st

Scribble == /\ handle # Nobody
            /\ IF CopyOut THEN UNCHANGED cache
               ELSE cache' = [i \in 1..Len(cache) |->
                      IF cache[i].key = handle THEN [cache[i] EXCEPT !.dirty = TRUE]
                      ELSE cache[i]]
            /\ handle' = Nobody
            /\ UNCHANGED <<st, last>>

Next == (\E f \in Fields, v \in Vals : Set(f, v)) \/ Hit \/ Miss \/ Scribble
Spec == Init /\ [][Next]_vars

\* what the user relies on
Transparent == last.got = last.req /\ ~last.dirty
Bounded == Len(cache) <= Cap
UniqueKeys == \A i, j \in 1..Len(cache) : cache[i].key = cache[j].key => i = j
=============================================================================
