-------------------------------- MODULE Seeds --------------------------------
(* An inverse Compton source with several seed photon fields.                 *)
(* order: the fields in their order of definition (names 1..NF); ver[f]: the  *)
(* version of field f's parameters; pd: the version of the particles.         *)
(* The contribution of field f is the denotation <<f, ver[f], pd>>; the total *)
(* is the bag of all contributions.  A seed is selected by number (from 0) or *)
(* by name.                                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
None == [by |-> "none", n |-> 0]
Valid(order, sel) ==
  CASE sel.by = "none" -> TRUE
    [] sel.by = "name" -> \E i \in 1..Len(order) : order[i] = sel.n
    [] sel.by = "number" -> sel.n \in 0..Len(order)-1
    [] OTHER -> FALSE
Field(order, sel) == IF sel.by = "name" THEN sel.n ELSE order[sel.n + 1]
Contribution(st, f) == <<f, st.ver[f], st.pd>>
Parts(st, sel) == IF sel.by = "none" THEN {Contribution(st, st.order[i]) : i \in 1..Len(st.order)}
                  ELSE {Contribution(st, Field(st.order, sel))}
=============================================================================
