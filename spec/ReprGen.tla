------------------------------ MODULE ReprGen ------------------------------
(* All short sequences of conversions: design invariants and generation.      *)
EXTENDS Repr, TLC, Json
CONSTANTS L, Units, KSeqs
VARIABLES fam, form, x, ks, x0, form0, hist, done
vars == <<fam, form, x, ks, x0, form0, hist, done>>
Init == /\ \E un \in Units : fam = un[1] /\ form = un[2] /\ hist = <<[unit |-> un]>>
        /\ ks \in KSeqs /\ x = [i \in 1..Len(ks) |-> 3 * i - 4]
        /\ x0 = x /\ form0 = form /\ done = FALSE
Convert == /\ Len(hist) <= L /\ ~done
           /\ \E sed \in BOOLEAN :
              /\ hist' = Append(hist, [sed |-> sed])
              /\ IF fam = Other THEN UNCHANGED <<form, x>>
                 ELSE form' = FormOf(sed) /\ x' = Conv(x, ks, form, sed)
           /\ UNCHANGED <<fam, ks, x0, form0, done>>
Stop == /\ Len(hist) = L + 1 /\ ~done /\ done' = TRUE
        /\ UNCHANGED <<fam, form, x, ks, x0, form0, hist>>
Next == Convert \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson([h |-> hist, ks |-> ks, x |-> x0]))
\* the form determines the values: no conversion path loses anything
Lossless == form = form0 => x = x0
PathFree == form # form0 => x = Conv(x0, ks, form0, form = "sed")
=============================================================================
