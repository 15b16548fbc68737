------------------------------- MODULE SeedsGen -------------------------------
(* Histories of changing fields and particles and evaluating seeds.           *)
(* kept: what an implementation that keeps the contributions of its last      *)
(* total evaluation would hold (Stale: it serves seeds from there).           *)
EXTENDS Seeds, TLC, Json
CONSTANTS NF, NV, L, Ops, Dists, NE, NForm, Stale, Generate, Orders
VARIABLES st, kept, last, hist, done
vars == <<st, kept, last, hist, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Init == /\ st \in {[order |-> o, ver |-> [f \in 1..NF |-> 1], pd |-> 1] : o \in Orders}
        /\ kept = <<>> /\ last = {} /\ hist = <<[a |-> "new", order |-> st.order]>>
        /\ done = FALSE
Go == ~done /\ Len(hist) <= L
Log(r) == hist' = (IF Generate THEN Append(hist, r) ELSE Append(hist, [a |-> r.a]))
          /\ UNCHANGED done
SetField == Go /\ \E f \in Pick(1..NF), v \in Pick(1..NV) :
              /\ st' = [st EXCEPT !.ver[f] = v] /\ UNCHANGED <<kept, last>>
              /\ Log([a |-> "field", f |-> f, v |-> v])
SetPd == Go /\ \E v \in Pick(1..NV) :
              /\ st' = [st EXCEPT !.pd = v] /\ UNCHANGED <<kept, last>>
              /\ Log([a |-> "pd", v |-> v])
Reorder == Go /\ \E o \in Pick(Orders) :
              /\ st' = [st EXCEPT !.order = o] /\ UNCHANGED <<kept, last>>
              /\ Log([a |-> "order", order |-> o])
Sels == {None} \cup [by : {"name"}, n : 1..NF + 1] \cup [by : {"number"}, n : -1..NF]
Eval == Go /\ \E sel \in Pick(Sels), op \in Pick(Ops), d \in Pick(Dists), e \in Pick(1..NE),
                 f \in Pick(1..NForm) :
          /\ kept' = IF sel.by = "none"
                     THEN [i \in 1..Len(st.order) |-> Contribution(st, st.order[i])] ELSE kept
          /\ last' = IF ~Valid(st.order, sel) THEN {}
                     ELSE IF sel.by # "none" /\ Stale /\ kept # <<>>
                     THEN LET i == CHOOSE i \in 1..Len(st.order) :
                                     st.order[i] = Field(st.order, sel) IN
                          IF i \in DOMAIN kept THEN {kept[i]} ELSE {}
                     ELSE Parts(st, sel)
          /\ UNCHANGED st
          /\ Log([a |-> "eval", sel |-> sel, op |-> op, d |-> d, e |-> e, f |-> f])
Stop == /\ ~done /\ Len(hist) > 1 /\ (Generate => Len(hist) > L)
        /\ done' = TRUE /\ UNCHANGED <<st, kept, last, hist>>
Next == SetField \/ SetPd \/ Reorder \/ Eval \/ Stop
Spec == Init /\ [][Next]_vars
\* whatever was computed before, what is returned is of the current state
Current == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].a = "eval") =>
   last' \subseteq {Contribution(st, st.order[i]) : i \in 1..Len(st.order)}]_vars
NameAndNumberAgree == \A i \in 1..Len(st.order) :
   Parts(st, [by |-> "number", n |-> i - 1]) = Parts(st, [by |-> "name", n |-> st.order[i]])
AddUp == Parts(st, None) = UNION {Parts(st, [by |-> "number", n |-> i - 1]) : i \in 1..Len(st.order)}
Emit == done => PrintT("B " \o ToJson(hist))
=============================================================================
