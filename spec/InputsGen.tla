------------------------------ MODULE InputsGen ------------------------------
(* Objects (electron and proton models) and the calls made on them: a call     *)
(* checks all its arguments before it has any effect.                          *)
EXTENDS Inputs, TLC, Json
CONSTANTS L, Generate, EarlyEffect, NU
VARIABLES w, hist, done, seen
vars == <<w, hist, done, seen>>
Pick(X) == IF Generate THEN {RandomElement(X)} ELSE X
Few == IF Generate THEN Inputs ELSE {[form |-> "q", type |-> t, neg |-> FALSE] : t \in {"energy", "length"}}
                                   \union {[form |-> f, type |-> "-", neg |-> FALSE] : f \in {"bare", "none"}}
NoNeg == {i \in Few : ~i.neg}
\* biased towards acceptable inputs
Good(s) == {i \in NoNeg : Outcome(s, i) = "ok"}
In(s) == IF Generate THEN (IF RandomElement(1..3) < 3 THEN Good(s) ELSE NoNeg) ELSE NoNeg
Ops == {"set", "compute", "flux", "sed", "call"}
ArgSites(k, op) ==
  CASE op = "set" -> IF k = "PP" THEN <<"SET_Wp", "WP_lo", "WP_hi">> ELSE <<"SET_We", "WE_lo", "WE_hi">>
    [] op = "compute" -> IF k = "PP" THEN <<"WP_lo", "WP_hi">> ELSE <<"WE_lo", "WE_hi">>
    [] op \in {"flux", "sed"} -> (CASE k = "SYN" -> <<"SYN_E", "SYN_d">> [] k = "IC" -> <<"IC_E", "IC_d">>
            [] k = "ICseed" -> <<"ICseed_E", "ICseed_d">> [] k = "BREM" -> <<"BREM_E", "BREM_d">>
            [] k = "PP" -> <<"PP_E", "PP_d">>)
    [] op = "call" -> <<"PL_call">>
Kinds == IF Generate THEN {"SYN", "IC", "ICseed", "BREM", "PP"} ELSE {"SYN", "PP"}
\* single inputs at every site
Init == /\ w = [k \in Kinds |-> <<>>] /\ hist = <<>> /\ done = FALSE /\ seen = {}
Call == /\ ~done /\ Len(hist) < L
        /\ \E k \in Pick(Kinds), op \in Pick(Ops) :
           LET ss == ArgSites(k, op) IN
           \E a \in Pick(In(ss[1])), b \in Pick(IF Len(ss) > 1 THEN In(ss[2]) ELSE {[form |-> "none", type |-> "-", neg |-> FALSE]}),
              c \in Pick(IF Len(ss) > 2 THEN In(ss[3]) ELSE {[form |-> "none", type |-> "-", neg |-> FALSE]}) :
           LET args == SubSeq(<<a, b, c>>, 1, Len(ss))
               os == {Outcome(ss[i], args[i]) : i \in 1..Len(ss)}
               ok == os = {"ok"}
               early == EarlyEffect /\ Outcome(ss[1], a) = "ok"
           IN \E us \in Pick([1..3 -> 1..NU]) :
              /\ w' = IF op = "set" /\ (ok \/ early) THEN [w EXCEPT ![k] = args] ELSE w
              /\ seen' = os
              /\ hist' = Append(hist, [k |-> k, op |-> op, args |-> [i \in 1..Len(ss) |->
                           [form |-> args[i].form, type |-> args[i].type, neg |-> args[i].neg, un |-> us[i]]], sites |-> ss])
        /\ UNCHANGED done
Stop == /\ ~done /\ Len(hist) > 0 /\ (Generate => Len(hist) = L)
        /\ done' = TRUE /\ UNCHANGED <<w, hist, seen>>
Next == Call \/ Stop
Spec == Init /\ [][Next]_vars
\* an object only ever holds settings all of which are acceptable
OnlyAccepted == \A k \in Kinds : w[k] # <<>> =>
   \A i \in 1..Len(w[k]) : Outcome(ArgSites(k, "set")[i], w[k][i]) = "ok"
\* a refused call changes nothing
RefusedUnchanged == [][(Len(hist') > Len(hist) /\ seen' # {"ok"}) => w' = w]_vars
Emit == done => PrintT("B " \o ToJson(hist))
\* every site accepts something and refuses something else, and no input is
\* accepted at a site of a different type
ASSUME Discriminates == \A s \in Sites : /\ \E i \in Inputs : Outcome(s, i) = "ok"
                                         /\ \E i \in Inputs : Outcome(s, i) = "TypeError"
ASSUME TypeBeforeSign == \A s \in Sites : \A i \in Inputs :
   (Outcome(s, i) # "free" /\ i.form = "q" /\ i.type \notin SiteTable[s].types) => Outcome(s, i) = "TypeError"
=============================================================================
