------------------------------- MODULE OwnGen -------------------------------
(* Generates histories of calls and of writes by the caller.                    *)
EXTENDS Own, TLC, Json, Integers
CONSTANTS L, Start, Heavy
VARIABLES kinds, hist, done, theme
vars == <<kinds, hist, done, theme>>
Pick(S) == {RandomElement(S)}
Has(a) == \A i \in 1..Len(a) : \E j \in 1..Len(kinds) : kinds[j] = a[i]
Slow == {"diag", "diag_bad"}
RadOps == {"pd", "table", "pd_eval", "syn", "ic", "brem", "pion", "kel", "flux", "content", "set", "flux_bad",
           "pd_bad", "We_bad", "ebl", "trans", "sher", "shcalc", "shguess", "trapz"}
FitOps == {Ops[n].op : n \in 1..Len(Ops)} \ RadOps
Have(k) == \E j \in 1..Len(kinds) : kinds[j] = k
\* what the history is about; it begins with the objects needed
Themed(o) == CASE theme = "all" -> TRUE
               [] theme = "rad" -> IF ~Have("dist") THEN o.r = "dist" ELSE IF ~Have("rad") THEN o.r = "rad" ELSE o.op \in RadOps
               [] theme = "fit" -> IF ~Have("smp") THEN o.r \in {"smp", "tab"} ELSE o.op \in FitOps
Enabled(now) == {n \in 1..Len(Ops) : Has(Ops[n].a) /\ Themed(Ops[n]) /\ (Ops[n].op \in Slow => RandomElement(1..Heavy) = 1)}
Obj(k) == RandomElement({j \in 1..Len(kinds) : kinds[j] = k})
Recent(k) == LET S == {j \in 1..Len(kinds) : kinds[j] = k} IN
             IF RandomElement(1..2) = 1 THEN CHOOSE j \in S : \A i \in S : i <= j ELSE Obj(k)
Init == theme \in {"all", "rad", "fit"} /\ kinds = Start /\ hist = <<>> /\ done = FALSE
\* a new call
Call == \E n \in Pick(Enabled(hist)), p \in Pick(0..3) :
          LET o == Ops[n] q == [i \in 1..Len(o.a) |-> Recent(o.a[i])] IN
          /\ hist' = Append(hist, [n |-> n, p |-> p, q |-> q])
          /\ kinds' = IF o.r = "" THEN kinds ELSE Append(kinds, o.r)
\* an earlier call once more
Again == /\ \E j \in 1..Len(hist) : hist[j].n # 0
         /\ \E j \in Pick({j \in 1..Len(hist) : hist[j].n # 0}) :
              LET o == Ops[hist[j].n] IN
              /\ hist' = Append(hist, hist[j])
              /\ kinds' = IF o.r = "" THEN kinds ELSE Append(kinds, o.r)
\* the caller writes into an object: the last result, or any
Write == \E x \in Pick({j \in 1..Len(kinds) : kinds[j] \in Writable}), y \in Pick(1..3) :
           LET z == IF y < 3 /\ kinds[Len(kinds)] \in Writable THEN Len(kinds) ELSE x IN
           /\ hist' = Append(hist, [n |-> 0, p |-> 0, q |-> <<z>>])
           /\ UNCHANGED kinds
\* the caller writes into the results of a call made once or twice and repeats it
Spoil == LET S == {n \in Enabled(hist) : Ops[n].r \in Writable} IN S # {} /\
         \E n \in Pick(S), p \in Pick(0..3), y \in Pick(1..2) :
          LET o == Ops[n] q == [i \in 1..Len(o.a) |-> Recent(o.a[i])]
              c == [n |-> n, p |-> p, q |-> q] w == [n |-> 0, p |-> 0, q |-> <<Len(kinds) + y>>]
          IN /\ hist' = hist \o (IF y = 1 THEN <<c, w, c>> ELSE <<c, c, w, c>>)
             /\ kinds' = kinds \o [i \in 1..(y + 1) |-> o.r]
Do == ~done /\ Len(hist) < L /\ UNCHANGED <<done, theme>>
      /\ \E w \in Pick(1..8) : IF w \in {7, 8} /\ (\E n \in Enabled(hist) : Ops[n].r \in Writable) THEN Spoil ELSE IF w = 1 /\ hist # <<>> THEN Write
                               ELSE IF w = 2 /\ (\E j \in 1..Len(hist) : hist[j].n # 0) THEN Again
                               ELSE Call
Stop == ~done /\ Len(hist) >= L /\ done' = TRUE /\ UNCHANGED <<kinds, hist, theme>>
Next == Do \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("B " \o ToJson(hist))
=============================================================================
