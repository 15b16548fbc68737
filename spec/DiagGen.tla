------------------------------- MODULE DiagGen --------------------------------
(* Runs, and histories of saving diagnostic plots of them under two names.      *)
EXTENDS Diag, Json
CONSTANTS L, Kinds1, KindsN
VARIABLES runs, files, hist, done
vars == <<runs, files, hist, done>>
One(S) == RandomElement(S)
R(S) == {RandomElement(S)}
Val(k) == IF k = "plain" THEN -4..9 ELSE 0..3
Gen(ns, nw, lab, nl) ==
  [ch |-> [s \in 1..ns |-> [w \in 1..nw |-> [p \in 1..Len(lab) |-> One(Val(lab[p]))]]],
   lp |-> [s \in 1..ns |-> [w \in 1..nw |-> One({-99, -5, -4, -3, -2, -1, 0, 3})]],
   lay |-> <<One(Kinds1)>> \o [i \in 1..nl |-> One(KindsN)], lab |-> lab]
Labs == {"plain", "plain", "log10", "log"}
Init == hist = <<>> /\ done = FALSE /\ files = {} /\ runs = <<>>
Make == /\ Len(runs) < 2 /\ ~done /\ UNCHANGED <<hist, files, done>>
        /\ \E ns \in R(3..5), nw \in R({6, 8}), nl \in R(0..3), n \in R(2..3), x \in R(1..1000) :
             runs' = Append(runs, Gen(ns, nw, [p \in 1..n |-> One({"plain", "log10", "log"})], nl))
Subset(n) == LET q == [i \in 1..n |-> i - 1] IN
  {SelectSeq(q, LAMBDA i : i \in s) : s \in SUBSET (0..(n - 1))}
   \cup {Reverse(SelectSeq(q, LAMBDA i : i \in s)) : s \in SUBSET (0..(n - 1))}
Words == {"A", "B c", "$x$", "Model output 7"}
Save == /\ Len(runs) = 2 /\ ~done /\ Len(hist) < L /\ UNCHANGED <<runs, done>>
        /\ \E r \in R(1..2), nm \in R({"a", "b", "a_b"}), pdf \in R({TRUE, FALSE, FALSE}), last \in R(BOOLEAN),
              all \in R(BOOLEAN), nl \in R(0..5), f \in R(1..6), sq \in R(1..3), dpi \in R({20, 30}),
              how \in R({"list", "tuple", "array", "iter"}), dup \in R({0, 0, 1, 2, 3}) :
           \E idx \in R(Subset(Len(runs[r].lay))) :
             LET n == Len(Asked(runs[r], [all |-> all, idx |-> idx]))
                 o == [r |-> r, name |-> nm, pdf |-> pdf, last |-> last, all |-> all, idx |-> idx,
                       labels |-> [i \in 1..nl |-> One(Words)], str |-> nl = 1 /\ n = 1 /\ f = 1,
                       sed |-> IF sq = 1 THEN <<>> ELSE [i \in 1..n |-> One(BOOLEAN)],
                       dpi |-> dpi, how |-> how, dup |-> dup] IN
             /\ hist' = Append(hist, o)
             /\ files' = files \cup {<<nm, pdf>>}
Stop == Len(hist) = L /\ ~done /\ done' = TRUE /\ UNCHANGED <<runs, files, hist>>
Next == Make \/ Save \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("B " \o ToJson([runs |-> runs, h |-> hist]))
\* one page per parameter, one corner, one per output asked for
Complete == \A i \in 1..Len(hist) :
  LET o == hist[i] r == runs[o.r] IN
  /\ Len(Pages(r, o)) = Len(r.lab) + 1 + Len(Asked(r, o))
  /\ Cardinality({k \in 1..Len(Pages(r, o)) : Pages(r, o)[k].kind = "corner"}) = 1
===============================================================================
