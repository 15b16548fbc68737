----------------------------- MODULE PlotDataMC -----------------------------
(* Drawing the same data repeatedly, other data in between, model checked: the  *)
(* data in memory, the options and what was drawn.                              *)
EXTENDS PlotData, TLC
CONSTANTS FV, LoV, L, Broken
VARIABLES data, orig, fig, res, n
vars == <<data, orig, fig, res, n>>
Row(f, lo, u) == [k |-> 0, f |-> f, lo |-> lo, hi |-> 1, el |-> 1, eh |-> 1, ul |-> u]
Rows == {Row(f, lo, u) : f \in FV, lo \in LoV, u \in BOOLEAN}
Init == /\ \E a, b \in Rows : data = <<<<a>>, <<a, b>>>>
        /\ orig = data /\ fig = <<>> /\ res = <<>> /\ n = 0
\* the mutant clips the errors where they are stored (as rows are views of the table)
Clip(q) == [i \in 1..Len(q) |-> IF ~q[i].ul /\ Clipped(q[i]) THEN [q[i] EXCEPT !.lo = q[i].f] ELSE q[i]]
Draw == /\ n < L /\ n' = n + 1
        /\ \E d \in 1..2 :
             /\ fig' = fig \o VBars(data[d], FALSE, 1)
             /\ data' = IF Broken THEN [data EXCEPT ![d] = Clip(@)] ELSE data
        /\ UNCHANGED <<orig, res>>
\* weights of the residuals
Residual == /\ n < L /\ n' = n + 1
            /\ \E d \in 1..2 : res' = Append(res, <<d, [i \in 1..Len(data[d]) |-> data[d][i].lo + data[d][i].hi]>>)
            /\ UNCHANGED <<data, orig, fig>>
Next == Draw \/ Residual
Spec == Init /\ [][Next]_vars
Kept == data = orig
ResidualsOfData == \A i \in 1..Len(res) : res[i][2] =
    [j \in 1..Len(orig[res[i][1]]) |-> orig[res[i][1]][j].lo + orig[res[i][1]][j].hi]
OnlyGrows == [][Len(fig') >= Len(fig) /\ SubSeq(fig', 1, Len(fig)) = fig]_vars
=============================================================================
