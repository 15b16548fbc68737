----------------------------- MODULE PlotDataGen -----------------------------
(* Generates data tables and sequences of plots.                                *)
EXTENDS PlotData, TLC, Json
CONSTANTS L, F, NT
VARIABLES tabs, run, hist, done
vars == <<tabs, run, hist, done>>
Pick(S) == {RandomElement(S)}
One(S) == RandomElement(S)
Row(k) == LET f == One(F) IN
  [k |-> k, f |-> f, lo |-> One({1, 2, 5, 9, 20, 60}), hi |-> One({1, 3, 8, 20}), el |-> One(1..7),
   eh |-> One(1..7), ul |-> One(1..4) = 1 /\ f > 0]
\* a table: energies strictly increasing, or in any order
Perm(q) == IF One(1..3) = 1 THEN [i \in 1..Len(q) |-> q[Len(q) + 1 - i]] ELSE q
Tab(now) == LET m == One(1..4) s == One(0..2) IN
  [rows |-> Perm([i \in 1..m |-> Row(s + i - 1)]), sed |-> One(BOOLEAN), u |-> One(0..5)]
Gen(now) == [ch |-> <<[w \in 1..4 |-> [p \in 1..2 |-> One((-4)..9)]]>>, lp |-> <<[w \in 1..4 |-> One((-6)..0)]>>,
             lay |-> <<One({"arr", "arrsed"}), "pair">>, lab |-> <<"plain", "plain">>]
Init == \E i \in 1..300 : /\ tabs = [t \in 1..NT |-> Tab(<<i, t>>)] /\ run = Gen(i)
                          /\ hist = <<>> /\ done = FALSE
Call == /\ ~done /\ Len(hist) < L
        /\ \E op \in Pick({"data", "data", "data", "fit"}), fig \in Pick(1..2), sed \in Pick(BOOLEAN),
              how \in Pick({"table", "list", "list", "validated", "dict", "sampler"}),
              a \in Pick(1..NT), b \in Pick(1..NT), c \in Pick(0..NT), e \in Pick(0..3), o \in Pick(0..5),
              x \in Pick(BOOLEAN), y \in Pick(BOOLEAN), z \in Pick(BOOLEAN), i \in Pick(0..1) :
             hist' = Append(hist, [op |-> op, fig |-> fig, sed |-> sed, how |-> how,
                                   ts |-> IF how \in {"table", "dict"} THEN <<a>>
                                          ELSE IF c = 0 THEN <<a, b>> ELSE <<a, b, c>>,
                                   e |-> e, o |-> o, x |-> x, y |-> y, z |-> z, i |-> i])
        /\ UNCHANGED <<tabs, run, done>>
Stop == ~done /\ Len(hist) = L /\ done' = TRUE /\ UNCHANGED <<tabs, run, hist>>
Next == Call \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("B " \o ToJson([tabs |-> tabs, run |-> run, h |-> hist]))
=============================================================================
