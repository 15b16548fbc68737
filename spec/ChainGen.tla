------------------------------ MODULE ChainGen ------------------------------
(* Runs and sequences of analyses of them: generation, and design invariants    *)
(* of scanning for the best sample, percentiles and bands.                      *)
EXTENDS Chain, TLC, Json
CONSTANTS NRuns, MaxSteps, Ws, NP, NPs, V, LogV, LPs, Kinds1, KindsN, MaxLay, Labs, Ops, L, Generate
VARIABLES runs, hist, done, best
vars == <<runs, hist, done, best>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
One(S) == RandomElement(S)
\* values: those with a logarithmic label are exponents
Val(k) == IF k = "plain" THEN V ELSE LogV
Gen(ns, nw, lab, nl) ==
  [ch |-> [s \in 1..ns |-> [w \in 1..nw |-> [p \in 1..Len(lab) |-> One(Val(lab[p]))]]],
   lp |-> [s \in 1..ns |-> [w \in 1..nw |-> One(LPs)]],
   lay |-> <<One(Kinds1)>> \o [i \in 1..nl |-> One(KindsN)], lab |-> lab]
\* (the argument keeps TLC from evaluating the random choices once and for all)
Runs1(now) == IF Generate
  THEN {Gen(ns, nw, lab, nl) : ns \in Pick(1..MaxSteps), nw \in Pick(Ws),
                               lab \in {[p \in 1..One(NPs) |-> One(Labs)]}, nl \in Pick(0..(MaxLay - 1))}
  ELSE {[ch |-> c, lp |-> q, lay |-> <<"arr">>, lab |-> [p \in 1..NP |-> "plain"]] :
         c \in [1..MaxSteps -> [1..CHOOSE w \in Ws : TRUE -> [1..NP -> V]]],
         q \in [1..MaxSteps -> [1..CHOOSE w \in Ws : TRUE -> LPs]]}
Init == /\ runs = <<>> /\ hist = <<>> /\ done = FALSE /\ best = <<>>
Make == /\ ~done /\ Len(runs) < NRuns
        /\ \E r \in Runs1(runs) : runs' = Append(runs, r)
        /\ UNCHANGED <<hist, done>>
        /\ best' = <<>>
Ready == ~done /\ Len(runs) = NRuns
\* scanning run 1 sample by sample, keeping the best
Scan == /\ Ready /\ ~Generate
        /\ LET r == runs[1] n == IF best = <<>> THEN 0 ELSE best.n IN
           /\ n < NUsed(r, FALSE)
           /\ LET s == <<(n \div Len(r.ch[1])) + 1, (n % Len(r.ch[1])) + 1>> x == r.lp[s[1]][s[2]] IN
              best' = IF n = 0 \/ x > best.lp THEN [n |-> n + 1, s |-> s, lp |-> x]
                      ELSE [best EXCEPT !.n = n + 1]
        /\ UNCHANGED <<runs, hist, done>>
Nm == {"a", "b", "c"}
Confs == {<<10>>, <<30, 10>>, <<10, 30>>, <<5, 10, 30>>, <<20, 5>>, <<10, 20, 30, 15>>, <<30>>}
Call == /\ Ready /\ Generate /\ Len(hist) < L
        /\ \E op \in Pick(Ops), r \in Pick(1..NRuns), i \in Pick(0..Len(runs[1].lay) - 1),
              last \in Pick(BOOLEAN), x \in Pick(BOOLEAN), y \in Pick(BOOLEAN), z \in Pick(BOOLEAN),
              f \in Pick(Nm), c \in Pick(Confs), n \in Pick(1..40) :
           LET j == i % Len(runs[r].lay) IN
           hist' = Append(hist, [op |-> op, r |-> r, i |-> j, last |-> last, x |-> x, y |-> y,
                                 z |-> z, f |-> f, c |-> c, n |-> n])
        /\ UNCHANGED <<runs, done, best>>
Stop == /\ ~done /\ Ready /\ Generate /\ Len(hist) = L /\ done' = TRUE
        /\ UNCHANGED <<runs, hist, best>>
Next == Make \/ Scan \/ Call \/ Stop
Spec == Init /\ [][Next]_vars
ScanFindsBest == (best # <<>> /\ best.n = NUsed(runs[1], FALSE)) =>
    /\ best.s \in Best(runs[1]) /\ best.lp = runs[1].lp[best.s[1]][best.s[2]]
Whole == best # <<>> /\ best.n = NUsed(runs[1], FALSE)
Qs(p, last) == LET q == Flat(runs[1], last) IN [i \in 1..Len(q) |-> q[i][p]]
\* percentiles are ordered, within the range of the samples, and do not depend on
\* the order of the samples
Percentiles == Whole => \A p \in 1..NP : \A last \in BOOLEAN :
   LET q == Qs(p, last) s == Asc(q) row == Row(q) IN
     /\ Len(q) = NUsed(runs[1], last)
     /\ row[2] >= 0 /\ row[3] >= 0
     /\ 100 * s[1] <= row[1] - row[2] /\ row[1] + row[3] <= 100 * s[Len(s)]
     /\ Row(Reverse(q)) = row
     /\ \A k \in {16, 50, 84} : Cardinality({i \in 1..Len(q) : 100 * q[i] <= Pct(s, k)}) * 100 >= k * (Len(q) - 1)
\* bands of higher confidence contain those of lower confidence
Nested == Whole => \A p \in 1..NP : \A c, d \in {5, 10, 20, 30} : c < d =>
   LET q == Qs(p, FALSE) IN
     /\ BandLo(q, d) <= BandLo(q, c) /\ BandLo(q, c) <= BandHi(q, c) /\ BandHi(q, c) <= BandHi(q, d)
Emit == done => PrintT("B " \o ToJson([runs |-> runs, h |-> hist]))
=============================================================================
