---------------------------- MODULE PlotDataTrace ----------------------------
(* Recorded contents of real figures against PlotData (and Chain for models).   *)
EXTENDS TraceLib, PlotData
CH == INSTANCE Chain
VARIABLES l, bad, tabs, run, sd, figs, cols
\* sd: tables of the sampler; figs: what the figures hold; cols: colours of groups
vars == <<l, bad, tabs, run, sd, figs, cols>>
Ev == Trace[l]
Empty == [sed |-> FALSE, h |-> <<>>, v |-> <<>>, m |-> <<>>]
Init == l = 1 /\ bad = <<>> /\ tabs = <<>> /\ run = <<>> /\ sd = <<>> /\ figs = <<Empty, Empty>> /\ cols = <<>>
Step == l' = l + 1
Start == /\ Ev.ev = "start" /\ Step /\ tabs' = Ev.tabs /\ run' = Ev.run /\ sd' = Ev.sd
         /\ figs' = <<Empty, Empty>> /\ cols' = [g \in 1..9 |-> 0] /\ UNCHANGED bad
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE tabs[Head(q)].rows \o Cat(Tail(q))
GroupOf(q, i) == CHOOSE g \in 1..Len(q) : LET n == Len(Cat(SubSeq(q, 1, g))) IN
                    i <= n /\ (g = 1 \/ i > Len(Cat(SubSeq(q, 1, g - 1))))
Ts == IF Ev.how = "sampler" THEN sd ELSE Ev.ts
Rows == Cat(Ts)
Fig0 == IF Ev.fresh THEN [Empty EXCEPT !.sed = Ev.sed] ELSE figs[Ev.fig]
Added(f) == [f EXCEPT !.h = @ \o HBars(Rows, Ev.sed), !.v = @ \o VBars(Rows, Ev.sed, Ev.hgt),
                      !.m = @ \o Marks(Rows, Ev.sed)]
\* colours seen at the point of row i, if no other point is there
At(i) == Mark(Rows[i], Ev.sed)
Only(i, f) == Count([j \in 1..Len(f.h) |-> <<f.h[j][1], f.h[j][2]>>], At(i)) = 1
ColsAt(i) == {Ev.cols[j][3] : j \in {j \in 1..Len(Ev.cols) : <<Ev.cols[j][1], Ev.cols[j][2]>> = At(i)}}
Judged(f) == {i \in 1..Len(Rows) : Only(i, f)}
Colours(f) == Ev.plain =>
  /\ \A i \in Judged(f) : Cardinality(ColsAt(i)) = 1
  /\ \A i, j \in Judged(f) : (GroupOf(Ts, i) = GroupOf(Ts, j)) <=> (ColsAt(i) = ColsAt(j))
  /\ \A i \in Judged(f) : LET c == cols[GroupOf(Ts, i)] IN c # 0 => ColsAt(i) = {c}
NewCols(f) == [g \in 1..9 |-> IF cols[g] # 0 \/ ~Ev.plain THEN cols[g]
                 ELSE LET S == {i \in Judged(f) : GroupOf(Ts, i) = g} IN
                      IF S = {} THEN 0 ELSE CHOOSE c \in ColsAt(CHOOSE i \in S : TRUE) : TRUE]
Shown(f) == {<<"horizontal_bars", SameBag(Ev.h, f.h)>>, <<"vertical_bars", SameBag(Ev.v, f.v)>>,
             <<"points", SameBag(Ev.m, f.m)>>, <<"colours_of_groups", Colours(f)>>,
             <<"limits_have_arrows", Ev.arrows>>}
Data == /\ Ev.ev = "data" /\ Step /\ UNCHANGED <<tabs, run, sd>>
        /\ LET f == Added(Fig0) ok == Ev.out = "ok" IN
           /\ figs' = [figs EXCEPT ![Ev.fig] = f]
           /\ cols' = IF ok /\ Colours(f) THEN NewCols(f) ELSE cols
           /\ bad' = AddBadD(bad, l, Fails({<<"returned", ok>>, <<"data_untouched", Ev.kept>>} \union
                       (IF ok THEN Shown(f) ELSE {})), Ev.detail)
\* plot_fit: data (if shown) and residuals of the best model
M(s, k) == LET kind == run.lay[Ev.i + 1] v == CH!At(run, s) IN
           IF kind = "pair" THEN 200 + (((k + 1) \div 3) + 1) * v[1] - v[2] ELSE CH!ArrAt(v, k)
\* energies where the model is known without interpolation
Exact(k) == run.lay[Ev.i + 1] # "pair" \/ k \in {-1, 2, 5}
\* elsewhere it is between the values at the neighbouring energies (f: flux, x: the
\* residual, t: sum of the errors; values are 100 times those of the plot, the SED 400)
NodeV(s, j) == LET v == CH!At(run, s) IN
               100 * (200 + j * v[1] - v[2]) * (IF Ev.sed THEN 4^(3 * (j - 1)) ELSE 1)
Between(s, k, f, x, t) ==
  LET j == ((k + 1) \div 3) + 1 a == NodeV(s, j) b == NodeV(s, j + 1)
      w == IF Ev.sed THEN 4^(k + 1) ELSE 1
      m == (100 * f - ((x * t) \div 200)) * w
  IN IF a = b THEN m >= a - 2 * w /\ m <= a + 2 * w
     ELSE /\ m >= (IF a < b THEN a ELSE b) + 2 * w /\ m <= (IF a < b THEN b ELSE a) - 2 * w
D == Det(Rows)
Abs1(x) == IF x < 0 THEN -x ELSE x
Residuals(s) ==
  /\ Len(Ev.res) = Len(D)
  /\ \A i \in 1..Len(D) : LET S == {j \in 1..Len(Ev.res) : Ev.res[j][1] = D[i].k} IN
       /\ S # {}
       /\ \E j \in S : /\ Ev.res[j][2] > -900000000 /\ Ev.res[j][2] < 900000000
            /\ LET t == D[i].lo + D[i].hi x == Ev.res[j][2] IN
               \* (res 10000 times; sums of errors are below 128)
               /\ Abs1(x \div 10000) * t < 200000 
               /\ (IF Exact(D[i].k) THEN Abs1(x * t - 20000 * (D[i].f - M(s, D[i].k))) <= t
                   ELSE Between(s, D[i].k, D[i].f, x, t))
            /\ Ev.res[j][3] = X(D[i]) - D[i].el /\ Ev.res[j][4] = X(D[i]) + D[i].eh
Fit == /\ Ev.ev = "fit" /\ Step /\ UNCHANGED <<tabs, run, sd, figs>>
       /\ LET f == IF Ev.shown THEN Added([Empty EXCEPT !.sed = Ev.sed]) ELSE [Empty EXCEPT !.sed = Ev.sed]
              ok == Ev.out = "ok" IN
          /\ cols' = IF ok /\ Ev.shown /\ Colours(f) THEN NewCols(f) ELSE cols
          /\ bad' = AddBadD(bad, l, Fails({<<"returned", ok>>, <<"data_untouched", Ev.kept>>} \union
               (IF ok THEN Shown(f) \union
                 {<<"residuals", (Ev.shown /\ Ev.resid) => \E s \in CH!Best(run) : Residuals(s)>>,
                  <<"unit_errors_of_residuals", Ev.resid => Ev.units>>,
                  <<"no_residuals", ~Ev.resid => Ev.res = <<>>>>} ELSE {})), Ev.detail)
Next == l <= NTrace /\ (Start \/ Data \/ Fit)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
