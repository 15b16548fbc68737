------------------------------ MODULE BandTrace ------------------------------
(* Recorded confidence bands and sampled curves of real samplers against Chain. *)
EXTENDS TraceLib, Chain
VARIABLES l, bad, runs
vars == <<l, bad, runs>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ runs = <<>>
Step == l' = l + 1
Start == /\ Ev.ev = "start" /\ Step /\ runs' = Ev.runs /\ UNCHANGED bad
R == runs[Ev.r]
Kind == R.lay[Ev.i + 1]
\* energies (log2 of TeV) and values of a model; es: energies asked for (<<>>: as stored)
Es(es) == IF Kind \in {"arr", "arrsed"} /\ es # <<>> THEN es ELSE Energies(Kind)
At2(v, es) == IF Kind \in {"arr", "arrsed"} /\ es # <<>>
              THEN [i \in 1..Len(es) |-> ArrAt(v, es[i])] ELSE Values(Kind, v)
Models(es) == LET q == Flat(R, Ev.last) IN [i \in 1..Len(q) |-> At2(q[i], es)]
MLs(es) == {At2(At(R, s), es) : s \in Best(R)}
Desc(c) == SortSeq(c, LAMBDA x, y : x > y)
Common(es) == {<<"energies", Ev.out = "ok" => Ev.ene = Es(es)>>,
           <<"best_model_drawn", Ev.out = "ok" => Ev.ml \in MLs(es)>>,
           <<"drawn", Ev.out = "ok">>,
           <<"stored_results_unchanged", Ev.kept>>}
Column(m, e) == [i \in 1..Len(m) |-> m[i][e]]
Ok(m) == Ev.out = "ok" /\ Len(Ev.bands) = Len(Ev.c)
        /\ \A k \in 1..Len(Ev.bands) : Len(Ev.bands[k][1]) = Len(m[1]) /\ Len(Ev.bands[k][2]) = Len(m[1])
\* bands made of the stored models
Bands == /\ Ev.ev = "bands" /\ Step /\ UNCHANGED runs
         /\ LET m == Models(<<>>) c == Desc(Ev.c) IN
            bad' = AddBadD(bad, l, Fails(Common(<<>>) \union
              {<<"one_band_per_level", Ev.out = "ok" => Ok(m)>>,
               <<"lower_order_statistic", Ok(m) => \A k \in 1..Len(c), e \in 1..Len(m[1]) :
                     Ev.bands[k][1][e] = BandLo(Column(m, e), c[k])>>,
               <<"upper_order_statistic", Ok(m) => \A k \in 1..Len(c), e \in 1..Len(m[1]) :
                     Ev.bands[k][2][e] = BandHi(Column(m, e), c[k])>>}), <<Ev.c, Ev.last>>)
\* bands made of models computed anew for samples on the energies asked for
RangeBands == /\ Ev.ev = "rbands" /\ Step /\ UNCHANGED runs
         /\ LET m == Models(Ev.es) IN
            bad' = AddBadD(bad, l, Fails(Common(Ev.es) \union
              {<<"one_band_per_level", Ev.out = "ok" => Ok(m)>>,
               <<"bounds_are_models_of_samples", Ok(m) => \A k \in 1..Len(Ev.c), e \in 1..Len(m[1]), b \in 1..2 :
                     \E i \in 1..Len(m) : Ev.bands[k][b][e] = m[i][e]>>,
               <<"nested", Ok(m) => \A k \in 1..Len(Ev.c), e \in 1..Len(m[1]) :
                     /\ Ev.bands[k][1][e] <= Ev.bands[k][2][e]
                     /\ k > 1 => (Ev.bands[k - 1][1][e] <= Ev.bands[k][1][e]
                                  /\ Ev.bands[k][2][e] <= Ev.bands[k - 1][2][e])>>}), <<Ev.c, Ev.last>>)
\* curves of samples
Curves == /\ Ev.ev = "curves" /\ Step /\ UNCHANGED runs
          /\ LET m == Models(Ev.es) IN
             bad' = AddBadD(bad, l, Fails(Common(Ev.es) \union
               {<<"number_of_curves", Ev.out = "ok" => Ev.count = Ev.n>>,
                <<"curves_are_models_of_samples", Ev.out = "ok" => \A k \in 1..Len(Ev.curves) :
                      \E i \in 1..Len(m) : Ev.curves[k] = m[i]>>}), <<Ev.n, Ev.last>>)
Next == l <= NTrace /\ (Start \/ Bands \/ RangeBands \/ Curves)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
