------------------------------- MODULE MLTrace -------------------------------
(* Recorded maximum-likelihood results of real samplers against Chain.         *)
EXTENDS TraceLib, Chain
VARIABLES l, bad, runs
vars == <<l, bad, runs>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ runs = <<>>
Step == l' = l + 1
Start == /\ Ev.ev = "start" /\ Step /\ runs' = Ev.runs /\ UNCHANGED bad
R == runs[Ev.r]
Kind == R.lay[Ev.i + 1]
Column(p) == LET q == Flat(R, FALSE) IN [i \in 1..Len(q) |-> q[i][p]]
Err(p) == Row(Column(p))[2] + Row(Column(p))[3]       \* times 200
\* find_ML; idx -1: no output asked for
ML == /\ Ev.ev = "ml" /\ Step /\ UNCHANGED runs
      /\ LET ok == Ev.out = "ok"
             fits == {s \in Best(R) : At(R, s) = Ev.pars} IN
         bad' = AddBadD(bad, l, Fails(
           IF Ev.noidx \/ Kind \in Arrays \union {"qs"} THEN
           {<<"returned", ok>>,
            <<"highest_probability", ok => \E s \in Best(R) : Ev.lp = R.lp[s[1]][s[2]]>>,
            <<"parameters_of_best_sample", ok => fits # {}>>,
            <<"errors_half_16_84", ok => (Len(Ev.err) = Len(Ev.pars) /\ \A p \in 1..Len(Ev.err) : Ev.err[p] = Err(p))>>,
            <<"no_output_when_not_asked", (ok /\ Ev.noidx) => Ev.none>>,
            <<"output_of_best_sample", (ok /\ fits # {} /\ ~Ev.noidx /\ Kind \in Arrays) =>
                 (Ev.vals = Values(Kind, Ev.pars) /\ Ev.ene = Energies(Kind))>>,
            <<"scalar_of_best_sample", (ok /\ fits # {} /\ ~Ev.noidx /\ Kind = "qs") =>
                 Ev.vals = <<Scalar(Kind, Ev.pars)>>>>,
            <<"stored_results_unchanged", Ev.kept>>}
           ELSE {<<"stored_results_unchanged", Ev.kept>>}), Ev.out)
\* distributions that can be drawn with a density and a relative error
Drawable(row) == row[1] # 0 /\ row[2] > 0 /\ row[3] > 0
\* the distribution of a scalar output: median and 68% interval drawn
Dist == /\ Ev.ev = "dist" /\ Step /\ UNCHANGED runs
        /\ LET q == Flat(R, Ev.last)
               row == Row([i \in 1..Len(q) |-> Scalar(Kind, q[i])]) IN
           bad' = AddBadD(bad, l, Fails(
             {<<"drawn", Drawable(row) => Ev.out = "ok">>,
              <<"median_drawn", Ev.out = "ok" => Ev.med = row[1]>>,
              <<"interval_drawn", Ev.out = "ok" => (Ev.lo = row[1] - row[2] /\ Ev.hi = row[1] + row[3])>>,
              <<"whole_distribution", Ev.out = "ok" => Ev.mass = 1000>>,
              <<"unit_named", Ev.out = "ok" => Ev.unit>>,
              <<"stored_results_unchanged", Ev.kept>>}), row)
Abs(x) == IF x < 0 THEN -x ELSE x
\* a printed number <<value, unit of the last digit>> (1e-3) is x / d, rounded
Prints(w, x, d) == 2 * Abs(d * w[1] - x) <= d * w[2]
\* text: the median with its errors, or with their mean if they are similar
Says(said, row) ==
  IF Len(said) = 3 THEN Prints(said[1], 10 * row[1], 1) /\ Prints(said[2], 10 * row[3], 1)
                        /\ Prints(said[3], 10 * row[2], 1)
  ELSE /\ Len(said) = 2 /\ Prints(said[1], 10 * row[1], 1)
       /\ Prints(said[2], 10 * (row[2] + row[3]), 2)
       \* similar: by a quarter at most
       /\ 8 * Abs(row[2] - row[3]) <= row[2] + row[3]
\* traces, median and interval of a parameter
ChainPlot == /\ Ev.ev = "chain" /\ Step /\ UNCHANGED runs
        /\ LET q == Flat(R, Ev.last)
               row == Row([i \in 1..Len(q) |-> q[i][Ev.p]])
               row10 == IF R.lab[Ev.p] = "log10" THEN Row([i \in 1..Len(q) |-> Pow10(q[i][Ev.p])]) ELSE row
               row2 == IF R.lab[Ev.p] = "log" THEN Row([i \in 1..Len(q) |-> Pow2(q[i][Ev.p])]) ELSE row IN
           bad' = AddBadD(bad, l, Fails(
             {<<"drawn", Drawable(row) => Ev.out = "ok">>,
              <<"traces_of_walkers", Ev.out = "ok" =>
                  /\ Len(Ev.traces) = Len(R.ch[1])
                  /\ \A w \in Walkers(R) : Cardinality({k \in 1..Len(Ev.traces) : Ev.traces[k] = [s \in Steps(R) |-> R.ch[s][w][Ev.p]]})
                       = Cardinality({k \in Walkers(R) : \A s \in Steps(R) : R.ch[s][k][Ev.p] = R.ch[s][w][Ev.p]})>>,
              <<"median_drawn", Ev.out = "ok" => Ev.med = row[1]>>,
              <<"interval_drawn", Ev.out = "ok" => (Ev.lo = row[1] - row[2] /\ Ev.hi = row[1] + row[3])>>,
              <<"text_states_size", Ev.out = "ok" => (Ev.walkers = Len(R.ch[1]) /\ Ev.steps = Len(R.ch))>>,
              <<"text_states_median_and_errors", (Ev.out = "ok" /\ Drawable(row) /\ R.lab[Ev.p] # "log") =>
                   (Len(Ev.said) >= 1 /\ Says(Ev.said[1], row))>>,
              \* parameters given by their logarithm: also those of the parameter itself
              <<"text_states_parameter", (Ev.out = "ok" /\ Drawable(row) /\ R.lab[Ev.p] = "log10" /\ Drawable(row10)) =>
                   (Len(Ev.said) = 2 /\ Says(Ev.said[2], row10))>>,
              <<"text_states_parameter", (Ev.out = "ok" /\ Drawable(row) /\ R.lab[Ev.p] = "log" /\ Drawable(row2)) =>
                   (Len(Ev.said) = 2 /\ Says(Ev.said[2], row2))>>,
              <<"text_states_nothing_else", (Ev.out = "ok" /\ R.lab[Ev.p] = "plain") => Len(Ev.said) <= 1>>,
              <<"stored_results_unchanged", Ev.kept>>}), <<row, row10, row2, Ev.said>>)
Next == l <= NTrace /\ (Start \/ ML \/ Dist \/ ChainPlot)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
