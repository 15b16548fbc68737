------------------------------ MODULE SaveTrace ------------------------------
(* Recorded saving and reading of real runs against Files and Chain.           *)
EXTENDS TraceLib, Chain, Files
VARIABLES l, bad, runs, files, dig, got
\* files: paths to origins; dig: paths to the numbers of the contents seen
vars == <<l, bad, runs, files, dig, got>>
Ev == Trace[l]
Paths == {"a.h5", "b.hdf5", "c.h5", "a.txt", "b", "c.hdf"}
Init == l = 1 /\ bad = <<>> /\ runs = <<>> /\ got = None
        /\ files = [p \in Paths |-> None] /\ dig = [p \in Paths |-> 0]
Step == l' = l + 1
Start == /\ Ev.ev = "start" /\ Step /\ runs' = Ev.runs /\ got' = None
         /\ files' = [p \in Paths |-> None] /\ dig' = [p \in Paths |-> 0] /\ UNCHANGED bad
Suffix(p) == p \in {"a.h5", "b.hdf5", "c.h5"}
\* r: the run saved (a sampler, or the run read last)
Origin == IF Ev.again THEN got ELSE Ev.r
DoSave == /\ Ev.ev = "save" /\ Step /\ UNCHANGED <<runs, got>>
          /\ LET p == Ev.p new == Save(files, p, Origin, Ev.clobber, Suffix(p))
                 writes == MayWrite(files, p, Ev.clobber, Suffix(p)) IN
             /\ files' = new /\ dig' = [q \in Paths |-> Ev.now[q]]
             /\ bad' = AddBadD(bad, l, Fails(
                  {<<"unsupported_suffix_rejected", ~Suffix(p) => Ev.out = "ValueError">>,
                   <<"returned", Suffix(p) => Ev.out = "ok">>,
                   <<"file_exists", writes => Ev.now[p] # 0>>,
                   <<"existing_file_untouched", ~writes => Ev.now[p] = dig[p]>>,
                   <<"other_files_untouched", \A q \in Paths \ {p} : Ev.now[q] = dig[q]>>,
                   <<"stored_results_unchanged", Ev.kept>>}), <<writes, Ev.out>>)
R == runs[files[Ev.p]]
Savable(k) == k \notin {"text"}
\* what is stored of an output: a list of lists of numbers (without energies)
Tri(v) == <<[i \in 1..3 |-> 20 + i * v[1]], [i \in 1..3 |-> 9 + i * v[2]]>>
Stored(k, v) == CASE k \in Arrays -> <<Values(k, v)>> [] k \in Scalars -> <<<<Scalar(k, v)>>>>
                  [] k = "tri" -> Tri(v) [] k = "qpair" -> <<<<5 + v[1]>>, <<7 + v[2]>>>>
                  [] OTHER -> <<>>
Q == Flat(R, FALSE)
Read == /\ Ev.ev = "read" /\ Step /\ UNCHANGED <<runs, files, dig>>
        /\ got' = IF files[Ev.p] = None THEN got ELSE files[Ev.p]
        /\ bad' = AddBadD(bad, l, Fails(
             IF files[Ev.p] = None THEN {<<"missing_file_error", Ev.out # "ok">>}
             ELSE LET ok == Ev.out = "ok" IN
             {<<"returned", ok>>,
              <<"chain", ok => Ev.chain = R.ch>>,
              <<"log_probability", ok => Ev.lp = R.lp>>,
              <<"all_digits", ok => Ev.exact>>,
              <<"flat_views", ok => Ev.flat>>,
              <<"number_of_outputs", ok => \A i \in 1..Len(R.lay) : Savable(R.lay[i]) => i <= Len(Ev.outs)>>,
              <<"outputs", ok => \A i \in 1..Len(R.lay) : (Savable(R.lay[i]) /\ i <= Len(Ev.outs)) =>
                    Ev.outs[i] = [s \in 1..Len(Q) |-> Stored(R.lay[i], Q[s])]>>,
              <<"units_and_energies_of_outputs", ok => \A i \in 1..Len(R.lay) :
                    (Savable(R.lay[i]) /\ i <= Len(Ev.outs)) => Ev.units[i]>>,
              <<"unsavable_outputs_missing", ok => \A i \in 1..Len(R.lay) :
                    (~Savable(R.lay[i]) /\ i <= Len(Ev.outs)) => Ev.none[i]>>,
              <<"labels", ok => Ev.labels>>, <<"run_information", ok => Ev.info>>,
              <<"data_table", ok => Ev.data>>, <<"acceptance", ok => Ev.accept>>,
              <<"file_untouched", \A q \in Paths : Ev.now[q] = dig[q]>>}), Ev.out)
Next == l <= NTrace /\ (Start \/ DoSave \/ Read)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
