----------------------------- MODULE TableTrace -----------------------------
(* Recorded results tables and their files against Chain.                      *)
EXTENDS TraceLib, Chain
VARIABLES l, bad, runs, names, files
\* names[run][parameter]: label (n) and, if it is a logarithm, what of (i); files: function from paths to the numbers of their contents
vars == <<l, bad, runs, names, files>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ runs = <<>> /\ names = <<>> /\ files = <<>>
Step == l' = l + 1
Start == /\ Ev.ev = "start" /\ Step /\ runs' = Ev.runs /\ names' = Ev.names /\ files' = <<>>
         /\ UNCHANGED bad
R == runs[Ev.r]
Q == Flat(R, Ev.last)
ParRows(p) ==
  LET n == names[Ev.r][p].n k == R.lab[p]
      own == [n |-> n, r |-> Row([i \in 1..Len(Q) |-> Q[i][p]])] IN
  IF k = "plain" \/ ~Ev.conv THEN <<own>>
  ELSE <<own, [n |-> names[Ev.r][p].i, r |-> Row([i \in 1..Len(Q) |->
               IF k = "log10" THEN Pow10(Q[i][p]) ELSE Pow2(Q[i][p])])]>>
Blob(i) == CASE i = 0 -> "blob0" [] i = 1 -> "blob1" [] i = 2 -> "blob2" [] i = 3 -> "blob3"
             [] i = 4 -> "blob4"
BlobRows(i) == IF Ev.blobs /\ R.lay[i] \in Scalars
               THEN <<[n |-> Blob(i - 1), r |-> Row([k \in 1..Len(Q) |-> Scalar(R.lay[i], Q[k])])]>>
               ELSE <<>>
Cat(f, n) == FoldSeq(LAMBDA i, acc : acc \o f[i], <<>>, [i \in 1..n |-> i])
Rows == Cat([p \in Pars(R) |-> ParRows(p)], Len(names[Ev.r])) \o
        Cat([i \in 1..Len(R.lay) |-> BlobRows(i)], Len(R.lay))
Units == {Blob(i - 1) : i \in {j \in 1..Len(R.lay) : Ev.blobs /\ R.lay[j] = "qs"}}
Exists == Ev.f \in DOMAIN files
Writes == ~Exists \/ Ev.over
Table == /\ Ev.ev = "table" /\ Step /\ UNCHANGED <<runs, names>>
         /\ LET ok == Ev.out = "ok" IN
            bad' = AddBadD(bad, l, Fails(
              {<<"written_unless_file_exists", Writes => ok>>,
               <<"existing_file_refused", ~Writes => ~ok>>,
               <<"file_is_new_or_untouched", IF Writes THEN Ev.now # 0 ELSE Ev.now = files[Ev.f]>>,
               <<"other_files_untouched", Ev.others>>,
               <<"rows", ok => Ev.rows = Rows>>,
               <<"file_has_rows", ok => Ev.frows = Rows>>,
               <<"number_of_samples", ok => Ev.nsamp = NUsed(R, Ev.last)>>,
               <<"best_sample", ok => \E s \in Best(R) : Ev.mlpars = At(R, s) /\ Ev.ml = R.lp[s[1]][s[2]]>>,
               <<"bic", ok => Ev.bic = Len(R.ch[1][1])>>,
               <<"run_information", ok => Ev.info>>,
               <<"units_of_outputs", ok => ToSet(Ev.units) = Units>>,
               <<"file_has_metadata", (ok /\ Ev.fmt # "other") => Ev.fmeta>>,
               <<"stored_results_unchanged", Ev.kept>>}),
               <<Rows, Writes, Ev.out>>)
         /\ files' = [k \in DOMAIN files \union (IF Ev.now = 0 THEN {} ELSE {Ev.f}) |->
                        IF k = Ev.f THEN Ev.now ELSE files[k]]
Next == l <= NTrace /\ (Start \/ Table)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
