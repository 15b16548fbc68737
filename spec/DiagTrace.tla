------------------------------ MODULE DiagTrace -------------------------------
(* Recorded saves of diagnostic plots against Diag.                             *)
EXTENDS TraceLib, Diag
VARIABLES l, bad, runs, paths
vars == <<l, bad, runs, paths>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ runs = <<>> /\ paths = {}
Step == l' = l + 1
Start == /\ Ev.ev = "start" /\ Step /\ runs' = Ev.runs /\ paths' = {} /\ UNCHANGED bad
SetOf(q) == {q[i] : i \in 1..Len(q)}
Save == /\ Ev.ev = "save" /\ Step /\ UNCHANGED runs
  /\ LET o == Ev.o r == runs[o.r] ws == Pages(r, o) gs == Ev.pages
         written == SetOf(Ev.written) now == SetOf(Ev.files)
         must == {k \in 1..Len(ws) : ws[k].st = "must"}
         lost == {k \in must : ~\E j \in 1..Len(gs) : Shows(r, o, ws[k], gs[j])}
         odd == {j \in 1..Len(gs) : ~\E k \in 1..Len(ws) : ws[k].st # "never" /\ Shows(r, o, ws[k], gs[j])}
         names == {gs[j].path : j \in 1..Len(gs)} IN
     /\ paths' = paths \cup written
     /\ bad' = AddBadD(bad, l, IF ~Cornered(r) THEN Fails({<<"run_unchanged", Ev.kept>>,
                                         <<"other_files_unchanged", paths \subseteq now>>})
         ELSE Fails({
           <<"returned", Ev.out = "ok">>,
           <<"every_page_there", Ev.out = "ok" => lost = {}>>,
           <<"only_pages_asked_for", Ev.out = "ok" => (odd = {} /\ Len(gs) <= Len(ws))>>,
           <<"own_file_each", (Ev.out = "ok" /\ ~o.pdf) =>
                Cardinality(names) = Len(gs) /\ names = written>>,
           <<"one_document", (Ev.out = "ok" /\ o.pdf) =>
                written = {o.name \o "_plots.pdf"} /\ names = written /\ Ev.sheets = Len(gs)>>,
           <<"names_as_documented", (Ev.out = "ok" /\ ~o.pdf) =>
                \A j \in 1..Len(gs) : gs[j].prefix = o.name \o "_"
                   /\ (gs[j].kind = "corner" => gs[j].path = o.name \o "_corner.png")>>,
           <<"resolution_asked_for", (Ev.out = "ok" /\ ~o.pdf) => \A j \in 1..Len(gs) : gs[j].dpi = o.dpi>>,
           <<"other_files_unchanged", paths \subseteq now /\ now = paths \cup written>>,
           <<"figures_closed", (\A k \in 1..Len(ws) : ws[k].st = "must") => Ev.left = 0>>,
           <<"run_unchanged", Ev.kept>>}),
         [lost |-> {ws[k] : k \in lost}, odd |-> {gs[j] : j \in odd}])
Next == l <= NTrace /\ (Start \/ Save)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
===============================================================================
