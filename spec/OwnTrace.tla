------------------------------ MODULE OwnTrace ------------------------------
(* Recorded fingerprints of all objects after every call against Own.           *)
(* Event: n: index in Ops (0: the caller wrote into q[1]), q: arguments, p:     *)
(* parameter, fps: fingerprints of the objects there were, res: <<>> or         *)
(* <<fingerprint, value class>> of the result, det: results are functions of    *)
(* the arguments, kept: temporary containers are unchanged                      *)
EXTENDS TraceLib, Own
VARIABLES l, bad, objs, known
vars == <<l, bad, objs, known>>
Ev == Trace[l]
Init == l = 1 /\ bad = <<>> /\ objs = <<>> /\ known = {}
Begin == /\ Ev.ev = "start" /\ l' = l + 1 /\ known' = {} /\ UNCHANGED bad
         /\ objs' = [i \in 1..Len(Ev.fps) |-> [k |-> Ev.kinds[i], h |-> {}, fp |-> Ev.fps[i]]]
Changed == {i \in 1..Len(objs) : Ev.fps[i] # objs[i].fp}
Now == [i \in 1..Len(objs) |-> [objs[i] EXCEPT !.fp = Ev.fps[i]]]
Write == /\ Ev.ev = "op" /\ Ev.n = 0 /\ l' = l + 1 /\ UNCHANGED known
         /\ objs' = Now
         /\ bad' = AddBadD(bad, l, Fails({<<"only_what_was_written_changes",
                                            Changed \subseteq Written(objs, Ev.q[1])>>}), Ev.detail)
Call == /\ Ev.ev = "op" /\ Ev.n > 0 /\ l' = l + 1
        /\ LET o == Ops[Ev.n] ok == Ev.out = "ok"
               x == Changed \ MayChange(objs, o, Ev.q)
               key == <<o.op, Ev.p, [i \in 1..Len(Ev.q) |-> {objs[j].fp : j \in Reach(objs, <<Ev.q[i]>>)}]>>
               old == {e \in known : e[1] = key}
           IN
           /\ objs' = IF o.r = "" \/ ~ok THEN Now
                      ELSE Append(Now, [k |-> o.r, h |-> Holding(objs, o.r, Ev.q), fp |-> Ev.res[1]])
           /\ known' = IF ok /\ Ev.det /\ o.r # "" /\ old = {} THEN known \union {<<key, Ev.res[2]>>} ELSE known
           /\ bad' = AddBadD(bad, l, Fails({
                <<"returned", ok <=> ~o.bad>>,
                <<"arguments_unchanged", x \intersect (Reach(objs, Ev.q) \ {Env}) = {} /\ Ev.kept>>,
                <<"other_objects_unchanged", x \ (Reach(objs, Ev.q) \union {Env}) = {}>>,
                <<"environment_unchanged", ~(Env \in x)>>,
                <<"same_arguments_same_result",
                   (ok /\ Ev.det /\ o.r # "") => \A e \in old : e[2] = Ev.res[2]>>}), Ev.detail)
Next == l <= NTrace /\ (Begin \/ Write \/ Call)
TraceSpec == Init /\ [][Next]_vars
Report == Verdict(l, bad)
=============================================================================
