----------------------------- MODULE SamplerGen -----------------------------
(* Histories of sampler operations: design invariants and generation.         *)
EXTENDS Sampler, TLC, Json
CONSTANTS L, NWs, NBs, NRs, Ths, Generate
VARIABLES s, hist, done
vars == <<s, hist, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Init == s = Fresh /\ hist = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Create == /\ ~done /\ ~s.made
          /\ \E nw \in Pick(NWs), nb \in Pick(NBs), th \in Pick(Ths) :
               s' = Created(nw, nb, th) /\ Log([a |-> "get", nw |-> nw, nb |-> nb, th |-> th])
Oneshot == /\ ~done /\ ~s.made
           /\ \E nw \in Pick(NWs), nb \in Pick(NBs), th \in Pick(Ths), n \in Pick(NRs) :
                s' = Ran(Created(nw, nb, th), n, 1)
                /\ Log([a |-> "runnew", nw |-> nw, nb |-> nb, th |-> th, n |-> n])
Run == /\ ~done /\ s.made /\ Len(hist) < L
       /\ \E n \in Pick(NRs), from \in Pick(1..(s.next - 1)), arr \in Pick(BOOLEAN) :
            s' = Ran(s, n, from)
            /\ Log([a |-> "run", n |-> n, from |-> from, arr |-> arr])
Stop == Len(hist) = L /\ ~done /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Next == Create \/ Oneshot \/ Run \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson(hist))
\* burn-in is gone once a run happened; the record is that of the last run
OnlyProduction == (s.made /\ s.info.n_run >= 0) => s.steps = s.info.n_run
BurnKept == s.made => s.info.n_burn \in NBs
Resumable == s.made => \A f \in 1..(s.next - 1) : CanRun(s, f)
PoolReleased == (s.made /\ s.info.n_run >= 0) => s.pool = "none"
=============================================================================
