----------------------------- MODULE SimplexMC -----------------------------
(* Nelder-Mead driven by an arbitrary objective: every sequence of function   *)
(* values.  Invariants, and generation of the sequences for replay.           *)
EXTENDS Simplex, TLC, Json
CONSTANTS N, Vals, MaxFev, MaxIter, CanConverge, KeepHist, Forget
VARIABLES F, phase, fr, left, n, it, minv, status, hist
vars == <<F, phase, fr, left, n, it, minv, status, hist>>
Init == F = <<>> /\ phase = "init" /\ fr = 0 /\ left = 0 /\ n = 0 /\ it = 1
        /\ minv = 1000 /\ status = -1 /\ hist = <<>>
Saw(v) == /\ n' = n + 1 /\ minv' = (IF v < minv THEN v ELSE minv)
          /\ hist' = IF KeepHist THEN Append(hist, v) ELSE hist
          /\ UNCHANGED status
Done1 == phase' = "reflect" /\ it' = it + 1
W == CHOOSE i \in Argmax(F) : TRUE
InitEval == /\ phase = "init"
            /\ \E v \in Vals : /\ F' = Append(F, v) /\ Saw(v)
                               /\ phase' = IF Len(F) = N THEN "reflect" ELSE "init"
            /\ UNCHANGED <<fr, left, it>>
CanGo == n < MaxFev /\ it < MaxIter
Reflect == /\ phase = "reflect" /\ CanGo /\ status = -1
           /\ \E v \in Vals : /\ Saw(v) /\ fr' = v
              /\ LET a == AfterReflect(F, v) IN
                 IF a = "accept" THEN F' = Replace(F, W, v) /\ Done1
                 ELSE phase' = a /\ UNCHANGED <<F, it>>
           /\ UNCHANGED left
Expand == /\ phase = "expand"
          /\ \E v \in Vals : Saw(v) /\ F' = Replace(F, W, IF v < fr THEN v
                                                     ELSE IF Forget THEN v ELSE fr)
          /\ Done1 /\ UNCHANGED <<fr, left>>
Contract == /\ phase \in {"outside", "inside"}
            /\ \E v \in Vals : /\ Saw(v)
               /\ IF Contracted(phase, F, fr, v)
                  THEN F' = Replace(F, W, v) /\ Done1 /\ UNCHANGED left
                  ELSE phase' = "shrink" /\ left' = Len(F) - 1
                       /\ F' = <<Best(F)>> /\ UNCHANGED it
            /\ UNCHANGED fr
Shrink == /\ phase = "shrink"
          /\ \E v \in Vals : /\ Saw(v) /\ F' = Append(F, v) /\ left' = left - 1
                             /\ IF left = 1 THEN Done1 ELSE UNCHANGED <<phase, it>>
          /\ UNCHANGED fr
Converge == /\ CanConverge /\ phase = "reflect" /\ CanGo /\ status = -1 /\ status' = 0
            /\ UNCHANGED <<F, phase, fr, left, n, it, minv, hist>>
OutOfBudget == /\ phase = "reflect" /\ ~CanGo /\ status = -1
               /\ status' = (IF n >= MaxFev THEN 1 ELSE 2)
               /\ UNCHANGED <<F, phase, fr, left, n, it, minv, hist>>
Next == InitEval \/ Reflect \/ Expand \/ Contract \/ Shrink \/ Converge \/ OutOfBudget
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
BestKept == phase = "reflect" => Best(F) = minv
Size == phase = "reflect" => Len(F) = N + 1
InBudget == n <= Bound(N, MaxFev)
Truthful == status = 1 => n >= MaxFev
Terminates == <>(status # -1)
Emit == status = -1 \/ PrintT("B " \o ToJson(hist))
=============================================================================
