------------------------------- MODULE ScaleGen -------------------------------
(* Histories of scaling one source up and down and evaluating it: design       *)
(* invariants (small constants) and generation.                               *)
EXTENDS Scale, TLC, Json
CONSTANTS NC, Ks, Ws, Ds, NSub, NForm, L, Generate
VARIABLES s, hist, done
vars == <<s, hist, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S
Init == /\ s = [amp |-> 0, den |-> 0, dist |-> 0, w |-> [j \in 1..NC |-> 0]]
        /\ hist = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED done
Go == ~done /\ Len(hist) < L
SetAmp == Go /\ \E k \in Pick(Ks) : s' = [s EXCEPT !.amp = k] /\ Log([a |-> "amp", k |-> k])
SetDen == Go /\ \E k \in Pick(Ks) : s' = [s EXCEPT !.den = k] /\ Log([a |-> "den", k |-> k])
SetW   == Go /\ \E j \in Pick(1..NC), k \in Pick(Ws) :
             s' = [s EXCEPT !.w[j] = k] /\ Log([a |-> "w", j |-> j, k |-> k])
Eval   == Go /\ \E d \in Pick(Ds), op \in Pick({"flux", "sed"}), q \in Pick(1..NSub),
                   f \in Pick(1..NForm), sd \in Pick(0..NC) :
             s' = [s EXCEPT !.dist = d]
             /\ Log([a |-> "eval", op |-> op, d |-> d, q |-> q, f |-> f, s |-> sd])
Stop == /\ ~done /\ Len(hist) > 0 /\ (Generate => Len(hist) = L)
        /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Next == SetAmp \/ SetDen \/ SetW \/ Eval \/ Stop
Spec == Init /\ [][Next]_vars
\* every component alone, added up, is the whole
C0 == [j \in 1..NC |-> 64 * j]
RECURSIVE Each(_)
Each(j) == IF j = 0 THEN 0 ELSE Emission(s, C0, j).m + Each(j - 1)
ComponentsAddUp == Emission(s, C0, 0).m = Each(NC)
NonNegative == Emission(s, C0, 0).m >= 0
Monotone == \A j \in 1..NC : s.w[j] # Zero =>
              Emission([s EXCEPT !.w[j] = Zero], C0, 0).m <= Emission(s, C0, 0).m
LuminosityIsFluxTimesArea ==
  Emission([s EXCEPT !.dist = Lum], C0, 0).e = Emission([s EXCEPT !.dist = 0], C0, 0).e
FourTimesWeakerAtTwiceTheDistance ==
  s.dist \notin {Lum} => Emission([s EXCEPT !.dist = @ + 1], C0, 0).e + 2 = Emission(s, C0, 0).e
Emit == done => PrintT("B " \o ToJson(hist))
=============================================================================
