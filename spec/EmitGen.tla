------------------------------- MODULE EmitGen ------------------------------
(* Histories of one emitting object: parameters move on the lattice, queries   *)
(* ask for the kernel at lattice energies, beyond the kinematic limit, for the *)
(* whole radiated power.                                                       *)
EXTENDS Emit, TLC, Json
CONSTANTS Which, L
VARIABLES st, hist, done
vars == <<st, hist, done>>
R(S) == {RandomElement(S)}
G(p) == CASE p = "SYN" -> 4..30 [] p = "IC" -> 10..28 [] OTHER -> {2 * i + 1 : i \in 1..13}
Bs == -34..4
Ms == -12..12
Ss(t) == IF t = "nr" THEN -5..1 ELSE {0}
Ds == {0, 0, 1, 2, 3, 5}
Fresh(i) ==
  CASE Which = "SYN" -> [proc |-> "SYN", g |-> RandomElement(G("SYN")), b |-> RandomElement(Bs),
                         d |-> RandomElement(Ds)]
    [] Which = "IC"  -> [proc |-> "IC", g |-> RandomElement(G("IC")), j |-> RandomElement(Js),
                         fld |-> RandomElement(Fields), m |-> RandomElement(Ms),
                         d |-> RandomElement(Ds)]
    [] Which = "BREM" -> LET t == RandomElement(Targets) IN
                        [proc |-> "BREM", g |-> RandomElement(G("BREM")), tgt |-> t,
                         s |-> RandomElement(-5..1), m |-> RandomElement(Ms),
                         d |-> RandomElement(Ds)]
    [] Which = "PP"  -> [proc |-> "PP", s |-> RandomElement(-2..16),
                         mod |-> RandomElement(Models), nuc |-> RandomElement(BOOLEAN),
                         m |-> RandomElement(Ms), d |-> RandomElement(Ds)]
    [] Which = "KEL" -> [proc |-> "KEL", al |-> RandomElement(1..3), t |-> RandomElement(-5..0),
                         m |-> RandomElement(Ms), d |-> RandomElement(Ds)]
Init == hist = <<>> /\ done = FALSE /\ \E i \in 1..400 : st = Fresh(i)
New == /\ hist = <<>> /\ ~done /\ hist' = <<[a |-> "new", st |-> st]>> /\ UNCHANGED <<st, done>>
Room == hist # <<>> /\ Len(hist) < L /\ ~done
\* one parameter moves
Set == /\ Room /\ UNCHANGED done
       /\ \E f \in R(DOMAIN st \ {"proc", "fld", "al"}), x \in R(1..1000) :
            LET n == Fresh(x) IN
            /\ st' = [st EXCEPT ![f] = n[f]]
            /\ hist' = Append(hist, [a |-> "set", f |-> f, st |-> st'])
Ask == /\ Room /\ UNCHANGED <<st, done>> /\ Lattice(st) # {}
       /\ \E k1 \in R(Lattice(st)), k2 \in R(Lattice(st)), k3 \in R(Lattice(st)),
             k4 \in R(Lattice(st)), n \in R(1..6) :
            hist' = Append(hist, [a |-> "ask", n |-> n,
               ks |-> SubSeq(<<k1, k2, k3, k4, IF (k1 + k2) \div 2 \in Lattice(st) THEN (k1 + k2) \div 2 ELSE k2, k1>>, 1, n)])
Over == /\ Room /\ UNCHANGED <<st, done>> /\ st.proc \in {"IC", "BREM", "PP"}
        /\ \E x \in R(1..40) : hist' = Append(hist, [a |-> "over", x |-> x])
Pow == /\ Room /\ UNCHANGED <<st, done>> /\ HasPower(st)
       /\ hist' = Append(hist, [a |-> "power"])
\* a population over 2..20 octaves, cut into parts
Cut == /\ Room /\ UNCHANGED <<st, done>> /\ st.proc # "KEL"
       \* the default grid of electron energies resolves the kernel
       /\ (st.proc = "IC" => st.fld # "mono" /\ st.j <= -2)
       /\ \E lo \in R(1..6), w1 \in R(1..7), w2 \in R(1..7), w3 \in R(1..6), n \in R(2..3),
             pd \in R(0..7) :
            hist' = Append(hist, [a |-> "parts", pd |-> pd,
              cuts |-> SubSeq(<<lo, lo + w1, lo + w1 + w2, lo + w1 + w2 + w3>>, 1, n + 1)])
Lut == /\ Room /\ UNCHANGED <<st, done>> /\ st.proc = "PP"
       /\ \E al \in R(6..12), x \in R(0..5), k \in R(-10..30) :
            hist' = Append(hist, [a |-> "same", al |-> al, emax |-> x, k |-> k])
Stop == Len(hist) = L /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
Next == New \/ Set \/ Ask \/ Over \/ Pow \/ Cut \/ Lut \/ Stop
Spec == Init /\ [][Next]_vars
Emit_ == done => PrintT("B " \o ToJson(hist))
\* every state has lattice energies to ask for, and every answer is defined
Defined == \A k \in Lattice(st) : Kernel(st, <<k>>, k) \in Int
Askable == st.proc = "IC" \/ Lattice(st) # {}
=============================================================================
