------------------------------ MODULE FieldsGen -------------------------------
(* Descriptions of seed photon fields, in all forms.                            *)
EXTENDS Fields, Json
CONSTANTS L
VARIABLES hist, done
vars == <<hist, done>>
One(S) == RandomElement(S)
R(S) == {RandomElement(S)}
Init == hist = <<>> /\ done = FALSE
Names == <<"CMB", "FIR", "NIR", "star", "x y", "SSC">>
Bads(f) == CASE f = "thermal" -> {"noT", "typeT", "typeu", "negT", "negu", "short", "long", "angle"}
             [] f = "mono" -> {"typeE", "typeu", "negE", "negu", "short", "long"}
             [] f = "table" -> {"typeE", "typen", "negE", "negn", "short", "long", "lengths"}
             [] OTHER -> {"no"}
\* i-th item of a description: one of its own names
Item(nm, odd) ==
  LET f == IF nm \in Standard /\ One(1..4) > 1 THEN "name" ELSE One({"thermal", "thermal", "mono", "table"}) IN
  [f |-> f, n |-> nm, T |-> IF f = "thermal" THEN One(1..5) ELSE One(1..3),
   k |-> IF f = "name" THEN 0 ELSE One({-3, -1, 0, 1, 4} \cup (IF f = "thermal" THEN {Zero, 99} ELSE {})),
   th |-> IF f = "thermal" THEN One({0, 0, 1, 2, 3}) ELSE 0,
   unit |-> One(1..4), form |-> One(1..6),
   bad |-> IF odd THEN One(Bads(f)) ELSE "no"]
Perm(n, m) == {q \in [1..m -> 1..n] : \A i, j \in 1..m : i # j => q[i] # q[j]}
Items(q, odd, rnd) == [i \in 1..Len(q) |->
  IF odd = i /\ rnd = 1 THEN [Item("star", FALSE) EXCEPT !.f = "name", !.n = One(Unnamed), !.th = 0]
  ELSE Item(Names[q[i]], odd = i)]
Describe == /\ Len(hist) < L /\ UNCHANGED done
  /\ \E m \in R(1..4), how \in R({"list", "list", "tuple", "iter", "words"}), odd \in R({0, 0, 0, 1, 2}), rnd \in R(1..3),
        e \in R(1..3) :
     \E q \in R(Perm(IF how = "words" THEN 3 ELSE 6, IF how = "words" /\ m > 3 THEN 3 ELSE m)) :
       LET raw == Items(q, IF odd <= Len(q) THEN odd ELSE 0, rnd)
           it == IF how = "words" THEN [i \in 1..Len(raw) |-> [raw[i] EXCEPT !.f = "name", !.k = 0, !.th = 0, !.bad = "no"]] ELSE raw IN
       hist' = Append(hist, [how |-> how, items |-> it, e |-> e])
Stop == Len(hist) = L /\ ~done /\ done' = TRUE /\ UNCHANGED hist
Next == Describe \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("B " \o ToJson(hist))
\* name and number stand for the same field; all amounts are near those of the sky
Sane == \A i \in 1..Len(hist) : LET c == hist[i] IN
  /\ (Accepted(c) => \A k \in 0..(Len(c.items) - 1) : ByName(c, ByNumber(c, k).n) = ByNumber(c, k))
  /\ \A k \in 1..Len(c.items) : Amount(c.items[k]) \in -11000000..60000000
\* the cosmic microwave background is the black body of its temperature: 0.261 eV/cm3
ASSUME BlackBody(1) \in -1945000..-1935000
ASSUME \A a, b \in 1..5 : a < b => BlackBody(a) < BlackBody(b)
===============================================================================
