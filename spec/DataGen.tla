------------------------------- MODULE DataGen -------------------------------
(* Lists of data tables: design invariants of the canonical form (checked      *)
(* exhaustively with small constants) and generation of test inputs.           *)
EXTENDS DataTab, TLC, Json
CONSTANTS KSets, MaxTabs, Dev, Generate, FVals, EBn, FEr, UlS, ClS, FpS, WrS, UlRows, Grps
VARIABLES ts, sed, done
vars == <<ts, sed, done>>
Pick(S) == IF Generate THEN {RandomElement(S)} ELSE S

Default == [rows |-> <<>>, ebin |-> "none", ferr |-> "sym", ul |-> "none",
            flul |-> FALSE, cl |-> "none", fpt |-> "dflux", wrong |-> "none", grp |-> FALSE]
Row(k, f, u, g) == [k |-> k, f |-> f, lo |-> 1 + ((f + k) % 3), hi |-> 2 + ((f * 2 + k) % 5),
                    a |-> 2 * (1 + ((f + k) % 4)), b |-> 1 + ((f + 2 * k) % 6),
                    ul |-> u, fu |-> 10 + f + k, g |-> g,
                    c |-> 900 + (10 * (f % 5))]
Fields == {"ebin", "ferr", "ul", "flul", "cl", "fpt", "wrong", "grp"}
Vals(x) == CASE x = "ebin" -> EBn [] x = "ferr" -> FEr [] x = "ul" -> UlS
             [] x = "cl" -> ClS [] x = "fpt" -> FpS [] x = "wrong" -> WrS
             [] x \in {"flul", "grp"} -> BOOLEAN
Init == ts = <<>> /\ sed \in {"none", "true", "false"} /\ done = FALSE
\* add a table with given energies and up to Dev columns deviating from default
AddTable == /\ Len(ts) < MaxTabs /\ ~done
            /\ \E K \in Pick(KSets) :
               \E f \in Pick(FVals), us \in Pick(UlRows), gs \in Pick(Grps) :
                 LET ks == K rows == [i \in 1..Len(ks) |->
                       Row(ks[i], 1 + ((f + 3 * i) % 9), i \in us, IF i % 2 = 0 THEN gs ELSE 0)] IN
                 ts' = Append(ts, [Default EXCEPT !.rows = rows])
            /\ UNCHANGED <<sed, done>>
Deviations(t) == Cardinality({x \in Fields : t[x] # Default[x]})
Deviate == /\ ts # <<>> /\ ~done /\ Deviations(ts[Len(ts)]) < Dev
           /\ \E x \in Pick(Fields) : \E v \in Pick(Vals(x)) :
                /\ v # Default[x] /\ ts[Len(ts)][x] = Default[x]
                /\ ts' = [ts EXCEPT ![Len(ts)] = [@ EXCEPT ![x] = v]]
           /\ UNCHANGED <<sed, done>>
Stop == /\ ts # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<ts, sed>>
Next == AddTable \/ Deviate \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("B " \o ToJson([ts |-> ts, sed |-> sed]))

\* --- design invariants
Ok == ts # <<>> /\ Acceptable(ts)
RECURSIVE NRows(_)
NRows(i) == IF i = 0 THEN 0 ELSE Len(ts[i].rows) + NRows(i - 1)
EveryRowOnce == Ok => Len(CanonSeq(ts, sed)) =
   NRows(Len(ts))
BinsPositive == Ok => \A i \in 1..Len(CanonSeq(ts, sed)) :
   LET r == CanonSeq(ts, sed)[i] IN r.el >= 0 /\ r.eh >= 0 /\ r.el <= E(r.k)
\* bins derived from neighbours touch and do not overlap
BinsTouch == (Ok /\ Len(ts) = 1 /\ ~HasBinColumn(ts[1]) /\ ~ts[1].grp) =>
   \A i, j \in 1..Len(ts[1].rows) :
      LET S == {ts[1].rows[m].k : m \in 1..Len(ts[1].rows)} ki == ts[1].rows[i].k IN
      (ts[1].rows[j].k > ki /\ Above(S, ki) = ts[1].rows[j].k) =>
        E(ki) + GenHi(S, ki) = E(ts[1].rows[j].k) - GenLo(S, ts[1].rows[j].k)
Idempotent == Ok =>
   LET c == CanonSeq(ts, sed) o == OutSed(ts, sed)
       t2 == AsTable(c, IF IsLum(ts[1].fpt) THEN IF o THEN "power" ELSE "dpower"
                        ELSE IF o THEN "flux" ELSE "dflux", o) IN
   LET d == CanonSeq(<<t2>>, "none") IN
   c = d
OrderFree == Ok =>
   LET rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
       tr == [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.rows = rev(@)]] IN
   SameBag(CanonSeq(ts, sed), CanonSeq(tr, sed))
RoundTrip == Ok => SameBag(
   [i \in 1..Len(CanonSeq(ts, "true")) |-> LET r == CanonSeq(ts, "true")[i] IN
      [r EXCEPT !.f = @ \div E2(r.k), !.lo = @ \div E2(r.k), !.hi = @ \div E2(r.k)]],
   CanonSeq(ts, "false"))
=============================================================================
