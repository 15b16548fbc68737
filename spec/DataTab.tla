------------------------------ MODULE DataTab ------------------------------
(* Spectral data tables and their canonical form.                             *)
(* A table t is a record                                                      *)
(*   rows  sequence of rows [k, f, lo, hi, a, b, ul, fu, g, c]:                *)
(*         energy 4^k TeV, differential flux f, errors lo/hi, energy bin data  *)
(*         a/b, upper-limit flag and limit fu, group g, confidence level c    *)
(*   ebin  which energy-bin columns it has     ferr  which flux-error columns  *)
(*   ul    encoding of the flag                flul  has a flux_ul column      *)
(*   cl    confidence level metadata           fpt   physical type of the flux *)
(*   wrong column given with a wrong physical type ("none" if there is none)   *)
(*   grp   has a group column                                                 *)
(* Energies are in units of 2^-8 TeV, fluxes in units of the base flux (times  *)
(* TeV^2 for SEDs).                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

EBins == {"none", "width", "error", "errors", "edges", "only_error_lo", "only_energy_hi"}
FErrs == {"sym", "asym", "both", "only_lo", "only_hi", "missing"}
Uls == {"none", "int", "int32", "uint8", "bool", "str", "badstr", "float"}
Cls == {"none", "other", "cl95", "cl50", "col", "string", "array"}
Fpts == {"flux", "dflux", "power", "dpower"}
Wrongs == {"none", "energy", "flux", "ferr", "ebin", "missing_energy", "missing_flux",
           "unitless_energy", "unitless_flux"}

E(k) == 256 * 4^k
E2(k) == 16^k                                   \* (E/TeV)^2
Mid(k1, k2) == 256 * 2^(k1 + k2)

IsSed(fpt) == fpt \in {"flux", "power"}
IsLum(fpt) == fpt \in {"power", "dpower"}
HasBinColumn(t) == t.ebin \in {"width", "error", "errors", "edges"}

Valid(t) ==
  /\ t.wrong \in {"none", "ebin"}
  /\ (t.wrong = "ebin" => ~HasBinColumn(t))
  /\ t.ferr \in {"sym", "asym", "both"}
  /\ t.ul \notin {"badstr", "float"}
  /\ t.cl \notin {"string", "array"}

\* bins derived from the neighbouring energies of the same group
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Below(S, k) == Max({x \in S : x < k})
Above(S, k) == Min({x \in S : x > k})
GenLo(S, k) ==
  IF Cardinality(S) = 1 THEN 0
  ELSE IF k = Min(S) THEN E(k) - ((256 * 4^(2 * k)) \div 2^(k + Above(S, k)))
  ELSE E(k) - Mid(Below(S, k), k)
GenHi(S, k) ==
  IF Cardinality(S) = 1 THEN 0
  ELSE IF k = Max(S) THEN E(k) - Mid(Below(S, k), k)
  ELSE Mid(k, Above(S, k)) - E(k)

Group(t, r, gi) == IF t.grp THEN r.g ELSE gi
SameGroup(t, r, gi) == {t.rows[i].k : i \in {j \in 1..Len(t.rows) :
                          Group(t, t.rows[j], gi) = Group(t, r, gi)}}
Lo(t, r, gi) == CASE t.ebin = "width" -> r.a \div 2
                  [] t.ebin \in {"error", "errors", "edges"} -> r.a
                  [] OTHER -> GenLo(SameGroup(t, r, gi), r.k)
Hi(t, r, gi) == CASE t.ebin = "width" -> r.a \div 2
                  [] t.ebin = "error" -> r.a
                  [] t.ebin \in {"errors", "edges"} -> r.b
                  [] OTHER -> GenHi(SameGroup(t, r, gi), r.k)
Cl(t, r) == CASE t.cl = "cl95" -> 950 [] t.cl = "cl50" -> 500 [] t.cl = "col" -> r.c
              [] OTHER -> 900
IsUl(t, r) == t.ul # "none" /\ r.ul
Rep(v, k, sed) == IF sed THEN v * E2(k) ELSE v

CanonRow(t, r, gi, sed) ==
  [k |-> r.k,
   f |-> Rep(IF t.flul /\ IsUl(t, r) THEN r.fu ELSE r.f, r.k, sed),
   lo |-> Rep(r.lo, r.k, sed),
   hi |-> Rep(IF t.ferr = "asym" THEN r.hi ELSE r.lo, r.k, sed),
   el |-> Lo(t, r, gi), eh |-> Hi(t, r, gi),
   ul |-> IsUl(t, r), cl |-> Cl(t, r), g |-> Group(t, r, gi)]
\* a list of tables (gi = position - 1); sed in {"none", "true", "false"}
OutSed(ts, sed) == IF sed = "none" THEN IsSed(ts[1].fpt) ELSE sed = "true"
Acceptable(ts) ==
  /\ \A i \in 1..Len(ts) : Valid(ts[i])
  /\ \A i \in 1..Len(ts) : IsLum(ts[i].fpt) = IsLum(ts[1].fpt)
\* canonical rows as a bag: pairs of row and multiplicity
RowsOf(ts, sed) ==
  [i \in 1..Len(ts) |-> [j \in 1..Len(ts[i].rows) |->
     CanonRow(ts[i], ts[i].rows[j], i - 1, OutSed(ts, sed))]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
CanonSeq(ts, sed) == Concat(RowsOf(ts, sed))
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Sorted(s) == \A i \in 1..Len(s) - 1 : s[i].k <= s[i + 1].k
\* the canonical table as a table again (for idempotence)
AsTable(s, fpt, sed) ==
  [rows |-> [i \in 1..Len(s) |->
     [k |-> s[i].k, f |-> IF sed THEN s[i].f \div E2(s[i].k) ELSE s[i].f,
      lo |-> IF sed THEN s[i].lo \div E2(s[i].k) ELSE s[i].lo,
      hi |-> IF sed THEN s[i].hi \div E2(s[i].k) ELSE s[i].hi,
      a |-> s[i].el, b |-> s[i].eh, ul |-> s[i].ul, fu |-> 0, g |-> s[i].g, c |-> s[i].cl]],
   ebin |-> "errors", ferr |-> "asym", ul |-> "bool", flul |-> FALSE,
   cl |-> "col", fpt |-> fpt, wrong |-> "none", grp |-> TRUE]
=============================================================================
