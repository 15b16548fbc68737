-------------------------------- MODULE Inputs --------------------------------
(* Which inputs each argument accepts.  A site is an argument of a constructor *)
(* or method; an input is what a caller might pass for it.                     *)
EXTENDS Naturals, Sequences, FiniteSets
S(types, sign, bare, none) == [types |-> types, sign |-> sign, bare |-> bare, none |-> none]
En == S({"energy"}, FALSE, FALSE, FALSE)      \* energies of any sign
EnP == S({"energy"}, TRUE, FALSE, FALSE)      \* energies that cannot be negative
EnN == S({"energy"}, FALSE, FALSE, TRUE)      \* optional energies
Dist == S({"differential energy"}, FALSE, FALSE, FALSE)
Dens == S({"number density"}, FALSE, FALSE, FALSE)
Len_ == S({"length"}, FALSE, FALSE, FALSE)
SiteTable == [
  PL_e0 |-> EnP, ECPL_e0 |-> EnP, ECPL_ec |-> EnP, BPL_e0 |-> EnP, BPL_eb |-> EnP,
  ECBPL_e0 |-> EnP, ECBPL_eb |-> EnP, ECBPL_ec |-> EnP, LP_e0 |-> EnP,
  TAB_e |-> EnP, EBL_z |-> S({"dimensionless"}, TRUE, TRUE, FALSE),
  PL_call |-> En, ECPL_call |-> En, BPL_call |-> En, ECBPL_call |-> En, LP_call |-> En,
  TAB_call |-> En, EBL_call |-> En,
  SYN_pd |-> Dist, IC_pd |-> Dist, BREM_pd |-> Dist, PP_pd |-> Dist, KEL_pd |-> Dist,
  SYN_fun |-> Dist, IC_fun |-> Dist, BREM_fun |-> Dist, PP_fun |-> Dist, KEL_fun |-> Dist,
  SYN_B |-> S({"magnetic flux density"}, FALSE, FALSE, FALSE),
  BREM_n0 |-> Dens, PP_nh |-> Dens, KEL_nh |-> Dens, KEL_Etrans |-> EnP,
  SYN_Eemin |-> En, SYN_Eemax |-> En, IC_Eemin |-> En, IC_Eemax |-> En,
  BREM_Eemin |-> En, BREM_Eemax |-> En, PP_Epmin |-> En, PP_Epmax |-> En,
  IC_T |-> S({"temperature", "energy"}, TRUE, FALSE, FALSE),
  IC_u |-> S({"pressure"}, TRUE, FALSE, FALSE),
  IC_theta |-> S({"angle"}, FALSE, FALSE, FALSE),
  IC_monoE |-> EnP, IC_monou |-> S({"pressure"}, TRUE, FALSE, FALSE),
  IC_arrE |-> EnP,
  IC_arrn |-> S({"pressure", "differential number density"}, TRUE, FALSE, FALSE),
  SYN_E |-> En, IC_E |-> En, BREM_E |-> En, PP_E |-> En, KEL_E |-> En, ICseed_E |-> En,
  SYN_d |-> Len_, IC_d |-> Len_, BREM_d |-> Len_, PP_d |-> Len_, KEL_d |-> Len_,
  ICseed_d |-> Len_,
  SET_We |-> En, SET_Wp |-> En, WE_lo |-> EnN, WE_hi |-> EnN, WP_lo |-> EnN, WP_hi |-> EnN]
Sites == DOMAIN SiteTable
Types == {"energy", "length", "time", "temperature", "number density",
          "differential energy", "magnetic flux density", "angle", "pressure",
          "differential number density", "dimensionless", "frequency", "mass", "power",
          "differential flux"}
\* form q: a quantity; else: no quantity at all
Inputs == {[form |-> "q", type |-> t, neg |-> n] : t \in Types, n \in BOOLEAN}
          \union {[form |-> f, type |-> "-", neg |-> n] : f \in {"bare"}, n \in BOOLEAN}
          \union {[form |-> f, type |-> "-", neg |-> FALSE] : f \in {"none", "text", "list"}}
\* the outcome of an input: ok, TypeError, ValueError, either, or free (not specified)
Outcome(site, in) == LET t == SiteTable[site] IN
  \* a temperature would make it a thermal photon field
  CASE in.type = "temperature" /\ site \in {"IC_monoE", "IC_arrE"} -> "free"
    [] in.form = "q" /\ in.type \notin t.types -> "TypeError"
    [] in.form = "none" -> IF t.none THEN "ok" ELSE "TypeError"
    [] in.form \in {"text", "list"} -> "either"
    [] in.form = "bare" /\ ~t.bare -> "TypeError"
    [] OTHER -> IF ~in.neg THEN "ok" ELSE IF t.sign THEN "ValueError" ELSE "free"
\* a call with several arguments: what it may do
Together(os) ==
  IF os = {"ok"} THEN {"ok"}
  ELSE (os \intersect {"TypeError", "ValueError"})
       \union (IF "either" \in os THEN {"TypeError", "ValueError"} ELSE {})
       \union (IF "free" \in os /\ os \subseteq {"ok", "free"} THEN {"ok", "free"} ELSE {})
=============================================================================
