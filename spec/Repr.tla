-------------------------------- MODULE Repr --------------------------------
(* Spectral representations: a spectrum is in differential or SED form; each  *)
(* unit belongs to a family (what is counted) and a form.  A spectrum at      *)
(* energies 4^k TeV holds one power of two per energy (exponents x), in the   *)
(* family's base unit of its form.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Families == {"energy", "flux", "power"}
Other == "other"
Forms == {"diff", "sed"}
FormOf(sed) == IF sed THEN "sed" ELSE "diff"
\* exponent of E in the factor
Factor(form, sed) == IF FormOf(sed) = form THEN 0 ELSE IF sed THEN 2 ELSE -2
\* E^2 at 4^k TeV is 2^(4k) TeV^2
Conv(x, ks, form, sed) == [i \in 1..Len(x) |-> x[i] + 2 * ks[i] * Factor(form, sed)]
OutUnit(fam, sed) ==
  CASE fam = "energy" -> IF sed THEN "erg" ELSE "1/TeV"
    [] fam = "flux"   -> IF sed THEN "erg/(s cm2)" ELSE "1/(s TeV cm2)"
    [] fam = "power"  -> IF sed THEN "erg/s" ELSE "1/(s TeV)"
=============================================================================
