-------------------------------- MODULE Ebl --------------------------------
(* Opacity lookup of extragalactic background light.  Redshifts are in units   *)
(* of 1e-4; the table has columns at 100, 200, ... 39900 and energies on a grid*)
(* from 1 GeV to 100 TeV.  A lookup is: nothing below 1 GeV or below redshift  *)
(* 0.01; the nearest column otherwise; the last energy beyond the table.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Cols, NE
Abs(x) == IF x < 0 THEN -x ELSE x
\* columns nearest to redshift z (two at a tie)
Nearest(cols, z) == {c \in cols : \A d \in cols : Abs(c - z) <= Abs(d - z)}
Tau(tab, z, j) ==           \* j = 0 below the table, 1..NE nodes, NE+1 beyond
  IF z < 100 \/ j = 0 THEN {0}
  ELSE {tab[c][IF j > NE THEN NE ELSE j] : c \in Nearest(Cols, z)}
=============================================================================
