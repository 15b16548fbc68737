------------------------------- MODULE Simplex -------------------------------
(* Nelder-Mead: which move follows from which function values.                *)
(* F is a sequence of the N+1 function values of the current simplex.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Dom(F) == 1..Len(F)
Best(F) == F[CHOOSE i \in Dom(F) : \A j \in Dom(F) : F[i] <= F[j]]
Worst(F) == F[CHOOSE i \in Dom(F) : \A j \in Dom(F) : F[i] >= F[j]]
Argmax(F) == {i \in Dom(F) : F[i] = Worst(F)}
Argmin(F) == {i \in Dom(F) : F[i] = Best(F)}
\* value of the second worst vertex
Second(F) == LET w == CHOOSE i \in Argmax(F) : TRUE IN
             LET R == Dom(F) \ {w} IN
             F[CHOOSE i \in R : \A j \in R : F[i] >= F[j]]
AfterReflect(F, fr) ==
  IF fr < Best(F) THEN "expand"
  ELSE IF fr < Second(F) THEN "accept"
  ELSE IF fr < Worst(F) THEN "outside" ELSE "inside"
Replace(F, w, f) == [F EXCEPT ![w] = f]
\* a contraction succeeds
Contracted(phase, F, fr, fc) == IF phase = "outside" THEN fc <= fr ELSE fc < Worst(F)
MaxI(a, b) == IF a > b THEN a ELSE b
Bound(N, maxfev) == MaxI(N + 1, maxfev - 1 + N + 2)
=============================================================================
