-------------------------------- MODULE Form --------------------------------
(* Forms in which energies are passed.  A request is a sequence q of energy   *)
(* numbers in some form and unit.  Only scalars give scalars; requests that   *)
(* are no energies are refused.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Good == {"array", "scalar", "dict", "qtable", "table", "listofq", "column", "float32free", "ro"}
NotEnergies == {"number", "plainarray", "list", "dimensionless", "length", "time", "frequency",
  "perenergy", "temperature", "dict_without_energy", "dict_without_unit", "dict_wrong_unit",
  "table_without_energy", "table_without_unit", "table_wrong_unit", "none", "text"}
Forms == Good \cup NotEnergies
Accepts(form) == form \in Good
\* shape of the answer: 0 for a scalar, otherwise the number of values
Scalar == -1
Shape(form, q) == IF form = "scalar" THEN Scalar ELSE Len(q)
Answer(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
=============================================================================
