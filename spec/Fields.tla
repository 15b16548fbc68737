-------------------------------- MODULE Fields --------------------------------
(* What a description of seed photon fields means.                             *)
(* An item is a standard name, or [name, temperature or energies, density,     *)
(* angle].  Its meaning is a shape <<kind, T, th>> (the emission for 1 eV/cm3,  *)
(* or for the unscaled table) and an amount, as a logarithm to the base 2 in    *)
(* millionths.                                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
\* temperatures: 2.72548, 30, 100, 3000, 25000 K
LogT == <<1446510, 4906891, 6643856, 11550747, 14609640>>
\* radiation constant in eV/cm3/K4
LogA == -7726338
BlackBody(T) == LogA + 4 * LogT[T]
Standard == {"CMB", "FIR", "NIR"}
\* [f, n, T, k, th, bad]: kind of item, name, which temperature (energy, table),
\* density 2^k eV/cm3 (Zero: that of the black body), which angle (0: none)
Zero == 99
Shape(i) ==
  CASE i.f = "name" -> <<"thermal", CASE i.n = "CMB" -> 1 [] i.n = "FIR" -> 2 [] OTHER -> 4, 0>>
    [] OTHER -> <<i.f, i.T, i.th>>
Amount(i) ==
  CASE i.f = "name" -> (CASE i.n = "CMB" -> BlackBody(1) [] i.n = "FIR" -> -1000000 [] OTHER -> 0)
    [] i.f = "thermal" /\ i.k = Zero -> BlackBody(i.T)
    [] OTHER -> i.k * 1000000
Name(i) == i.n
Unnamed == {"XYZ", "cmb", "CMB FIR", ""}
Valid(i) == i.bad = "no" /\ (i.f = "name" => i.n \in Standard)
\* what a wrong item is rejected with
Error(i) == IF i.bad \in {"negT", "negu", "negE", "negn"} THEN {"ValueError"}
            ELSE IF i.bad = "lengths" THEN {"ValueError", "TypeError"} ELSE {"TypeError"}
\* a whole description: how it is given, and its items
Accepted(c) == \A k \in 1..Len(c.items) : Valid(c.items[k])
Errors(c) == UNION {Error(c.items[k]) : k \in {j \in 1..Len(c.items) : ~Valid(c.items[j])}}
Distinct(items) == \A i, j \in 1..Len(items) : i # j => items[i].n # items[j].n
\* the field that a number (from 0) or a name stands for
ByNumber(c, k) == c.items[k + 1]
ByName(c, n) == c.items[CHOOSE k \in 1..Len(c.items) : c.items[k].n = n]
===============================================================================
