-------------------------------- MODULE Emit --------------------------------
(* Emission of one kind of particle of one energy.  A state is a process and   *)
(* its parameters on a lattice of powers of two; a query is a photon energy on *)
(* a lattice tied to the state (in units of the characteristic energy of the   *)
(* process).  The meaning of a query: 1e6 * ln(E dN/dE dt) per particle in the *)
(* natural unit of the process, from the published kernels (EmitTab.tla) and   *)
(* the similarity laws below.                                                  *)
(*                                                                             *)
(*  SYN  gamma = 2^g, B = 2^b G, E = Ec 2^(k/2)              (random field)     *)
(*  IC   gamma = 2^g, gamma kT = 2^j mc2, u = 2^m eV/cm3, E = 4 gamma^2 kT 2^-k *)
(*       fld: "th" black body by temperature, "tab" the same as a table,        *)
(*       "mono" one energy, "a60".."a120" black body from one direction         *)
(*  BREM gamma = 2^g (tgt "ep", "ee"), gamma = 1 + 2^s (tgt "nr"), n = 2^m      *)
(*  PP   T = 1.5 2^s GeV, one of four interaction models, nuclei or not,        *)
(*       E = m_pi/2 2^k                                                         *)
(*  KEL  protons E^-alpha, E = 2^k TeV, transition 2^t TeV                      *)
(* d = 0: intrinsic; d > 0: at a distance of 2^d kpc                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, EmitTab

LN2 == 693147
NONE == -777777775                                      \* ln 0
Procs == {"SYN", "IC", "BREM", "PP", "KEL"}
Fields == {"th", "tab", "mono", "a60", "a90", "a120"}
Targets == {"ep", "ee", "nr"}
Models == {"Geant4", "Pythia8", "SIBYLL", "QGSJET"}
Js == {2 * i : i \in -10..4}

\* E < gamma mc2:  4 2^j 2^-k < 1
Below(s, k) == s.j - k < -2
Lattice(s) ==
  CASE s.proc = "SYN"  -> -40..8
    \* a single photon energy: not exactly at the limit 4w/(1 + 4w)
    [] s.proc = "IC"   -> {k \in -3..12 : Below(s, k) /\ (s.fld = "mono" =>
                             k # 0 /\ ~(k = 1 /\ s.j = -2))}
    [] s.proc = "BREM" -> IF s.tgt = "nr" THEN 1..16 ELSE 1..20
    [] s.proc = "PP"   -> -24..24
    [] s.proc = "KEL"  -> -14..6

IcTab(f) == CASE f \in {"th", "tab"} -> IcT [] f = "mono" -> IcM
              [] f = "a60" -> Ic60 [] f = "a90" -> Ic90 [] f = "a120" -> Ic120
PpTab(m) == CASE m = "Geant4" -> PpGeant4 [] m = "Pythia8" -> PpPythia8
              [] m = "SIBYLL" -> PpSIBYLL [] m = "QGSJET" -> PpQGSJET
Plus(x, y) == IF x = NONE THEN NONE ELSE x + y
Abs(x) == IF x < 0 THEN -x ELSE x

\* Kelner et al.: the full calculation from the transition on, the delta
\* approximation below; normalised to the full one if the request spans both
Spans(s, ks) == (\E i \in 1..Len(ks) : ks[i] < s.t) /\ (\E i \in 1..Len(ks) : ks[i] >= s.t)
KelH(s, k) == KelHi[s.al][k + 6]
KelL(s, k) == KelLo[s.al][k + 15]
Kel(s, ks, k) ==
  IF k >= s.t THEN KelH(s, k)
  ELSE KelL(s, k) + (IF Spans(s, ks) THEN KelH(s, s.t) - KelL(s, s.t) ELSE 0)

Kernel(s, ks, k) ==
  CASE s.proc = "SYN"  -> SynT[k + 41]
    [] s.proc = "IC"   -> IcTab(s.fld)[(s.j + 22) \div 2][k + 4]
    [] s.proc = "BREM" -> (CASE s.tgt = "ep" -> BrP[(s.g - 1) \div 2][k]
                             [] s.tgt = "ee" -> BrE[(s.g - 1) \div 2][k]
                             [] s.tgt = "nr" -> BrN[s.s + 6][k])
    \* pi0 decay: dN/dE is symmetric about m_pi/2 in the logarithm
    [] s.proc = "PP"   ->
         Plus(PpTab(s.mod)[s.s + 3][Abs(k) + 1],
              (IF s.nuc THEN NucT[s.s + 3] ELSE 0) + (IF k < 0 THEN 2 * k * LN2 ELSE 0))
    [] s.proc = "KEL"  -> Kel(s, ks, k)
\* linear in the field or target, inverse square in the distance
Scale(s) == ((IF s.proc = "SYN" THEN s.b ELSE s.m) - 2 * s.d) * LN2
Value(s, ks, k) == Plus(Kernel(s, ks, k), Scale(s))

\* accuracy stated by the documentation, else of the numerical integration
Tol(s, k) == CASE s.proc = "SYN" -> 2000
            [] s.proc = "IC" /\ s.fld = "mono" -> 100
            [] s.proc = "IC" /\ s.fld = "tab" /\ k >= 0 -> 2000
            \* the high-energy cut of the kernel falls between nodes of the table
            [] s.proc = "IC" /\ s.fld = "tab" -> 40000
            [] s.proc = "IC" -> 10000
            [] s.proc = "KEL" -> 2000
            [] OTHER -> 100
\* exponentially small tails are only required to be that
FLOOR == -15000000
Agrees(s, ks, k, v) ==
  IF Kernel(s, ks, k) < FLOOR THEN v < FLOOR + Scale(s) + 3000000
  ELSE Abs(v - Value(s, ks, k)) <= Tol(s, k)

\* radiated power over 4/3 sigma_T c U gamma^2
Power(s) == IF s.proc = "IC" /\ s.fld # "mono" THEN KnT[(s.j + 22) \div 2] ELSE 0
PowerTol(s) == IF s.proc = "SYN" THEN 3000 ELSE 10000
HasPower(s) == s.proc = "SYN" \/ (s.proc = "IC" /\ s.fld \in {"th", "tab"})
=============================================================================
