-------------------------------- MODULE Scale --------------------------------
(* How emission scales.  The state of a source: amp, den, dist are powers of  *)
(* two of the particle amplitude, the target density and the distance (in kpc,*)
(* Lum: distance 0, i.e. the luminosity); w is the sequence of component      *)
(* weights (seed photon densities, or the weights of electron-electron and    *)
(* electron-proton bremsstrahlung) as powers of two, Zero if switched off.    *)
(* A component contributes c[j] (in 2^-20 of the sum of all at the reference  *)
(* state amp = den = dist = 0, w = all 0).                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Lum == 99
Zero == -99
RECURSIVE SumTo(_, _, _)
Part(w, c) == IF w = Zero THEN 0 ELSE IF w >= 0 THEN c * 2^w ELSE c \div 2^(-w)
SumTo(w, c, j) == IF j = 0 THEN 0 ELSE Part(w[j], c[j]) + SumTo(w, c, j - 1)
Total(w, c) == SumTo(w, c, Len(c))
\* exponent common to all energies; luminosities are in units of 4 pi kpc^2
Exponent(s) == s.amp + s.den - (IF s.dist = Lum THEN 0 ELSE 2 * s.dist)
\* seed = 0: all components; otherwise that one alone
Emission(s, c, seed) ==
  [e |-> Exponent(s), m |-> IF seed = 0 THEN Total(s.w, c) ELSE Part(s.w[seed], c[seed])]
=============================================================================
