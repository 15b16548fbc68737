-------------------------------- MODULE Wrap --------------------------------
(* Sherpa wrappers: a vector of parameter values (indices of values; for the    *)
(* amplitude an exponent of two), evaluated on grids with caching.              *)
EXTENDS Naturals, Integers, Sequences
AMPL == 3
Put(st, k, v) == [st EXCEPT ![k] = v]
\* a guess from data that are 2^m times the model changes the amplitude only
Guessed(st, m) == [st EXCEPT ![AMPL] = @ + m]
=============================================================================
