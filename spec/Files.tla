-------------------------------- MODULE Files --------------------------------
(* Files of saved runs: a function from paths to contents (0: no file).         *)
EXTENDS Naturals, Sequences
None == 0
\* what saving run r at path p does
MayWrite(files, p, clobber, suffix) == suffix /\ (files[p] = None \/ clobber)
Save(files, p, r, clobber, suffix) ==
  IF MayWrite(files, p, clobber, suffix) THEN [files EXCEPT ![p] = r] ELSE files
=============================================================================
