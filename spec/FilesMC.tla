------------------------------- MODULE FilesMC -------------------------------
(* Saving, reading and saving again what was read, model checked.              *)
EXTENDS Files, TLC
CONSTANTS Paths, Runs, L, Broken
VARIABLES files, got, asked, n
\* got: origin of the run last read; asked: paths for which overwriting was asked
vars == <<files, got, asked, n>>
Init == files = [p \in Paths |-> None] /\ got = None /\ asked = {} /\ n = 0
DoSave == /\ n < L /\ n' = n + 1
          /\ \E p \in Paths, c, s, again \in BOOLEAN : \E r \in IF again /\ got # None THEN {got} ELSE Runs :
               /\ files' = IF Broken THEN [files EXCEPT ![p] = IF s THEN r ELSE @]
                           ELSE Save(files, p, r, c, s)
               /\ asked' = IF c THEN asked \union {p} ELSE asked \ {p}
          /\ UNCHANGED got
Read == /\ n < L /\ n' = n + 1
        /\ \E p \in Paths : files[p] # None /\ got' = files[p]
        /\ UNCHANGED <<files, asked>>
Next == DoSave \/ Read
Spec == Init /\ [][Next]_vars
\* a file is replaced only if it did not exist or this was asked for
Guarded == [][\A p \in Paths : (files'[p] # files[p] /\ files[p] # None) => p \in asked']_vars
Kept == [][\A p \in Paths : files[p] # None => files'[p] # None]_vars
OneAtATime == [][\A p, q \in Paths : (files'[p] # files[p] /\ files'[q] # files[q]) => p = q]_vars
=============================================================================
