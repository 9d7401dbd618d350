------------------------------ MODULE Recorded ------------------------------
(* Reading recorded files.  The Java class of the same name reads the files   *)
(* at the same time; it yields the same value as the definition below.        *)
EXTENDS Json, TLC

ReadAll(files) == TLCEval([x \in files |-> ndJsonDeserialize(x)])
=============================================================================
