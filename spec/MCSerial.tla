------------------------------ MODULE MCSerial ------------------------------
(* How executions get serial numbers and folders (P20): processes that start  *)
(* in one working directory, one file operation at a time, in any             *)
(* interleaving, each of which may be killed between any two operations.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS P,        \* number of executions
          Kills,    \* how many of them may be killed
          Lock,     \* do they take turns (FALSE: deliberate defect, also used to generate interleavings)
          Atomic,   \* is the file replaced in one go (FALSE: deliberate defect)
          First,    \* the number in the file at first, 0: no file
          Emit

VARIABLES file,    \* number in the file, 0: no file, -1: empty
          temp, lock, pc, num, folders, got, floor, killed, prog
vars == <<file, temp, lock, pc, num, folders, got, floor, killed, prog>>
Procs == 1..P
None == 0

Init == /\ file = First /\ temp = 0 /\ lock = None /\ pc = [p \in Procs |-> "idle"] /\ num = [p \in Procs |-> 0]
        /\ folders = {} /\ got = << >> /\ floor = [p \in Procs |-> 0] /\ killed = {} /\ prog = << >>
Highest == LET s == {got[i][2] : i \in DOMAIN got} \cup {First} IN CHOOSE n \in s : \A m \in s : m <= n
Step(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to] /\ prog' = Append(prog, p) /\ UNCHANGED killed

Begin(p) == /\ Step(p, "idle", "lock") /\ (\A q \in Procs : q < p => pc[q] # "idle")
            /\ floor' = [floor EXCEPT ![p] = Highest] /\ UNCHANGED <<file, temp, lock, num, folders, got>>
Acquire(p) == /\ Step(p, "lock", "read") /\ (Lock => lock = None) /\ lock' = (IF Lock THEN p ELSE lock)
              /\ UNCHANGED <<file, temp, num, folders, got, floor>>
Read(p) == /\ Step(p, "read", IF file = -1 THEN "failed" ELSE "temp") /\ num' = [num EXCEPT ![p] = file + 1]
           /\ UNCHANGED <<file, temp, lock, folders, got, floor>>
(* either a temporary file that replaces the other one, or the file itself, which is empty until it has been written *)
Open(p) == /\ Step(p, "temp", "write") /\ (IF Atomic THEN temp' = -1 /\ UNCHANGED file ELSE file' = -1 /\ UNCHANGED temp)
           /\ UNCHANGED <<lock, num, folders, got, floor>>
Write(p) == /\ Step(p, "write", "replace") /\ (IF Atomic THEN temp' = num[p] /\ UNCHANGED file ELSE file' = num[p] /\ UNCHANGED temp)
            /\ UNCHANGED <<lock, num, folders, got, floor>>
Replace(p) == /\ Step(p, "replace", "release") /\ (IF Atomic THEN file' = temp /\ temp' = 0 ELSE UNCHANGED <<file, temp>>)
              /\ UNCHANGED <<lock, num, folders, got, floor>>
Release(p) == /\ Step(p, "release", "mkdir") /\ lock' = (IF lock = p THEN None ELSE lock) /\ UNCHANGED <<file, temp, num, folders, got, floor>>
MkDir(p) == /\ Step(p, "mkdir", IF num[p] \in folders THEN "failed" ELSE "done")
            /\ folders' = folders \cup {num[p]} /\ got' = (IF num[p] \in folders THEN got ELSE Append(got, <<p, num[p]>>))
            /\ UNCHANGED <<file, temp, lock, num, floor>>
Kill(p) == /\ pc[p] \notin {"idle", "done", "failed", "dead"} /\ Cardinality(killed) < Kills
           /\ pc' = [pc EXCEPT ![p] = "dead"] /\ killed' = killed \cup {p} /\ prog' = Append(prog, -p)
           /\ lock' = (IF lock = p THEN None ELSE lock) /\ UNCHANGED <<file, temp, num, folders, got, floor>>
Next == \E p \in Procs : Begin(p) \/ Acquire(p) \/ Read(p) \/ Open(p) \/ Write(p) \/ Replace(p) \/ Release(p) \/ MkDir(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Begin(p) \/ Acquire(p) \/ Read(p) \/ Open(p) \/ Write(p) \/ Replace(p) \/ Release(p) \/ MkDir(p))

Fresh == \A i \in DOMAIN got : got[i][2] > floor[got[i][1]] /\ \A j \in DOMAIN got : i # j => got[i][2] # got[j][2]
Dense == \A i \in DOMAIN got : got[i][2] <= First + Cardinality({p \in Procs : pc[p] # "idle"})
NoneFails == \A p \in Procs : pc[p] # "failed"
Readable == file >= 0 \/ \E p \in Procs : pc[p] = "write"
AllStart == <>(\A p \in Procs : pc[p] \in {"done", "dead"})
Quiet == \A p \in Procs : pc[p] \in {"done", "dead", "failed"}
Written == (Emit /\ Quiet) => PrintT("SCHEDULE " \o ToJson(prog))
View == <<file, temp, lock, pc, num, folders, got, floor, killed>>
=============================================================================
