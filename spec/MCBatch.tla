------------------------------ MODULE MCBatch ------------------------------
(* A batch of T executions on W processes: executions are started in order,   *)
(* finish in any order, and their results are written to one file.  All       *)
(* orders are printed and performed (harness/batch.py).                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS T, W,
          Children,   \* deliberate defect: every execution writes its own row, and the header if it finds the file empty
          Emit

VARIABLES started, running, checked, order, file
vars == <<started, running, checked, order, file>>
Tasks == 1..T

Init == started = 0 /\ running = {} /\ checked = [i \in Tasks |-> FALSE] /\ order = << >> /\ file = << >>
Start == /\ started < T /\ Cardinality(running) < W
         /\ started' = started + 1 /\ running' = running \cup {started + 1}
         /\ UNCHANGED <<checked, order, file>>
(* the parent collects a result and writes its row; the file begins with a header *)
Finish(i) == /\ ~Children /\ i \in running /\ (started = T \/ Cardinality(running) = W)
             /\ running' = running \ {i} /\ order' = Append(order, i)
             /\ file' = (IF file = << >> THEN <<0>> ELSE file) \o <<i>>
             /\ UNCHANGED <<started, checked>>
(* an execution looks whether the file is empty, and writes later *)
Look(i) == /\ Children /\ i \in running /\ i \notin {order[j] : j \in DOMAIN order}
           /\ checked' = [checked EXCEPT ![i] = file = << >>] /\ order' = Append(order, i)
           /\ UNCHANGED <<started, running, file>>
Write(i) == /\ Children /\ i \in running /\ i \in {order[j] : j \in DOMAIN order}
            /\ file' = file \o (IF checked[i] THEN <<0, i>> ELSE <<i>>) /\ running' = running \ {i}
            /\ UNCHANGED <<started, checked, order>>
Next == Start \/ \E i \in Tasks : Finish(i) \/ Look(i) \/ Write(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Rows == {j \in DOMAIN file : file[j] # 0}
OneHeader == \A j \in DOMAIN file : file[j] = 0 <=> j = 1
EachOnce == \A i, j \in Rows : i # j => file[i] # file[j]
Complete == (started = T /\ running = {}) => {file[j] : j \in Rows} = Tasks
Finishes == <>(started = T /\ running = {})
Written == (Emit /\ started = T /\ running = {}) => PrintT("ORDER " \o ToJson(order))
=============================================================================
