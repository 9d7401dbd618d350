------------------------------- MODULE MCTwins -------------------------------
(* Several simulations in one process, created, advanced round by round or    *)
(* run to their end in any interleaving, with other users of the process'     *)
(* random generators in between.  What a simulation has done is a function of *)
(* its own seed and of the number of its rounds only (P15).  The              *)
(* interleavings are printed and performed with real simulations              *)
(* (harness/twins.py).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sims,      \* number of simulations
          Len_,      \* rounds of each
          MaxNoise,  \* disturbances
          Shared,    \* deliberate defect: one generator for all simulations
          Emit

VARIABLES done,   \* rounds of each simulation, -1 before it exists, Len_ at its end
          drawn,  \* what each simulation has drawn from its generator
          glob,   \* position of the process' own generator
          noise, prog
vars == <<done, drawn, glob, noise, prog>>

S == 1..Sims
(* the n-th number of generator g *)
Draw(g, n) == <<g, n>>
Init == /\ done = [i \in S |-> -1] /\ drawn = [i \in S |-> << >>] /\ glob = 0 /\ noise = 0 /\ prog = << >>

Do(i, n, what) ==
  /\ drawn' = [drawn EXCEPT ![i] = @ \o [j \in 1..n |-> IF Shared THEN Draw(0, glob + j) ELSE Draw(i, Len(@) + j)]]
  /\ glob' = IF Shared THEN glob + n ELSE glob
  /\ prog' = Append(prog, <<what, i>>)
  /\ UNCHANGED noise
Create(i) == done[i] = -1 /\ (\A j \in S : j < i => done[j] >= 0) /\ done' = [done EXCEPT ![i] = 0] /\ Do(i, 1, "create")
Step(i)   == done[i] \in 0..(Len_ - 1) /\ done' = [done EXCEPT ![i] = @ + 1] /\ Do(i, 1, "step")
Run(i)    == done[i] \in 0..(Len_ - 1) /\ done' = [done EXCEPT ![i] = Len_] /\ Do(i, Len_ - done[i], "run")
Noise     == /\ noise < MaxNoise /\ noise' = noise + 1 /\ glob' = glob + 7
             /\ (prog # << >> => prog[Len(prog)][1] # "noise") /\ \E i \in S : done[i] < Len_
             /\ prog' = Append(prog, <<"noise", noise>>) /\ UNCHANGED <<done, drawn>>
Next == Noise \/ \E i \in S : Create(i) \/ Step(i) \/ Run(i)
Spec == Init /\ [][Next]_vars
View == <<done, drawn, glob, noise>>
Type == \A i \in S : done[i] \in -1..Len_
Alone(i, n) == [j \in 1..n |-> Draw(i, j)]
NonInterference == \A i \in S : drawn[i] = Alone(i, done[i] + 1)
Written == (Emit /\ \A i \in S : done[i] = Len_) => PrintT("BEHAVIOUR " \o ToJson(prog))
=============================================================================
