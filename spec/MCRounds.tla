------------------------------ MODULE MCRounds ------------------------------
(* Rounds with every pattern of idle and active rounds, for all small        *)
(* configurations: invariants of P13 and P14, termination, and the           *)
(* behaviours (one per configuration and pattern) that harness/rounds.py     *)
(* replays on the code.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS MaxIac, MaxPhases, MaxMaxIt, Emit

R == INSTANCE Rounds

VARIABLES x,     \* state of the run
          cfg,
          hist   \* was the i-th round (of activation) idle?
vars == <<x, cfg, hist>>

Limits(n) == {[ph \in 0..(n - 1) |-> m] : m \in 1..MaxMaxIt}
             \cup (IF n = 1 THEN {} ELSE {[ph \in 0..(n - 1) |-> IF ph = 0 THEN MaxMaxIt ELSE m] : m \in 1..(MaxMaxIt - 1)})

Init == /\ x = R!Begin
        /\ \E n \in 1..MaxPhases, i \in 1..MaxIac :
             \E m \in Limits(n) : cfg = [iac |-> i, nphases |-> n, maxit |-> m, changes |-> 1..(n - 1)]
        /\ hist = << >>

Round == /\ x.running
         /\ IF R!Activates(x, cfg)
            THEN \E idle \in BOOLEAN : x' = R!AfterRound(x, idle, cfg) /\ hist' = Append(hist, idle)
            ELSE x' = R!AfterRound(x, TRUE, cfg) /\ UNCHANGED hist
         /\ UNCHANGED cfg
Spec == Init /\ [][Round]_vars /\ WF_vars(Round)

---------------------------------------------------------------------------
(* the properties, stated on the history and independently of Rounds *)
IdleSince(n) == \* number of idle rounds at the end of the first n
  CHOOSE k \in 0..n : /\ \A i \in (n - k + 1)..n : hist[i]
                      /\ k = n \/ ~hist[n - k]
PhaseStarts == <<0>> \o x.piv   \* rounds after which a phase began
Type == x.steps = Len(hist) /\ x.phase \in 0..(cfg.nphases - 1) /\ x.rows \in {x.steps, x.steps + 1}
(* an equilibrium is reported as the round of the last move (counted from 0), or the last round of the phase before *)
EqOK == \A i \in DOMAIN x.eq :
   LET endr == x.eq[i] + cfg.iac     \* the round in which it was found
       start == PhaseStarts[i]
   IN /\ \A j \in (x.eq[i] + 2)..(endr + 1) : hist[j]
      /\ x.eq[i] + 1 > start => ~hist[x.eq[i] + 1]
      /\ x.eq[i] + 1 >= start
(* the end: either the last phase is at equilibrium or the limit is reached *)
EndOK == ~x.running =>
   \/ x.conv /\ x.phase = cfg.nphases - 1 /\ Len(x.eq) = cfg.nphases /\ x.steps = x.eq[Len(x.eq)] + cfg.iac + 1
   \/ ~x.conv /\ x.steps >= cfg.maxit[x.phase] /\ Len(x.eq) = x.phase
GoesOn == x.running => x.phase = Len(x.eq) /\ (IdleSince(Len(hist)) < cfg.iac \/ x.idle < cfg.iac)
Conv == x.conv = (Len(x.eq) = cfg.nphases)
Terminates == <>(~x.running)
Bound == x.steps <= Max({cfg.maxit[p] : p \in DOMAIN cfg.maxit})
NoReturn == [][x'.phase \in {x.phase, x.phase + 1} /\ x'.steps >= x.steps /\ x.running]_vars

Written == (Emit /\ ~x.running) =>
  PrintT("BEHAVIOUR " \o ToJson([iac |-> cfg.iac, nphases |-> cfg.nphases, maxit |-> [i \in 1..cfg.nphases |-> cfg.maxit[i - 1]],
                                 hist |-> hist, x |-> x]))
=============================================================================
