------------------------------- MODULE Rounds -------------------------------
(* The life of a simulation: rounds, idle rounds, equilibria, phases, end.   *)
(*                                                                           *)
(* The state is a record                                                     *)
(*   steps : rounds of activation so far     rows : data points collected    *)
(*   idle  : consecutive idle rounds         phase : current phase (from 0)  *)
(*   eq    : equilibrium rounds reported     piv  : rounds of phase changes  *)
(*   running, conv : is it running, does it report convergence               *)
(* cfg = [iac, nphases, maxit : phase -> rounds, changes : set of phases in  *)
(* which some parameter has a new value].                                    *)
EXTENDS Integers, Sequences

Begin == [steps |-> 0, rows |-> 0, idle |-> 0, phase |-> 0, eq |-> << >>, piv |-> << >>, running |-> TRUE, conv |-> FALSE]

(* does the next round activate the agents at all? *)
Activates(x, cfg) == x.steps < cfg.maxit[x.phase]

Converges(x, wasIdle, cfg) == wasIdle /\ x.idle + 1 >= cfg.iac

(* the state after a round in which agents moved (wasIdle = FALSE) or not *)
AfterRound(x, wasIdle, cfg) ==
  LET y == [x EXCEPT !.rows = @ + 1]
  IN IF ~Activates(x, cfg) THEN [y EXCEPT !.running = FALSE]
     ELSE LET z == [y EXCEPT !.steps = @ + 1, !.idle = IF wasIdle THEN @ + 1 ELSE 0]
          IN IF ~Converges(x, wasIdle, cfg) THEN z
             ELSE LET e == [z EXCEPT !.eq = Append(@, x.steps - cfg.iac)]
                  IN IF x.phase = cfg.nphases - 1 THEN [e EXCEPT !.running = FALSE, !.conv = TRUE]
                     ELSE [e EXCEPT !.phase = @ + 1, !.idle = 0,
                                    !.piv = IF x.phase + 1 \in cfg.changes THEN Append(@, z.steps) ELSE @]
=============================================================================
