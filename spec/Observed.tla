------------------------------ MODULE Observed ------------------------------
(* Observations of what the code computes or writes at single moments, each   *)
(* with the state it was computed from.                                       *)
EXTENDS Metrics, Recorded, IOUtils
Pop == INSTANCE Population
Out == INSTANCE Outputs
Bat == INSTANCE Batch
Ser == INSTANCE Serial
Con == INSTANCE Config
Ses == INSTANCE Session

CONSTANT TraceFiles
Logs == ReadAll(TraceFiles)
VARIABLES file, l, bad, cov
Log == Logs[file]

If(c, p, what) == IF c THEN {} ELSE {<<p, what>>}
Count(f, tags) == [t \in tags |-> IF t \in DOMAIN f THEN f[t] + 1 ELSE 1] @@ f

(* one row of metrics, recorded for a state *)
Row(e) == RowClauses(e.st, e.row)
(* the whole series of a run: one entry per metric and round, for exactly the metrics asked for *)
Series(e) ==
  If(e.names = [i \in DOMAIN e.ids |-> Names[e.ids[i]]], "P17", "the series does not have exactly the selected metrics")
  \cup If(\A i \in DOMAIN e.lengths : e.lengths[i] = e.rounds, "P17", "not exactly one entry per metric and round")
  \cup If(e.same, "P17", "an entry of the series changed later")

(* two executions that have to be the same: digests of what each had done after each round *)
How(src) == CASE src = "interleaved" -> "an execution depends on what else happens in the process or on its place"
              [] src = "in one go" -> "running in one go and round by round give different executions"
              [] src = "from a file" -> "parameters from a file give another execution"
              [] src = "with the recorded seed" -> "the recorded seed does not reproduce the execution"
Twins(e) == If(e.a = e.b, "P15", How(e.src))
            \cup (IF e.src = "from a file" THEN If(e.a = e.b, "P21", "the exported args.json does not lead to the same execution") ELSE {})
Seeds(e) == If(Cardinality({e.populations[i] : i \in DOMAIN e.populations}) = Len(e.populations), "P15", "different seeds give the same population")

(* a command line, and the population that its parameters lead to *)
PopCfg(p, x) == [n |-> p["n"][1][2], src |-> p["stake_distr_source"][1][2], shape |-> p["pareto_param"][1][2], f |-> p["inactive_stake_fraction"][1][2],
                 cmin |-> p["cost_min"][1][2], cmax |-> p["cost_max"][1][2], weights |-> [i \in 1..3 |-> p["agent_profile_distr"][i][2]], values |-> x.values]
Command(e) ==
  Con!CommandClauses(e)
  \cup LET r == Con!Outcome(e.given, e.file) IN
       IF r = << >> \/ e.ended # "ok" \/ e.pop = << >> THEN {}
       ELSE {<<"P21", "the population is not as configured: " \o c[2]>> : c \in Pop!PopulationClauses(PopCfg(r[1], e.pop[1]), e.pop[1].o)}

Clauses(e) == CASE e.t = "row" -> Row(e)
                [] e.t = "series" -> Series(e)
                [] e.t = "twins" -> Twins(e)
                [] e.t = "seeds" -> Seeds(e)
                [] e.t = "population" -> Pop!PopulationClauses(e.cfg, e.o)
                [] e.t = "start" -> Out!StartClauses(e)
                [] e.t = "running" -> Out!RunningClauses(e)
                [] e.t = "output" -> Out!OutputClauses(e)
                [] e.t = "batch" -> Bat!BatchClauses(e)
                [] e.t = "serial" -> Ser!SerialClauses(e)
                [] e.t = "existing" -> Ser!ExistingClauses(e)
                [] e.t = "ending" -> Ser!TrackerClauses20(e)
                [] e.t = "command" -> Command(e)
                [] e.t = "session" -> Ses!SessionClauses(e)
                [] e.t = "crash" -> {<<"CRASH", e.err>>}
Tags(e) == {e.t \o " " \o e.src}
           \cup IF e.t = "row" THEN {IF Len(e.st.pools) = 0 THEN "row without pools" ELSE "row with pools"} ELSE {}
           \cup IF e.t = "output" THEN {IF Len(e.st.pools) = 0 THEN "output without pools" ELSE "output with pools",
                                        IF e.idle >= e.iac THEN "output of an equilibrium" ELSE "output without equilibrium"} ELSE {}
           \cup IF e.t = "session" THEN {"session with " \o x : x \in {e.events[i].m.m : i \in DOMAIN e.events} \cup UNION {{e.events[i].answers[j] : j \in DOMAIN e.events[i].answers} : i \in DOMAIN e.events}} ELSE {}

Init == file \in TraceFiles /\ l = 1 /\ bad = {} /\ cov = << >>
Next == /\ l <= Len(Log) + 1
        /\ l' = l + 1 /\ file' = file
        /\ IF l <= Len(Log)
           THEN /\ bad' = bad \cup {<<c[1], c[2], l>> : c \in Clauses(Log[l])}
                /\ cov' = Count(cov, Tags(Log[l]))
           ELSE /\ PrintT("RESULT " \o ToJson([file |-> file, events |-> Len(Log), bad |-> SetToSeq(bad),
                            cov |-> [i \in 1..Cardinality(DOMAIN cov) |-> <<SetToSeq(DOMAIN cov)[i], cov[SetToSeq(DOMAIN cov)[i]]>>]]))
                /\ UNCHANGED <<bad, cov>>
Spec == Init /\ [][Next]_<<file, l, bad, cov>>
View == <<file, l>>
=============================================================================
