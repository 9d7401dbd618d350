------------------------------ MODULE MCConfig ------------------------------
(* A user's session at the command line: options are typed one after another, *)
(* the command is started, its exported args.json may be put in place for     *)
(* later commands (or spoilt), and so on.  Sessions are printed, to be typed  *)
(* into the real main.py (harness/config.py).                                 *)
EXTENDS Config, Json, Randomization

CONSTANTS Opts,      \* options that are used
          MaxGiven,  \* options per command
          MaxCmds,   \* commands per session
          Rich,      \* all texts, or a few
          Broken,    \* deliberate defect
          Emit
VARIABLES given,   \* typed so far
          file,    \* args.json: "none", "spoilt" or "copied"
          saved,   \* its parameters
          last,    \* what came of the last command
          cmds     \* the session
vars == <<given, file, saved, last, cmds>>

All == Options
Few == {"k", "cost_min", "cost_max", "input_from_file", "seed"}

Big == {ToString(i) : i \in 1..40}
Dec == {ToString(i) \o "." \o ToString(j) : i \in 0..3, j \in {1, 25, 5, 75, 125}}
Long == {"0.12345", "0.123456789012", "0.0123456789012345", "0.00098765432101234"}
Sci == {ToString(i) \o "e-" \o ToString(j) : i \in {1, 3, 7}, j \in 1..9}
Pick(k, T) == IF Rich THEN RandomSubset(IF Cardinality(T) < k THEN Cardinality(T) ELSE k, T) ELSE T
OneOf(T) == UNION {{<<x>>} : x \in T}
Good(o) ==
  CASE o \in {"n"} -> IF Rich THEN {"1", "2", "5", "6", "7", "8", "9", "12", "700"} ELSE {"7"}
    [] o = "k" -> IF Rich THEN {"1", "2", "3", "5", "8", "20"} ELSE {"3"}
    [] o \in {"iterations_after_convergence", "max_iterations"} -> IF Rich THEN {"1", "2", "3", "5", "25", "400"} ELSE {"3"}
    [] o = "seed" -> IF Rich THEN {"0", "1", "42", "123456789"} \cup Pick(3, Big) ELSE {"4"}
    [] o = "reward_scheme" -> {"0", "1", "2", "3", "4"}
    [] o = "metrics" -> IF Rich THEN {ToString(i) : i \in 1..30} ELSE {"1"}
    [] o \in {"a0", "extra_pool_cost_fraction"} -> IF Rich THEN {"0", "2", "0.0", ".5", "1e0", "+0.7"} \cup Long \cup Pick(6, Dec) ELSE {"0.5"}
    [] o = "agent_profile_distr" -> {"0", "1", "2.5", "0.25", "0.123456789012"}
    [] o \in {"cost_min", "cost_max"} -> IF Rich THEN {"0", "0.002", "1e-5", "0.05", "1e-4"} \cup Pick(2, Long) \cup Pick(5, Sci) ELSE {"1e-4", "1e-3"}
    [] o \in {"absolute_utility_threshold", "relative_utility_threshold"} -> IF Rich THEN {"0", "0.0", "1e-12", "0.1"} \cup Pick(1, Long) \cup Pick(4, Sci) ELSE {"0"}
    [] o = "pareto_param" -> IF Rich THEN {"1", "2", "1.2", "3", "5e-1", "1.23456789012345"} ELSE {"2"}
    [] o = "inactive_stake_fraction" -> IF Rich THEN {"0", "0.1", "0.25", "0.5", ".3", "0.9"} \cup Pick(2, Long) ELSE {"0.5"}
    [] o = "agent_activation_order" -> Choices_(o) \cup {"Random", "Sequential", "SemiSimultaneous"}
    [] o = "stake_distr_source" -> Choices_(o) \cup {"Pareto", "Flat", "File"}
    [] o = "execution_id" -> {"a", "my-run", "x_1.5"}
    [] o \in Flags -> {"yes", "no"}
Bad(o) ==
  CASE o \in Naturals_ -> IF Rich THEN {"0", "-1", "-7", "2.5", "1e2", "many", ""} ELSE {"0"}
    [] o = "seed" -> {"-1", "0.5", "x"}
    [] o = "reward_scheme" -> {"5", "-1", "0.0", "cardano"}
    [] o = "metrics" -> {"0", "31", "-1", "1.5", "pools"}
    [] o \in Reals -> IF Rich THEN {"-0.1", "-1", "nan", "inf", "-inf", "Infinity", "x", ""} ELSE {"-1"}
    [] o = "pareto_param" -> {"0", "-2", "0.0", "nan", "inf", "x"}
    [] o = "inactive_stake_fraction" -> {"1.1", "-0.1", "nan", "2", "half"}
    [] o \in {"agent_activation_order", "stake_distr_source"} -> {"other", "", "parallel"}
    [] OTHER -> {}
Lists(o, T) ==
  CASE o \in Several -> {<<x>> : x \in Pick(3, T)} \cup {<<x, y>> : x, y \in Pick(2, T)} \cup {<<x, y, z>> : x, y, z \in Pick(2, T)}
    [] o = "agent_profile_distr" -> {<<x, y, z>> : x, y, z \in Pick(2, T)}
    [] OTHER -> {<<x>> : x \in T}

Init == given = << >> /\ file = "none" /\ saved = << >> /\ last = << >> /\ cmds = << >>

Has(o) == Given(given, o)
(* combinations that no documented range rules out, but that make no sense *)
Sane(g) ==
  LET p == Typed(g) IN
  ValidTexts(g) =>
    /\ p["stake_distr_source"][1][2] = "disparity" => p["n"][1][2] >= 5
    /\ \E i \in 1..Profiles : DLt(Zero_, p["agent_profile_distr"][i][2])
    /\ p["inactive_stake_fraction"][1][2] # D("1")
    /\ p["reward_scheme"][1][2] = 4 => \A i \in DOMAIN p["a0"] : DLt(D("1"), p["a0"][i][2])

Give ==
  /\ Len(cmds) < MaxCmds /\ Len(given) < MaxGiven
  /\ \E o \in {x \in Opts : ~Has(x)} :
       \E w \in Pick(1, Lists(o, Good(o))) :
         /\ (Rich /\ o = "input_from_file" /\ w = <<"yes">>) => Len(cmds) > 0
         /\ given' = Append(given, [o |-> o, w |-> w])
  /\ UNCHANGED <<file, saved, last, cmds>>
(* a mistake *)
Slip ==
  /\ Len(cmds) < MaxCmds /\ Len(given) < MaxGiven
  /\ ~FromFile(given) /\ ValidTexts(given)
  /\ Rich => RandomElement(1..5) = 1
  /\ \E o \in Pick(2, {x \in Opts : ~Has(x) /\ Bad(x) # {}}) :
       \E w \in Pick(1, {q \in Lists(o, Bad(o) \cup Pick(1, Good(o))) : ~ValidWords(o, q)}
                        \cup IF o = "agent_profile_distr" THEN {<<"1">>, <<"1", "1">>, <<"1", "1", "1", "1">>} ELSE {}) :
         given' = Append(given, [o |-> o, w |-> w])
  /\ UNCHANGED <<file, saved, last, cmds>>

Start ==
  /\ Len(cmds) < MaxCmds /\ Len(given) >= (IF Rich /\ Len(cmds) = 0 THEN 2 ELSE 0) /\ Sane(given)
  /\ FromFile(given) => ValidTexts(given)
  /\ LET r == Outcome(given, saved)
         out == CASE Broken = "" -> r
                  [] Broken = "file over options" -> IF saved # << >> THEN saved ELSE r
                  [] Broken = "options over file" -> IF FromFile(given) /\ saved # << >> THEN <<[saved[1] EXCEPT !["k"] = Typed(given)["k"]]>> ELSE r
                  [] Broken = "costs unchecked" -> IF ValidTexts(given) /\ ~FromFile(given) THEN <<[o \in Params |-> Typed(given)[o]]>> ELSE r
     IN last' = out
  /\ cmds' = Append(cmds, [given |-> given, file |-> file])
  /\ given' = << >>
  /\ UNCHANGED <<file, saved>>
(* the parameters of the last command become args.json *)
Copy == /\ last # << >> /\ given = << >> /\ Len(cmds) < MaxCmds
        /\ file' = "copied" /\ saved' = last /\ last' = << >> /\ UNCHANGED <<given, cmds>>
Reuse == /\ Rich /\ given = << >> /\ file = "copied" /\ Len(cmds) < MaxCmds
         /\ given' = <<[o |-> "input_from_file", w |-> <<"yes">>]>> /\ UNCHANGED <<file, saved, last, cmds>>
Spoil == /\ given = << >> /\ cmds # << >> /\ Len(cmds) < MaxCmds /\ file # "spoilt"
         /\ file' = "spoilt" /\ saved' = << >> /\ UNCHANGED <<given, last, cmds>>
Finish == /\ Emit /\ Len(cmds) = MaxCmds /\ cmds' = Append(cmds, [given |-> << >>, file |-> "end"]) /\ UNCHANGED <<given, file, saved, last>>

Next == Give \/ Slip \/ Start \/ Copy \/ Reuse \/ Spoil \/ Finish
Spec == Init /\ [][Next]_vars

(* what a user relies on *)
Cmd == cmds[Len(cmds)]
InRange == last # << >> => /\ \A o \in Params : ValidWords(o, WordsOf(Cmd.given, o)) \/ o \in {"seed", "metrics"}
                           /\ CostsOrdered(last[1])
Started == cmds # << >> /\ given = << >> /\ Cmd.file # "end"
AsTyped == (Started /\ last # << >> /\ ~FromFile(Cmd.given)) => \A o \in Params : last[1][o] = Value(o, WordsOf(Cmd.given, o))
AsSaved == (Started /\ last # << >> /\ FromFile(Cmd.given) /\ Cmd.file = file) => last[1] \in {saved[i] : i \in DOMAIN saved}
NoFile == (Started /\ FromFile(Cmd.given) /\ Cmd.file # "copied") => last = << >>
Written == (Emit /\ cmds # << >> /\ Cmd.file = "end") => PrintT("SESSION " \o ToJson(SubSeq(cmds, 1, MaxCmds)))
=============================================================================
