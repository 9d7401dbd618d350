------------------------------- MODULE Config -------------------------------
(* The parameters of an execution of main.py (P21): documented options, what  *)
(* their texts mean, which command lines are valid, and which parameters are  *)
(* in force then.  A value is a sequence of items: most options have one.     *)
(* given: a sequence of [o |-> option, w |-> <<text, ..>>]                    *)
EXTENDS Doubles, Integers, Sequences, FiniteSets, TLC

Reals == {"a0", "agent_profile_distr", "cost_min", "cost_max", "extra_pool_cost_fraction", "absolute_utility_threshold", "relative_utility_threshold"}
Naturals_ == {"n", "k", "iterations_after_convergence", "max_iterations"}
Flags == {"inactive_stake_fraction_known", "generate_graphs", "input_from_file", "profile_code"}
Options == Reals \cup Naturals_ \cup Flags \cup
  {"pareto_param", "inactive_stake_fraction", "seed", "metrics", "reward_scheme", "agent_activation_order", "stake_distr_source", "execution_id"}
(* those that are parameters of the simulation *)
Params == Options \ {"input_from_file", "profile_code"}
Several == {"k", "a0", "metrics"}
Profiles == 3

Default(o) ==
  CASE o = "n" -> <<"1000">> [] o = "k" -> <<"100">> [] o = "a0" -> <<"0.3">> [] o = "reward_scheme" -> <<"0">>
    [] o = "agent_profile_distr" -> <<"1", "0", "0">> [] o = "cost_min" -> <<"1e-5">> [] o = "cost_max" -> <<"1e-4">>
    [] o = "extra_pool_cost_fraction" -> <<"0.4">> [] o = "agent_activation_order" -> <<"random">>
    [] o = "absolute_utility_threshold" -> <<"1e-9">> [] o = "relative_utility_threshold" -> <<"0">>
    [] o = "stake_distr_source" -> <<"pareto">> [] o = "pareto_param" -> <<"2">> [] o = "inactive_stake_fraction" -> <<"0">>
    [] o = "iterations_after_convergence" -> <<"10">> [] o = "max_iterations" -> <<"2000">>
    [] o = "execution_id" -> <<"">> [] o = "generate_graphs" -> <<"yes">>
    [] o \in {"inactive_stake_fraction_known", "input_from_file", "profile_code"} -> <<"no">>
    [] o \in {"seed", "metrics"} -> << >>     \* none; the default metrics are documented in several ways

Choices_(o) == IF o = "agent_activation_order" THEN {"random", "sequential", "simultaneous", "semisimultaneous"}
               ELSE {"pareto", "flat", "disparity", "file"}

(* the item that a text stands for; << >>: it is not allowed *)
IntItem(t, Ok(_)) == LET q == IntText(t) IN IF q # << >> /\ Ok(q[1]) THEN <<"int", q[1]>> ELSE << >>
RealItem(t, Ok(_)) == LET q == NumText(t) IN IF q # << >> /\ Ok(q[1]) THEN <<"real", q[1]>> ELSE << >>
Zero_ == D("0")
Item(o, t) ==
  CASE o \in Naturals_ -> IntItem(t, LAMBDA v : v > 0)
    [] o = "seed" -> IntItem(t, LAMBDA v : v >= 0)
    [] o = "reward_scheme" -> IntItem(t, LAMBDA v : v \in 0..4)
    [] o = "metrics" -> IntItem(t, LAMBDA v : v \in 1..30)
    [] o \in Reals -> RealItem(t, LAMBDA v : DLe(Zero_, v))
    [] o = "pareto_param" -> RealItem(t, LAMBDA v : DLt(Zero_, v))
    [] o = "inactive_stake_fraction" -> RealItem(t, LAMBDA v : DLe(Zero_, v) /\ DLe(v, D("1")))
    [] o \in {"agent_activation_order", "stake_distr_source"} -> IF Lower(t) \in Choices_(o) THEN <<"text", Lower(t)>> ELSE << >>
    [] o \in Flags -> <<"flag", t = "yes">>
    [] OTHER -> <<"text", t>>
CountOK(o, w) == CASE o \in Several -> Len(w) >= 1 [] o = "agent_profile_distr" -> Len(w) = Profiles [] OTHER -> Len(w) = 1
Value(o, w) == [i \in DOMAIN w |-> Item(o, w[i])]
ValidWords(o, w) == CountOK(o, w) /\ \A i \in DOMAIN w : Item(o, w[i]) # << >>

Given(given, o) == \E i \in DOMAIN given : given[i].o = o
WordsOf(given, o) == IF Given(given, o) THEN given[CHOOSE i \in DOMAIN given : given[i].o = o].w ELSE Default(o)
Typed(given) == [o \in Options |-> Value(o, WordsOf(given, o))]
FromFile(given) == WordsOf(given, "input_from_file") = <<"yes">>
ValidTexts(given) == \A i \in DOMAIN given : ValidWords(given[i].o, given[i].w)
CostsOrdered(p) == DLe(p["cost_min"][1][2], p["cost_max"][1][2])

(* What comes of a command line, if the folder has the parameter file `file` (<<parameters>>, or << >> without a *)
(* readable one): << >> if it is rejected, otherwise the parameters in force.                                    *)
Outcome(given, file) ==
  IF ~ValidTexts(given) THEN << >>
  ELSE IF FromFile(given) THEN file
  ELSE LET p == Typed(given) IN IF CostsOrdered(p) THEN <<[o \in Params |-> p[o]]>> ELSE << >>

---------------------------------------------------------------------------
(* What was observed of one command: e.given, e.file as above, and                                                   *)
(* e.ended ("ok" or "refused"), e.wrote (did anything appear in the folder?), e.rounds, e.sims (simulations that were *)
(* created), and of the only simulation e.args (its exported parameters) and e.live (those it has).                   *)
If_(c, what) == IF c THEN {} ELSE {<<"P21", what>>}
Settled(p) == {o \in Params : ~(o \in {"seed", "metrics"} /\ p[o] = << >>)}
(* one value and a list of one value mean the same *)
CommandClauses(e) ==
  LET r == Outcome(e.given, e.file) IN
  IF r = << >>
  THEN If_(e.ended = "refused", "an invalid command line is accepted")
       \cup If_(~e.wrote /\ e.rounds = 0, "something is run or written before an invalid command line is rejected")
  ELSE LET p == r[1] IN
       If_(e.ended = "ok", "a valid command line is rejected")
       \cup (IF e.ended # "ok" THEN {} ELSE
         If_(e.sims = 1, "not exactly one simulation is run")
         \cup UNION {If_(o \in DOMAIN e.args /\ e.args[o] = p[o], "a parameter is exported with another value: " \o o) : o \in Settled(p)}
         \cup UNION {If_(e.live[o] = p[o], "a parameter does not take effect: " \o o) : o \in Settled(p) \cap DOMAIN e.live}
         \cup If_(p["seed"] = << >> \/ e.again = "" \/ e.again = e.digest, "the exported args.json does not lead to the same execution")
         \cup If_(WordsOf(e.given, "profile_code") = <<"yes">> <=> e.profiled, "profiling is not done as requested"))
=============================================================================
