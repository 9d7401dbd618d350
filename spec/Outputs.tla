------------------------------ MODULE Outputs ------------------------------
(* What an execution writes (docs/output.md), as functions of the state that  *)
(* it describes (P18).                                                        *)
(*                                                                            *)
(* A cell of a csv file is [t |-> text, num |-> whether it is a number,       *)
(* x |-> the number].  A parameter is [k |-> kind, x |-> value]; lists are    *)
(* sequences of parameters.                                                   *)
EXTENDS Metrics

If18(c, what) == IF c THEN {} ELSE {<<"P18", what>>}

N(x)   == [k |-> "number", x |-> x]
T(x)   == [k |-> "text", x |-> x]
B(x)   == [k |-> "bool", x |-> x]
L(seq) == [k |-> "list", x |-> seq]
None   == [k |-> "none", x |-> 0]
(* parameters that are not given *)
Defaults == [n |-> N(DInt(1000)), k |-> N(DInt(100)), a0 |-> N(D("0.3")), inactive_stake_fraction |-> N(Zero),
  inactive_stake_fraction_known |-> B(FALSE), relative_utility_threshold |-> N(Zero), seed |-> None, pareto_param |-> N(DInt(2)),
  cost_min |-> N(D("1e-5")), cost_max |-> N(D("1e-4")), extra_pool_cost_fraction |-> N(D("0.4")), iterations_after_convergence |-> N(DInt(10)),
  reward_scheme |-> N(DInt(0)), generate_graphs |-> B(TRUE), agent_profile_distr |-> L(<<N(One), N(Zero), N(Zero)>>)]
Required == DOMAIN Defaults \cup {"stake_distr_source", "absolute_utility_threshold", "max_iterations", "agent_activation_order", "metrics"}

(* given, written: functions from names to parameters *)
ArgsClauses(given, written) ==
  UNION {If18(p \in DOMAIN written /\ written[p] = given[p], "args.json does not have the value of " \o p) : p \in DOMAIN given}
  \cup UNION {If18(p \in DOMAIN written /\ written[p] = Defaults[p], "args.json does not have the default of " \o p) : p \in DOMAIN Defaults \ DOMAIN given}
  \cup UNION {If18(p \in DOMAIN written, "args.json does not list " \o p) : p \in Required}

Close(v, x) == v.k = "number" /\ DNear(v.x, x, D("1e-12"), D("1e-15"))
Whole(v, n) == v.k = "number" /\ v.x = DInt(n)
Std(seq) == LET m == Mean(seq) IN DSqrt(DDiv(DSum(MapSeq(seq, LAMBDA x : DMul(DSub(x, m), DSub(x, m)))), DInt(Len(seq))))
MinOf(seq) == FoldLeft(LAMBDA acc, x : DMin(acc, x), seq[1], seq)
Right20(st, v) == v.k = "number" /\ Right(20, st, [kind |-> "number", x |-> v.x])

(* initial-state-descriptors.json, d: a function from names to values *)
InitialClauses(e) ==
  LET d == e.initial st == e.st0
      Has(f) == f \in DOMAIN d
  IN If18(\A f \in {"Randomness seed", "Active stake", "Max stake", "Min stake", "Mean stake", "Median stake", "Standard deviation of stake",
                    "Nakamoto coefficient prior", "Cost efficient agents"} : Has(f), "initial-state-descriptors.json is not complete")
     \cup If18(Has("Randomness seed") => /\ d["Randomness seed"].k = "number"
                                         /\ "seed" \in DOMAIN e.given /\ e.given.seed.k = "number" => d["Randomness seed"] = e.given.seed, "the seed is not recorded")
     \cup If18(Has("Active stake") => Close(d["Active stake"], DSum(st.stakes)), "initial active stake is wrong")
     \cup If18(Has("Max stake") => Close(d["Max stake"], MaxOf(st.stakes)), "initial maximal stake is wrong")
     \cup If18(Has("Min stake") => Close(d["Min stake"], MinOf(st.stakes)), "initial minimal stake is wrong")
     \cup If18(Has("Mean stake") => Close(d["Mean stake"], Mean(st.stakes)), "initial mean stake is wrong")
     \cup If18(Has("Median stake") => Close(d["Median stake"], Median(st.stakes)), "initial median stake is wrong")
     \cup If18(Has("Standard deviation of stake") => d["Standard deviation of stake"].k = "number" /\ DNear(d["Standard deviation of stake"].x, Std(st.stakes), D("1e-9"), D("1e-14")),
               "initial standard deviation of stake is wrong")
     \cup If18(Has("Nakamoto coefficient prior") => \E m \in Majority(st.stakes, st.stakes) : Whole(d["Nakamoto coefficient prior"], m), "initial Nakamoto coefficient is wrong")
     \cup If18(Has("Cost efficient agents") => Right20(st, d["Cost efficient agents"]), "initial number of cost efficient agents is wrong")

(* cells *)
IsText(c, s) == c.t = s
IsCount(c, n) == c.num /\ c.x = DInt(n)
Is(c, x) == c.num /\ DNear(c.x, x, D("1e-12"), D("1.1e-15"))

PoolHeader == <<"Pool id", "Owner id", "Owner stake", "Pool Pledge", "Pool stake", "Owner cost", "Pool cost", "Pool margin", "Pool PP", "Pool desirability">>
Texts(row) == [i \in DOMAIN row |-> row[i].t]
PoolRow(st, p, c) == /\ Len(c) = Len(PoolHeader)
                     /\ IsCount(c[1], p.id) /\ IsCount(c[2], p.own) /\ Is(c[3], st.stakes[p.own + 1]) /\ Is(c[4], p.pledge) /\ Is(c[5], p.stake)
                     /\ Is(c[6], st.costs[p.own + 1]) /\ Is(c[7], p.cost) /\ Is(c[8], p.mar) /\ Is(c[9], p.pp) /\ Is(c[10], p.des)
PoolsFile(st, rows) ==
  If18(Len(rows) > 0 /\ Texts(rows[1]) = PoolHeader, "header of the final pools")
  \cup If18(Len(rows) = Len(st.pools) + 1, "the final pools are not listed exactly once each")
  \cup If18(\A i \in Pools(st) : \E j \in 2..Len(rows) : PoolRow(st, st.pools[i], rows[j]), "a final pool is not described as it is")

AgentHeader == <<"Agent id", "Initial stake", "Cost", "Potential Profit", "Status", "Pools owned", "Total pool stake", "Pool splitting profit", "Profitable pool splitter">>
SplitProfit(st, a) ==
  DSub(DMul(DMul(DAdd(One, st.sc.a0), DSub(One, st.phi)), st.costs[a + 1]), DMul(Pot, DMul(st.stakes[a + 1], st.sc.a0)))
Status(st, a) == IF st.prof[a + 1] = 2 THEN "Abstainer" ELSE IF Owned(st, a) # {} THEN "Operator" ELSE "Delegator"
AgentRow(st, a, c) ==
  LET sp == SplitProfit(st, a) IN
  /\ Len(c) = Len(AgentHeader)
  /\ IsCount(c[1], a) /\ Is(c[2], st.stakes[a + 1]) /\ Is(c[3], st.costs[a + 1])
  /\ c[4].num /\ DNear(c[4].x, Potential(st.sc, st.stakes[a + 1], st.costs[a + 1]), D("1e-9"), D("2e-15"))
  /\ IsText(c[5], Status(st, a)) /\ IsCount(c[6], Cardinality(Owned(st, a))) /\ Is(c[7], Controls(st, a))
  /\ c[8].num /\ DNear(c[8].x, sp, D("1e-9"), D("1e-15"))
  /\ c[9].t \in (IF DLt(D("1e-15"), sp) THEN {"YES"} ELSE IF DLt(sp, D("-1e-15")) THEN {"NO"} ELSE {"YES", "NO"})
AgentsFile(st, rows) ==
  If18(Len(rows) > 0 /\ Texts(rows[1]) = AgentHeader, "header of the final stakeholders")
  \cup If18(Len(rows) = Len(st.stakes) + 1, "the final stakeholders are not listed exactly once each")
  \cup (IF Len(rows) # Len(st.stakes) + 1 THEN {} ELSE
        If18(\A a \in Agents(st) : AgentRow(st, a, rows[a + 2]), "a stakeholder is not described as it is"))

(* metrics.csv: a row per round with the values of the series *)
CellIs(c, v) == IF v.kind = "number" THEN c.num /\ c.x = v.x ELSE c.t = v.text
MetricsFile(e) ==
  LET rows == e.files.metrics n == Len(e.series) names == [i \in 1..n |-> Names[e.ids[i]]] IN
  If18(Len(rows) > 0 /\ Texts(rows[1]) = <<"Round">> \o names, "header of the metrics")
  \cup If18(Len(rows) = e.rounds + 1, "metrics do not have one row per round")
  \cup (IF Len(rows) # e.rounds + 1 \/ \E i \in 1..n : Len(e.series[i]) # e.rounds THEN {} ELSE
        If18(\A r \in 1..e.rounds : Len(rows[r + 1]) = n + 1 /\ IsCount(rows[r + 1][1], r - 1)
                                     /\ \A i \in 1..n : CellIs(rows[r + 1][i + 1], e.series[i][r]), "a value of the metrics is not that of its round"))

FinalClauses(e) ==
  LET d == e.final st == e.st Has(f) == f \in DOMAIN d IN
  If18(Has("Equilibrium reached") /\ d["Equilibrium reached"] = T(IF e.idle >= e.iac THEN "Yes" ELSE "No"), "it is not stated truthfully whether an equilibrium was reached")
  \cup If18(Has("Pool count") /\ Whole(d["Pool count"], Len(st.pools)), "final pool count is wrong")
  \cup If18(Has("Operator count") /\ Whole(d["Operator count"], Cardinality(Operators(st))), "final operator count is wrong")
  \cup If18(Has("Nakamoto coefficient") /\ \E m \in Nakamoto(st) : Whole(d["Nakamoto coefficient"], m), "final Nakamoto coefficient is wrong")
  \cup If18(Has("Total pledge fraction") /\ d["Total pledge fraction"].k = "number"
            /\ DNear(d["Total pledge fraction"].x, DSum(Col(st, "pledge")), Zero, D("0.000051")), "final total pledge is wrong")

TrackerHeader == <<"id", "n", "k", "a0", "phi", "activation order", "reward function", "descriptor", "-", "#pools", "#operators", "nakamoto coeff", "comments">>
TrackerClauses(e) ==
  LET st == e.st c == e.tracker.row IN
  If18(Texts(e.tracker.header) = TrackerHeader, "header of the tracker")
  \cup If18(e.tracker.added = 1 /\ e.tracker.headers = 1, "the tracker does not get exactly one row per execution")
  \cup If18(/\ Len(c) = Len(TrackerHeader)
            /\ IsCount(c[1], e.seq) /\ IsCount(c[2], Len(st.stakes)) /\ c[3].num /\ DEq(c[3].x, st.sck) /\ Is(c[4], st.sc.a0) /\ Is(c[5], st.phi)
            /\ IsText(c[6], e.order) /\ IsText(c[7], e.scheme) /\ IsText(c[8], e.name)
            /\ IsCount(c[10], Len(st.pools)) /\ IsCount(c[11], Cardinality(Operators(st)))
            /\ \E m \in Nakamoto(st) : IsCount(c[12], m), "the row of the tracker does not describe the execution")

(* figures: one per metric whose values are numbers or lists; lines: those drawn, as [x, y] *)
HasLine(f, xs, ys) == \E i \in DOMAIN f.lines : f.lines[i].x = xs /\ f.lines[i].y = ys
FigureClauses(e) ==
  LET Plottable == {i \in DOMAIN e.series : e.rounds > 0 /\ e.series[i][1].kind = "number"}
      Stacks == {i \in DOMAIN e.series : e.rounds > 0 /\ e.series[i][1].kind = "list"}
      Name_(i) == e.eid \o "-" \o Names[e.ids[i]] \o ".png"
  IN If18(e.graphs \/ e.figures = << >>, "figures although graphs are off")
     \cup (IF ~e.graphs THEN {} ELSE
        If18(\A i \in Plottable : \E j \in DOMAIN e.figures : e.figures[j].name = Name_(i) /\ e.figures[j].bytes > 0, "a plottable metric has no figure")
        \cup If18(Stacks # {} => \E j \in DOMAIN e.figures : e.figures[j].name = "poolDynamics-" \o e.eid \o ".png" /\ e.figures[j].bytes > 0, "the pool dynamics have no figure")
        \cup If18(Len(e.figures) = Cardinality(Plottable) + (IF Stacks # {} THEN 1 ELSE 0), "not exactly one figure per plottable metric")
        \cup If18(\A i \in Plottable : \A j \in DOMAIN e.figures : e.figures[j].name = Name_(i) =>
                    \E q \in DOMAIN e.figures[j].lines : e.figures[j].lines[q].y = [r \in 1..e.rounds |-> e.series[i][r].x], "a figure does not show the series of its metric")
        \cup If18(\A i \in Plottable : \A j \in DOMAIN e.figures : e.figures[j].name = Name_(i) =>
                    /\ \A q \in DOMAIN e.equilibria : \E g \in DOMAIN e.figures[j].lines : e.figures[j].lines[g].x = <<DInt(e.equilibria[q]), DInt(e.equilibria[q])>>
                    /\ \A q \in DOMAIN e.pivots : HasLine(e.figures[j], <<DInt(e.pivots[q])>>, <<e.series[i][e.pivots[q] + 1].x>>),
                  "a figure does not mark equilibria and changes of parameters"))

AtStart == {"args.json", "initial-state-descriptors.json"}
Final(eid) == {"final-state-pools-" \o eid \o ".csv", "final-state-stakeholders-" \o eid \o ".csv", "metrics.csv", "final-state-descriptors.json", "simulation-object.pkl"}
Premature(name) == name = "simulation-object.pkl" \/ (Len(name) >= 5 /\ SubSeq(name, 1, 5) = "final")

(* an execution that has started *)
StartClauses(e) ==
  If18(AtStart \subseteq {e.names[i] : i \in DOMAIN e.names}, "the files that characterise the input are not there from the start")
  \cup (IF AtStart \subseteq {e.names[i] : i \in DOMAIN e.names} THEN ArgsClauses(e.given, e.args) \cup InitialClauses(e) ELSE {})
  \cup If18(\A i \in DOMAIN e.names : ~Premature(e.names[i]), "final state written before termination")
(* one that is still running *)
RunningClauses(e) == If18(\A i \in DOMAIN e.names : ~Premature(e.names[i]), "final state written before termination")
(* one that has terminated *)
OutputClauses(e) ==
  LET names == {e.names[i] : i \in DOMAIN e.names} IN
  If18((AtStart \cup Final(e.eid)) \subseteq names, "a documented file is missing")
  \cup (IF ~((AtStart \cup Final(e.eid)) \subseteq names) THEN {} ELSE
        If18(e.intact, "the files of the start changed later")
        \cup PoolsFile(e.st, e.files.pools) \cup AgentsFile(e.st, e.files.agents) \cup MetricsFile(e) \cup FinalClauses(e)
        \cup If18(e.pickled = e.state, "the pickled simulation is not the final one"))
  \cup TrackerClauses(e) \cup FigureClauses(e)
=============================================================================
