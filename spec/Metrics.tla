------------------------------- MODULE Metrics -------------------------------
(* The documented metrics (docs/metrics.md), as functions of a state of the   *)
(* system: st = [stakes, costs: sequences over agents 0, 1, ..; pools:        *)
(* sequence of pools with id, own, pledge, stake, mar; sc; steps].            *)
EXTENDS Engine

Names == <<"Pool count", "Total pledge", "Mean pledge", "Median pledge", "Average pools per operator", "Max pools per operator",
  "Median pools per operator", "Average saturation rate", "Nakamoto coefficient", "Statistical distance", "Min-aggregate pledge",
  "Pledge rate", "Pool homogeneity factor", "Iterations", "Mean stake rank", "Mean cost rank", "Median stake rank", "Median cost rank",
  "Number of pool splitters", "Cost efficient stakeholders", "StakePairs", "Gini-id", "Gini-id stake", "Mean margin", "Median margin",
  "Stake per agent", "Stake per agent id", "Total delegated stake", "Total agent stake", "Operator count">>

Agents(st) == 0..(Len(st.stakes) - 1)
Col(st, f) == MapSeq(st.pools, LAMBDA p : p[f])
Pools(st) == DOMAIN st.pools
Operators(st) == {st.pools[i].own : i \in Pools(st)}
Owned(st, a) == {i \in Pools(st) : st.pools[i].own = a}
Controls(st, a) == DSum(MapSeq(SelectSeq(st.pools, LAMBDA p : p.own = a), LAMBDA p : p.stake))
Sorted(seq) == LET ix == DSortIdx([i \in DOMAIN seq |-> <<seq[i]>>]) IN TLCEval([i \in DOMAIN seq |-> seq[ix[i]]])
Mean(seq) == IF Len(seq) = 0 THEN Zero ELSE DDiv(DSum(seq), DInt(Len(seq)))
Median(seq) == IF Len(seq) = 0 THEN Zero
               ELSE LET q == Sorted(seq) n == Len(seq) IN
                    IF n % 2 = 1 THEN q[(n + 1) \div 2] ELSE DDiv(DAdd(q[n \div 2], q[n \div 2 + 1]), DInt(2))
Counts(st) == MapSeq(SetToSeq(Operators(st)), LAMBDA a : DInt(Cardinality(Owned(st, a))))
MaxOf(seq) == FoldLeft(LAMBDA acc, x : DMax(acc, x), seq[1], seq)

(* half a set of equal or exactly representable values can be told exactly from a majority; else rounding may decide *)
Exact(seq) == \A i \in DOMAIN seq : LET y == DMul(seq[i], DInt(1048576)) IN DRound(y, 0) = y
(* the numbers of entities that may be the fewest with a majority of the given amounts, which are sums of parts *)
Majority(amounts, parts) ==
  LET q == Sorted(amounts)
      n == Len(q)
      half == DDiv(DSum(q), DInt(2))
      Top(i) == DSum(SubSeq(q, n - i + 1, n))
      exact == Exact(parts)
      tops == TLCEval([i \in 1..n |-> Top(i)])
      Sure(i) == DLt(half, tops[i]) /\ (exact \/ ~DNear(half, tops[i], D("1e-12"), Zero))
      Maybe(i) == DLt(half, tops[i]) \/ (~exact /\ DNear(half, tops[i], D("1e-12"), Zero))
  IN {i \in 1..n : Maybe(i) /\ \A j \in 1..(i - 1) : ~Sure(j)}
Nakamoto(st) == IF Len(st.pools) = 0 THEN {0} ELSE Majority([a \in 1..Len(st.stakes) |-> Controls(st, a - 1)], Col(st, "stake"))

(* rank 1 is the highest stake / the lowest cost; among equals the lower id comes first *)
StakeRank(st, a) == 1 + Cardinality({b \in Agents(st) : \/ DLt(st.stakes[a + 1], st.stakes[b + 1])
                                                        \/ st.stakes[a + 1] = st.stakes[b + 1] /\ b < a})
CostRank(st, a) == 1 + Cardinality({b \in Agents(st) : \/ DLt(st.costs[b + 1], st.costs[a + 1])
                                                       \/ st.costs[a + 1] = st.costs[b + 1] /\ b < a})
Round(x) == DRound(x, 0)

Cmp(seq) == LET n == Len(seq) IN
  DSum(TLCEval([j \in 1..(n * n) |-> LET x == seq[((j - 1) \div n) + 1] y == seq[((j - 1) % n) + 1] IN DAbs(DSub(x, y))]))
(* half the relative mean absolute difference; -1 without pools *)
Gini(seq) == IF Len(seq) = 0 \/ DSum(seq) = Zero THEN D("-1")
             ELSE DDiv(Cmp(seq), DMul(DInt(2), DMul(DInt(Len(seq)), DSum(seq))))

Near(x, y) == DNear(x, y, D("1e-9"), D("1e-13"))
Num(v) == v.kind = "number"
IsNum(v, x) == v.kind = "number" /\ Near(v.x, x)
IsInt(v, n) == v.kind = "number" /\ v.x = DInt(n)
IsSeq(v, seq) == v.kind = "list" /\ Len(v.x) = Len(seq) /\ \A i \in DOMAIN seq : Near(v.x[i], seq[i])

(* is v the value of metric id in state st? *)
Right(id, st, v) ==
  LET n == Len(st.pools) IN
  CASE id = 1 -> IsInt(v, n)
    [] id = 2 -> IsNum(v, DSum(Col(st, "pledge")))
    [] id = 3 -> IsNum(v, Mean(Col(st, "pledge")))
    [] id = 4 -> IsNum(v, Median(Col(st, "pledge")))
    [] id = 5 -> IsNum(v, IF n = 0 THEN Zero ELSE DDiv(DInt(n), DInt(Cardinality(Operators(st)))))
    [] id = 6 -> IsNum(v, IF n = 0 THEN Zero ELSE MaxOf(Counts(st)))
    [] id = 7 -> IsNum(v, IF n = 0 THEN Zero ELSE Median(Counts(st)))
    [] id = 8 -> IsNum(v, Mean(MapSeq(st.pools, LAMBDA p : DDiv(p.stake, SatThr(st.sc, p.pledge)))))
    [] id = 9 -> \E m \in Nakamoto(st) : IsInt(v, m)
    [] id = 10 -> IsNum(v, IF n = 0 THEN Zero
                     ELSE DDiv(DSum([a \in 1..Len(st.stakes) |-> DAbs(DSub(Controls(st, a - 1), st.stakes[a]))]), DInt(2)))
    [] id = 12 -> IsNum(v, IF n = 0 THEN Zero ELSE DDiv(DSum(Col(st, "pledge")), DSum(Col(st, "stake"))))
    [] id = 13 -> IsNum(v, IF n = 0 THEN Zero ELSE DDiv(DSum(Col(st, "stake")), DMul(DInt(n), MaxOf(Col(st, "stake")))))
    [] id = 14 -> IsInt(v, st.steps)
    [] id = 15 -> IsNum(v, Round(Mean(MapSeq(st.pools, LAMBDA p : DInt(StakeRank(st, p.own))))))
    [] id = 16 -> IsNum(v, Round(Mean(MapSeq(st.pools, LAMBDA p : DInt(CostRank(st, p.own))))))
    [] id = 17 -> IsNum(v, Round(Median(MapSeq(st.pools, LAMBDA p : DInt(StakeRank(st, p.own))))))
    [] id = 18 -> IsNum(v, Round(Median(MapSeq(st.pools, LAMBDA p : DInt(CostRank(st, p.own))))))
    [] id = 19 -> IsInt(v, Cardinality({a \in Operators(st) : Cardinality(Owned(st, a)) > 1}))
    [] id = 20 -> \* agents within rounding of zero profit may or may not count, unless there is nothing to round
         LET pps == TLCEval([a \in 1..Len(st.stakes) |-> Potential(st.sc, st.stakes[a], st.costs[a])])
             exact == st.sc.id \in {0, 1, 2} /\ st.sc.a0 = Zero /\ Exact(<<st.sc.beta>>)
             sure == Cardinality({a \in DOMAIN pps : DLt(IF exact THEN Zero ELSE D("1e-15"), pps[a])})
             maybe == Cardinality({a \in DOMAIN pps : DLt(IF exact THEN Zero ELSE D("-1e-15"), pps[a])})
         IN \E m \in sure..maybe : IsInt(v, m)
    [] id = 21 -> v.kind = "pairs" /\ Len(v.x) = n
                  /\ \A i \in 1..n : LET p == st.pools[i] IN v.x[i] = <<p.id, p.own, st.stakes[p.own + 1], p.stake, p.mar>>
    [] id = 22 -> IsNum(v, Gini(Counts(st)))
    [] id = 23 -> IsNum(v, Gini(MapSeq(SetToSeq(Operators(st)), LAMBDA a : Controls(st, a))))
    [] id = 24 -> IsNum(v, Mean(Col(st, "mar")))
    [] id = 25 -> IsNum(v, Median(Col(st, "mar")))
    [] id = 26 -> IsSeq(v, [a \in 1..Len(st.stakes) |-> Controls(st, a - 1)])
    [] id = 27 -> v.kind = "map" /\ Len(v.x) = Len(st.stakes)
                  /\ \A i \in DOMAIN v.x : v.x[i][1] = i - 1 /\ Near(v.x[i][2], Controls(st, i - 1))
    [] id = 28 -> IsNum(v, DSum(Col(st, "stake")))
    [] id = 29 -> IsNum(v, DSum(st.stakes))
    [] id = 30 -> IsInt(v, Cardinality(Operators(st)))

(* an observed row: values of metrics with their names *)
RowClauses(st, row) ==
  UNION {LET r == row[i] IN
         (IF r.name = Names[r.id] THEN {} ELSE {<<"P17", "metric " \o ToString(r.id) \o " is not named " \o Names[r.id]>>})
         \cup (IF r.id = 11 \/ Right(r.id, st, r.v) THEN {} ELSE {<<"P17", "metric " \o ToString(r.id) \o " (" \o Names[r.id] \o ") is not its documented value">>})
         : i \in DOMAIN row}
=============================================================================
