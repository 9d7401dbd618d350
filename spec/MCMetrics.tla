------------------------------ MODULE MCMetrics ------------------------------
(* All small systems: pools open one after the other.  Relations that hold    *)
(* between the documented metrics in every state; the states are printed, for *)
(* the code to compute its metrics on them (harness/metrics.py).              *)
EXTENDS Metrics, Json
CONSTANTS N, MaxPools, MaxStake, Emit, Broken
VARIABLE st
Unit_ == D("0.0625")
U(n) == DMul(DInt(n), Unit_)
Stakes == {s \in [1..N -> 1..2] : TRUE}
Init == \E s \in Stakes, c \in [1..N -> {"0.001", "0.002"}] :
          /\ \A i \in 1..(N - 1) : c[i] = "0.002" => c[i + 1] = "0.002"   \* enough orders of costs
          /\ st = [stakes |-> [i \in 1..N |-> U(s[i])], costs |-> [i \in 1..N |-> D(c[i])], pools |-> << >>,
                   sc |-> [id |-> 0, k |-> 2, a0 |-> D("0.3"), beta |-> D("0.5")], steps |-> 3]
Open == /\ Len(st.pools) < MaxPools
        /\ \E o \in 0..(N - 1), s \in 1..MaxStake, p \in 1..2, m \in {"0", "0.5"} :
             /\ p <= s
             /\ p = 1 => m = "0"
             /\ st' = [st EXCEPT !.pools = Append(@, [id |-> Len(@) + 1, own |-> o, pledge |-> U(p), stake |-> U(s), mar |-> D(m)])]
Spec == Init /\ [][Open]_st
Written == Emit => PrintT("STATE " \o ToJson(st))

Some == Len(st.pools) > 0
NakamotoOK == Some => LET S == Nakamoto(st) m == CHOOSE m \in S : TRUE IN
  /\ Cardinality(S) = 1 /\ m \in 1..Cardinality(Operators(st))
  /\ \E C \in SUBSET Operators(st) : Cardinality(C) = m
        /\ DLt(DDiv(DSum(Col(st, "stake")), DInt(2)), DSum(MapSeq(SetToSeq(C), LAMBDA a : Controls(st, a))))
  /\ \A C \in SUBSET Operators(st) : Cardinality(C) < m =>
        ~DLt(DDiv(DSum(Col(st, "stake")), DInt(2)), DSum(MapSeq(SetToSeq(C), LAMBDA a : Controls(st, a))))
GiniOK == LET g == Gini(Counts(st)) IN IF Some THEN DLe(Zero, g) /\ DLt(g, One) ELSE g = D("-1")
EvenOK == (Some /\ \A a, b \in Operators(st) : Controls(st, a) = Controls(st, b)) =>
             Near(Gini(MapSeq(SetToSeq(Operators(st)), LAMBDA a : Controls(st, a))), Zero)
MiddleOK == Some => LET q == Col(st, "pledge") IN DLe(Sorted(q)[1], Median(q)) /\ DLe(Median(q), MaxOf(q)) /\ DLe(Mean(q), MaxOf(q))
RanksOK == {StakeRank(st, a) : a \in Agents(st)} = 1..N /\ {CostRank(st, a) : a \in Agents(st)} = 1..N
SumOK == Near(DSum([a \in 1..N |-> Controls(st, a - 1)]), DSum(Col(st, "stake")))
HomogeneityOK == Some => LET q == Col(st, "stake") h == DDiv(DSum(q), DMul(DInt(Len(q)), MaxOf(q))) IN
   /\ DLt(Zero, h) /\ DLe(h, One)
   /\ h = One <=> \A i, j \in DOMAIN q : q[i] = q[j]
=============================================================================
