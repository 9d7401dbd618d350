------------------------------- MODULE Rewards -------------------------------
(* What the code was observed to pay: each observation (one line of the file) *)
(* is checked against the reward schemes and the profit split of Engine.      *)
EXTENDS Engine, Recorded, IOUtils

CONSTANT TraceFiles
Logs == ReadAll(TraceFiles)
VARIABLES file, l, bad, cov
Log == Logs[file]

If(c, p, what) == IF c THEN {} ELSE {<<p, what>>}
RNear(x, y) == DNear(x, y, D("1e-9"), D("1e-17"))
Count(f, tags) == [t \in tags |-> IF t \in DOMAIN f THEN f[t] + 1 ELSE 1] @@ f

Name(id) == <<"Cardano", "simplified", "flat pledge benefit", "CIP-7", "CIP-50">>[id + 1]

(* one pool's reward: sc, pledge, stake, r, thr *)
RewardClauses(e) ==
  If(RNear(e.thr, SatThr(e.sc, e.pledge)), "P06", "saturation threshold is not that of the scheme " \o Name(e.sc.id))
  \cup If(RNear(e.r, Reward(e.sc, e.pledge, e.stake)), "P06", "reward is not that of the scheme " \o Name(e.sc.id))
(* rewards rs of a pool with growing stakes *)
MonotoneClauses(e) ==
  If(\A i \in 1..(Len(e.rs) - 1) : DLe(e.rs[i], e.rs[i + 1]) \/ RNear(e.rs[i], e.rs[i + 1]), "P06", "more stake lowers the reward")
  \cup If(\A i, j \in DOMAIN e.rs : DLe(SatThr(e.sc, e.pledge), e.stakes[i]) /\ DLe(SatThr(e.sc, e.pledge), e.stakes[j])
                        => RNear(e.rs[i], e.rs[j]), "P06", "stake beyond saturation changes the reward")
(* rewards rs of pools whose stakes add up to no more than the total stake *)
PotClauses(e) ==
  If(DLe(DSum(e.rs), DMul(Pot, DAdd(One, D("1e-9")))), "P06", "pools get more than the pot of the epoch")
  \cup If(DNear(DSum(e.stakes), One, D("1e-9"), Zero) \/ DLt(DSum(e.stakes), One), "EVAL", "pools with more than the total stake")
(* the members of a pool: operator's share, shares of the delegators with the given amounts *)
SplitClauses(e) ==
  LET profit == DSub(Reward(e.sc, e.pledge, e.stake), e.cost)
      Tol(x, y) == DNear(x, y, D("1e-9"), DAdd(D("1e-17"), DMul(D("1e-12"), DAdd(e.cost, DAbs(profit)))))
      sum == DSum(<<e.op>> \o e.shares)
      complete == DNear(DSum(<<e.pledge>> \o e.amounts), e.stake, D("1e-9"), D("1e-15"))
  IN If(Tol(e.op, OperatorShare(e.mar, profit, DDiv(e.pledge, e.stake))), "P07", "the operator's share is not margin plus share of the rest")
     \cup If(\A i \in DOMAIN e.shares : Tol(e.shares[i], DelegatorShare(e.mar, profit, DDiv(e.amounts[i], e.stake))),
             "P07", "a delegator's share is not its proportional share of the rest")
     \cup If(\A i \in DOMAIN e.shares : DLe(Zero, e.shares[i]), "P07", "a delegator gets a negative amount")
     \cup If(complete => Tol(sum, profit), "P07", "the shares of the members do not add up to the profit")
     \cup If(DLt(profit, D("-1e-15")) => Tol(e.op, profit) /\ \A i \in DOMAIN e.shares : e.shares[i] = Zero, "P07", "a loss is not borne by the operator alone")
(* what all agents get at present, against the profits of all pools *)
SystemClauses(e) ==
  LET profits == DSum([i \in DOMAIN e.pools |-> DSub(Reward(e.sc, e.pools[i].pledge, e.pools[i].stake), e.pools[i].cost)])
  IN If(DNear(DSum(e.utilities), profits, D("1e-9"), D("1e-12")), "P07", "what all agents get together is not the profit of all pools")

Clauses(e) == CASE e.t = "reward" -> RewardClauses(e)
                [] e.t = "monotone" -> MonotoneClauses(e)
                [] e.t = "pot" -> PotClauses(e)
                [] e.t = "split" -> SplitClauses(e)
                [] e.t = "system" -> SystemClauses(e)
                [] e.t = "crash" -> {<<"CRASH", e.err>>}
Tags(e) == {e.t \o " " \o (IF "src" \in DOMAIN e THEN e.src ELSE "")}
           \cup IF e.t = "split" THEN (IF DLt(Reward(e.sc, e.pledge, e.stake), e.cost) THEN {"split of a loss"} ELSE {"split of a profit"}) ELSE {}

Init == file \in TraceFiles /\ l = 1 /\ bad = {} /\ cov = << >>
Next == /\ l <= Len(Log) + 1
        /\ l' = l + 1 /\ file' = file
        /\ IF l <= Len(Log)
           THEN /\ bad' = bad \cup {<<c[1], c[2], l>> : c \in Clauses(Log[l])}
                /\ cov' = Count(cov, Tags(Log[l]))
           ELSE /\ PrintT("RESULT " \o ToJson([file |-> file, events |-> Len(Log), bad |-> SetToSeq(bad),
                            cov |-> [i \in 1..Cardinality(DOMAIN cov) |-> <<SetToSeq(DOMAIN cov)[i], cov[SetToSeq(DOMAIN cov)[i]]>>]]))
                /\ UNCHANGED <<bad, cov>>
Spec == Init /\ [][Next]_<<file, l, bad, cov>>
View == <<file, l>>
=============================================================================
