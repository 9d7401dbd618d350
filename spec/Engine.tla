------------------------------- MODULE Engine -------------------------------
(* What agents want: rewards, profits, rankings, utilities and the moves     *)
(* that an agent may choose, in IEEE double arithmetic.                      *)
(*                                                                           *)
(* Where two quantities that a choice depends on differ by less than         *)
(* rounding errors the specification is nondeterministic: every choice that  *)
(* an implementation with slightly different rounding could make is allowed. *)
EXTENDS Doubles, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Zero == D("0")
One  == D("1")
Boost == D("1e-6")       \* by how much a pool has to beat the one that it displaces
Unit  == D("2.2e-17")    \* the smallest amount of stake that is recorded
StakeTol == D("1e-12")   \* rounding errors of amounts of stake
RelTol == D("1e-9")      \* rounding errors of utilities
UTol  == D("1e-15")
Total == One             \* total stake of the system
Pot   == One             \* rewards of an epoch

UNear(x, y) == DNear(x, y, RelTol, UTol)
SNear(x, y) == DNear(x, y, D("1e-11"), StakeTol)
SurelyLt(x, y) == DLt(x, y) /\ ~UNear(x, y)
(* x >= y, certain in any implementation (equal zeros are exact) *)
SurelyGe(x, y) == SurelyLt(y, x) \/ (x = Zero /\ y = Zero)

---------------------------------------------------------------------------
(* Reward schemes.  sc = [id, k, a0, beta]: beta is the global saturation threshold *)

SatThr(sc, pledge) == IF sc.id = 4 THEN DMin(DMul(sc.a0, pledge), sc.beta) ELSE sc.beta

Scale(sc) == DDiv(Pot, DAdd(One, sc.a0))

(* Cardano: R/(1+a0) * (s + p a0 (s - p (1 - s/beta)) / beta) *)
Cardano(sc, p, s) ==
  DMul(Scale(sc), DAdd(s, DMul(p, DMul(sc.a0,
       DDiv(DSub(s, DMul(p, DSub(One, DDiv(s, sc.beta)))), sc.beta)))))

(* CIP-7: the pledge counts as pledge^(1/root) * (beta/crossover)^((root-1)/root), root 3 and crossover 8 *)
Third == DDiv(One, D("3"))
Curve(sc, pledge) == DMul(DPow(pledge, Third), DPow(DDiv(sc.beta, D("8")), DDiv(D("2"), D("3"))))

Reward(sc, pledge, stake) ==
  LET s == DMin(stake, sc.beta)
      p == DMin(pledge, sc.beta)
  IN CASE sc.id = 0 -> Cardano(sc, p, s)
       [] sc.id = 1 -> DMul(DMul(Scale(sc), s), DAdd(One, DDiv(DMul(sc.a0, p), sc.beta)))
       [] sc.id = 2 -> DMul(Scale(sc), DAdd(s, DMul(sc.a0, p)))
       [] sc.id = 3 -> Cardano(sc, DMin(Curve(sc, pledge), sc.beta), s)
       [] sc.id = 4 -> DMul(Pot, DMin(stake, SatThr(sc, pledge)))

(* profit at saturation, and profit at the present stake *)
Potential(sc, pledge, cost) == DSub(Reward(sc, pledge, SatThr(sc, pledge)), cost)
Profit(sc, pledge, stake, cost) == DSub(Reward(sc, pledge, stake), cost)
Desirability(margin, profit) == DMax(DMul(DSub(One, margin), profit), Zero)

(* the split of a pool's profit *)
OperatorShare(margin, profit, fraction) ==
  IF DLe(profit, Zero) THEN profit ELSE DMul(profit, DAdd(margin, DMul(DSub(One, margin), fraction)))
DelegatorShare(margin, profit, fraction) == DMax(DMul(DMul(DSub(One, margin), fraction), profit), Zero)

OperatorUtility(sc, stake, pledge, margin, cost) ==
  OperatorShare(margin, Profit(sc, pledge, stake, cost), DDiv(pledge, stake))
DelegatorUtility(sc, amount, stake, pledge, margin, cost) ==
  DelegatorShare(margin, Profit(sc, pledge, stake, cost), DDiv(amount, stake))

CostPerPool(t, cost, phi) == DDiv(DAdd(cost, DMul(DInt(t - 1), DMul(phi, cost))), DInt(t))
PledgePerPool(sc, stake, t) == DMin(DDiv(stake, DInt(t)), sc.beta)
IsPrivate(sc, pledge) == DLe(SatThr(sc, pledge), pledge)
Margin(pp, target) == IF DLt(Zero, pp) THEN DMax(DSub(One, DDiv(target, pp)), Zero) ELSE Zero

Total_(seq) == FoldLeft(LAMBDA acc, x : DAdd(acc, x), Zero, seq)
MapSeq(seq, Op(_)) == TLCEval([i \in 1..Len(seq) |-> Op(seq[i])])
FSum(f) == DSum(SetToSeq({<<x, f[x]>> : x \in DOMAIN f}))

---------------------------------------------------------------------------
(* Rankings.  A ranking is a sequence of pool ids, 0 for a free place *)

Key(p, id) == <<DSub(Zero, p.des), DSub(Zero, p.pp), DInt(id)>>
KeyLt(x, y) == \/ DLt(x[1], y[1])
               \/ x[1] = y[1] /\ DLt(x[2], y[2])
               \/ x[1] = y[1] /\ x[2] = y[2] /\ DLt(x[3], y[3])
(* could the order be different under other rounding? *)
KeyClose(x, y) == \/ x[1] # y[1] /\ UNear(x[1], y[1])
                  \/ x[1] = y[1] /\ x[2] # y[2] /\ UNear(x[2], y[2])

MyopicDesirability(sc, p) == Desirability(p.mar, Profit(sc, p.pledge, p.stake, p.cost))

(* what a ranking has to be *)
LISTED(rk) == {rk[i] : i \in DOMAIN rk} \ {0}
ListsAll(s, rk) ==
  /\ LISTED(rk) = DOMAIN s.pools
  /\ Cardinality({i \in DOMAIN rk : rk[i] # 0}) = Cardinality(DOMAIN s.pools)
EnoughPlaces(s, rk) == Len(rk) >= s.sc.k + 1
Ordered(rk, Le(_,_), Pos(_)) ==
  LET ids == SelectSeq(rk, LAMBDA i : i # 0)
      free == {i \in DOMAIN rk : rk[i] = 0}
  IN /\ \A i \in 1..(Len(ids) - 1) : Le(ids[i], ids[i + 1])
     /\ \A i \in DOMAIN rk : rk[i] # 0 => IF Pos(rk[i]) THEN \A j \in free : i < j ELSE \A j \in free : j < i
RankOrdered(s) ==
  Ordered(s.rk, LAMBDA x, y : KeyLt(Key(s.pools[x], x), Key(s.pools[y], y)),
                LAMBDA x : LET p == s.pools[x] IN DLt(Zero, p.des) \/ (p.des = Zero /\ DLt(Zero, p.pp)))
MyopicOrdered(s) ==
  LET md == TLCEval([id \in DOMAIN s.pools |-> MyopicDesirability(s.sc, s.pools[id])])
      Twin(x, y) == LET p == s.pools[x] q == s.pools[y] IN
                    p.pledge = q.pledge /\ p.stake = q.stake /\ p.cost = q.cost /\ p.mar = q.mar
      ids == SelectSeq(s.rkm, LAMBDA i : i # 0)
      free == {i \in DOMAIN s.rkm : s.rkm[i] = 0}
  IN /\ \A i \in 1..(Len(ids) - 1) :
           LET x == ids[i] y == ids[i + 1]
           IN IF Twin(x, y) \/ (md[x] = Zero /\ md[y] = Zero) THEN x < y ELSE DLt(md[y], md[x]) \/ UNear(md[x], md[y])
     /\ \A i \in DOMAIN s.rkm : s.rkm[i] # 0 =>
           IF md[s.rkm[i]] = Zero THEN \A j \in free : j < i
           ELSE DLt(UTol, md[s.rkm[i]]) => \A j \in free : i < j

---------------------------------------------------------------------------
(* Expectations *)

MyRanking(s, a) == IF s.prof[a] = 1 THEN s.rkm ELSE s.rk

(* A non-myopic agent expects a pool to be filled iff the better pools cannot take the whole stake *)
NonMyopicStake(sc, p, inTop) == IF inTop THEN DMax(SatThr(sc, p.pledge), p.stake) ELSE p.pledge
Covered(sc, better) == ~ DLt(DRound(DSum(MapSeq(better, LAMBDA p : SatThr(sc, p.pledge))), 12), Total)

Before(rk, id) == LET i == CHOOSE i \in DOMAIN rk : rk[i] = id IN SelectSeq(SubSeq(rk, 1, i - 1), LAMBDA x : x # 0)

(* utility that a delegator expects from amount in pool id *)
DelegatorExpects(s, a, id, amount) ==
  LET p == s.pools[id]
      now == DAdd(DSub(p.stake, IF id \in DOMAIN s.alloc[a] THEN s.alloc[a][id] ELSE Zero), amount)
      better == MapSeq(Before(s.rk, id), LAMBDA x : s.pools[x])
      stake == IF s.prof[a] = 1 THEN now ELSE DMax(NonMyopicStake(s.sc, p, ~Covered(s.sc, better)), now)
  IN DelegatorUtility(s.sc, amount, stake, p.pledge, p.mar, p.cost)

DelegationExpects(s, a, alloc) ==
  DSum([i \in 1..Cardinality(DOMAIN alloc) |->
        LET id == SetToSeq(DOMAIN alloc)[i] IN IF id \in DOMAIN s.pools THEN DelegatorExpects(s, a, id, alloc[id]) ELSE Zero])

(* utility that an operator expects from a plan: a sequence of pools with fields id, pledge, stake, cost, mar, pp, des *)
(* The result is an interval <<lo, hi>>: it is a proper one if ranks depend on rounding. *)
PlanExpects(s, a, plan) ==
  IF s.prof[a] = 1
  THEN LET u == DSum(MapSeq(plan, LAMBDA p : OperatorUtility(s.sc, p.stake, p.pledge, p.mar, p.cost))) IN <<u, u>>
  ELSE LET others == MapSeq(SelectSeq(s.rk, LAMBDA id : id # 0 /\ s.pools[id].own # a),
                            LAMBDA id : [key |-> Key(s.pools[id], id), pledge |-> s.pools[id].pledge])
           mine   == MapSeq(plan, LAMBDA p : [key |-> Key(p, p.id), pledge |-> p.pledge])
           all    == others \o mine
           U(p, inTop) == OperatorUtility(s.sc, NonMyopicStake(s.sc, p, inTop), p.pledge, p.mar, p.cost)
           Bounds(p) ==
             LET k == Key(p, p.id)
                 sure  == SelectSeq(all, LAMBDA q : KeyLt(q.key, k) /\ ~KeyClose(q.key, k))
                 maybe == SelectSeq(all, LAMBDA q : KeyLt(q.key, k) \/ KeyClose(q.key, k))
             IN IF Covered(s.sc, sure) THEN <<U(p, FALSE), U(p, FALSE)>>
                ELSE IF Len(maybe) = Len(sure) \/ ~Covered(s.sc, maybe) THEN <<U(p, TRUE), U(p, TRUE)>>
                ELSE LET x == U(p, FALSE) y == U(p, TRUE) IN <<DMin(x, y), DMax(x, y)>>
           bs == MapSeq(plan, Bounds)
       IN <<DSum(MapSeq(bs, LAMBDA b : b[1])), DSum(MapSeq(bs, LAMBDA b : b[2]))>>

---------------------------------------------------------------------------
(* Keeping the present strategy *)

CurrentUtility(s, a) ==
  LET own == SetToSeq(s.owned[a])
      del == SetToSeq(DOMAIN s.alloc[a])
  IN DAdd(DSum(MapSeq(own, LAMBDA id : LET p == s.pools[id] IN OperatorUtility(s.sc, p.stake, p.pledge, p.mar, p.cost))),
          DSum(MapSeq(del, LAMBDA id : LET p == s.pools[id] IN
                 DelegatorUtility(s.sc, s.alloc[a][id], p.stake, p.pledge, p.mar, p.cost))))

OwnPlan(s, a) == MapSeq(s.ownedSeq[a], LAMBDA id : [s.pools[id] EXCEPT !.own = a] @@ [id |-> id])
Augment(s, u) == DMax(DMul(DAdd(One, s.par.rel), u), DAdd(u, s.par.abs))
KeepExpects(s, a) ==
  LET cur == CurrentUtility(s, a)
      op  == IF s.owned[a] = {} THEN <<Zero, Zero>> ELSE PlanExpects(s, a, OwnPlan(s, a))
      del == DelegationExpects(s, a, s.alloc[a])
      Aug(x) == DMax(Augment(s, cur), Augment(s, DAdd(x, del)))
  IN <<Aug(op[1]), Aug(op[2])>>

---------------------------------------------------------------------------
(* Delegating an amount: in the order of the agent's ranking into public pools of others with room, the rest to the    *)
(* best saturated one.  Result: the set of delegations that are right (more than one only if room is within rounding). *)

Room(s, a, id) == DSub(SatThr(s.sc, s.pools[id].pledge),
                       DSub(s.pools[id].stake, IF id \in DOMAIN s.alloc[a] THEN s.alloc[a][id] ELSE Zero))
Eligible(s, a) == SelectSeq(MyRanking(s, a), LAMBDA id : id # 0 /\ s.pools[id].own # a /\ ~s.pools[id].priv)

Fill(s, a, amount, ids) ==
  FoldLeft(LAMBDA acc, id :
             IF DLe(acc.rest, StakeTol) THEN acc
             ELSE LET room == Room(s, a, id) IN
                  IF DLe(room, StakeTol)
                  THEN [acc EXCEPT !.full = Append(@, <<id, DLt(room, DSub(Zero, StakeTol))>>)]
                  ELSE [acc EXCEPT !.alloc = @ @@ (id :> DMin(acc.rest, room)),
                                   !.rest = DSub(@, DMin(acc.rest, room))],
           [alloc |-> << >>, rest |-> amount, full |-> << >>], ids)

Delegations(s, a, amount) ==
  IF DLe(amount, StakeTol) THEN {<< >>}
  ELSE LET r == Fill(s, a, amount, Eligible(s, a)) IN
       IF DLe(r.rest, StakeTol) \/ Len(r.full) = 0 THEN {r.alloc}
       ELSE \* r.full: the pools without room; those that are surely saturated are marked
         LET firstSure == IF \E i \in DOMAIN r.full : r.full[i][2]
                          THEN CHOOSE i \in DOMAIN r.full : r.full[i][2] /\ \A j \in 1..(i-1) : ~r.full[j][2]
                          ELSE Len(r.full) + 1
             targets == {r.full[i][1] : i \in 1..(IF firstSure > Len(r.full) THEN Len(r.full) ELSE firstSure)}
         IN {r.alloc @@ (id :> r.rest) : id \in targets}
            \cup (IF firstSure > Len(r.full) THEN {r.alloc} ELSE {})

---------------------------------------------------------------------------
(* Operating t pools *)

Fixed(s, a) == SelectSeq(MyRanking(s, a), LAMBDA id : IF id = 0 THEN TRUE ELSE s.pools[id].own # a)

(* margins for t pools and the utility that is used in the search for t *)
MarginsNonMyopic(s, a, t) ==
  LET cost == CostPerPool(t, s.cost[a], s.par.phi)
      pledge == PledgePerPool(s.sc, s.stake[a], t)
      sat == SatThr(s.sc, pledge)
      pp == Potential(s.sc, pledge, cost)
      fixed == Fixed(s, a)
      One_(i) == LET id == fixed[s.sc.k - i + 1]
                     target == DAdd(IF id = 0 THEN Zero ELSE s.pools[id].des, Boost)
                     high == DMax(target, IF id = 0 THEN Zero ELSE s.pools[id].pp)
                 IN IF DLt(pp, target)
                    THEN [m |-> Zero, u |-> OperatorUtility(s.sc, pledge, pledge, Zero, cost)]
                    ELSE [m |-> Margin(pp, high), u |-> OperatorUtility(s.sc, sat, pledge, Margin(pp, high), cost)]
      r == TLCEval([i \in 1..t |-> One_(i)])
  IN [m |-> MapSeq(r, LAMBDA x : x.m), u |-> DSum(MapSeq(r, LAMBDA x : x.u)),
      close |-> \E i \in 1..t : LET id == fixed[s.sc.k - i + 1] IN
                   UNear(pp, DAdd(IF id = 0 THEN Zero ELSE s.pools[id].des, Boost))]

MarginsMyopic(s, a, t) ==
  LET cost == CostPerPool(t, s.cost[a], s.par.phi)
      pledge == PledgePerPool(s.sc, s.stake[a], t)
      sat == SatThr(s.sc, pledge)
      controlled == DMax(DSum(MapSeq(s.ownedSeq[a], LAMBDA id : s.pools[id].stake)), s.stake[a])
      profit == Profit(s.sc, pledge, DDiv(controlled, DInt(t)), cost)
      fixed == Fixed(s, a)
      One_(i) == LET id == fixed[s.sc.k - i + 1]
                     m == Margin(profit, DAdd(IF id = 0 THEN Zero ELSE MyopicDesirability(s.sc, s.pools[id]), Boost))
                 IN [m |-> m, u |-> OperatorUtility(s.sc, sat, pledge, m, cost)]
      r == TLCEval([i \in 1..t |-> One_(i)])
  IN [m |-> MapSeq(r, LAMBDA x : x.m), u |-> DSum(MapSeq(r, LAMBDA x : x.u)), close |-> FALSE]

Margins(s, a, t) == IF s.prof[a] = 1 THEN MarginsMyopic(s, a, t) ELSE MarginsNonMyopic(s, a, t)

(* the numbers of pools at which the search may end: it halves [lo, hi] and moves towards the better neighbour *)
RECURSIVE Search(_,_,_,_)
Search(s, a, lo, hi) ==
  LET t == (lo + hi) \div 2
      u == Margins(s, a, t).u
      um == Margins(s, a, t - 1).u
      up == Margins(s, a, t + 1).u
      downs  == t > lo /\ ~SurelyGe(u, um)     \* may go down
      mdowns == t > lo /\ SurelyLt(u, um)      \* must go down
      ups    == t < hi /\ ~SurelyGe(u, up)
      mups   == t < hi /\ SurelyLt(u, up)
  IN (IF downs THEN Search(s, a, lo, t - 1) ELSE {})
     \cup (IF ~mdowns THEN (IF ups THEN Search(s, a, t + 1, hi) ELSE {}) \cup (IF ~mups THEN {t} ELSE {}) ELSE {})

(* which own pools may be kept if only t are needed: better desirability, then potential profit, stake, age *)
SurelyBetter(s, x, y) ==
  LET p == s.pools[x] q == s.pools[y] IN
  \/ DLt(q.des, p.des) /\ ~UNear(p.des, q.des)
  \/ p.des = q.des /\ DLt(q.pp, p.pp) /\ ~UNear(p.pp, q.pp)
  \/ p.des = q.des /\ p.pp = q.pp /\ DLt(q.stake, p.stake) /\ ~SNear(p.stake, q.stake)
  \/ p.des = q.des /\ p.pp = q.pp /\ p.stake = q.stake /\ x < y
(* If many own pools are equally good up to rounding, not all sets of them are listed, but some, and hint if it is one *)
KeepsAll(s, a, t) == t >= Cardinality(s.owned[a])
AsGood(s, a, t) ==
  LET own == s.owned[a]
      out == {x \in own : Cardinality({y \in own : SurelyBetter(s, y, x)}) >= t}
      in == {x \in own : Cardinality({y \in own \ {x} : ~SurelyBetter(s, x, y)}) < t}
  IN [in |-> in, left |-> own \ (in \cup out)]
TooMany(s, a, t) == ~KeepsAll(s, a, t) /\ Cardinality(AsGood(s, a, t).left) > 6
Keeps(s, a, t, hint) ==
  IF KeepsAll(s, a, t) THEN {s.owned[a]}
  ELSE LET own == s.owned[a]
           g == TLCEval(AsGood(s, a, t))
           r == t - Cardinality(g.in)
           Ends(seq) == {SubSeq(seq, 1, r), SubSeq(seq, Len(seq) - r + 1, Len(seq))}
           byAge == SetToSortSeq(g.left, LAMBDA x, y : x < y)
           byStake == SetToSortSeq(g.left, LAMBDA x, y : DLt(s.pools[x].stake, s.pools[y].stake) \/ (s.pools[x].stake = s.pools[y].stake /\ x < y))
           sets == IF TooMany(s, a, t)
                   THEN {g.in \cup {q[i] : i \in DOMAIN q} : q \in Ends(byAge) \cup Ends(byStake)} \cup {hint \cap own}
                   ELSE {g.in \cup J : J \in kSubset(r, g.left)}
       IN {K \in sets : /\ Cardinality(K) = t
                        /\ (TooMany(s, a, t) /\ K # hint) \/ \A x \in K : \A y \in own \ K : ~SurelyBetter(s, y, x)}

(* the pools of the plan: kept ones first (in an order that is only fixed if all are kept), then new ones *)
Orders(s, a, K) ==
  IF K = s.owned[a] THEN {s.ownedSeq[a]}
  ELSE IF Cardinality(K) <= 4 THEN SetToSeqs(K)
  ELSE {SetToSortSeq(K, LAMBDA x, y : x < y), SetToSortSeq(K, LAMBDA x, y : y < x),
        SetToSortSeq(K, LAMBDA x, y : DLt(s.pools[x].stake, s.pools[y].stake) \/ (s.pools[x].stake = s.pools[y].stake /\ x < y)),
        SetToSortSeq(K, LAMBDA x, y : DLt(s.pools[y].stake, s.pools[x].stake) \/ (s.pools[x].stake = s.pools[y].stake /\ x < y))}

PlanFor(s, a, t, m, order) ==
  LET cost == CostPerPool(t, s.cost[a], s.par.phi)
      pledge == PledgePerPool(s.sc, s.stake[a], t)
      pp == Potential(s.sc, pledge, cost)
  IN TLCEval([i \in 1..t |->
        [id |-> IF i <= Len(order) THEN order[i] ELSE 1000000 + i,
         new |-> i > Len(order),
         pledge |-> pledge, cost |-> cost, mar |-> m[i], pp |-> pp, des |-> Desirability(m[i], pp),
         priv |-> IsPrivate(s.sc, pledge),
         stake |-> IF i <= Len(order) THEN DSub(s.pools[order[i]].stake, DSub(s.pools[order[i]].pledge, pledge))
                   ELSE pledge]])

---------------------------------------------------------------------------
(* All options of agent a in state s.  An option has the fields kind ("keep", "delegate", "operate"), alloc (its      *)
(* delegations), plan (its pools) and u = <<lo, hi>> (its expected utility).                                            *)

KeepOption(s, a) == [kind |-> "keep", alloc |-> s.alloc[a], plan |-> << >>, free |-> FALSE, u |-> KeepExpects(s, a)]

DelegateOptions(s, a) ==
  {[kind |-> "delegate", alloc |-> al, plan |-> << >>, free |-> FALSE,
    u |-> LET x == DelegationExpects(s, a, al) IN <<x, x>>] : al \in Delegations(s, a, s.stake[a])}

OperateOptions(s, a, hint) ==
  UNION {LET m == Margins(s, a, t)
             rest == DSub(s.stake[a], DMul(DInt(t), PledgePerPool(s.sc, s.stake[a], t)))
             plans == TLCEval(UNION {{LET plan == PlanFor(s, a, t, m.m, o)
                                      IN [kept |-> K, plan |-> plan, u |-> PlanExpects(s, a, plan)] : o \in Orders(s, a, K)}
                                     : K \in Keeps(s, a, t, hint)})
             \* of many orders and sets only some are evaluated: what lies between them is possible, too
             many == ~KeepsAll(s, a, t) /\ (t > 4 \/ TooMany(s, a, t))
             any == CHOOSE x \in plans : TRUE
             lo == FoldSet(LAMBDA x, acc : DMin(x.u[1], acc), any.u[1], plans)
             hi == FoldSet(LAMBDA x, acc : DMax(x.u[2], acc), any.u[2], plans)
         IN UNION {LET de == DelegationExpects(s, a, al) IN
                   {[kind |-> "operate", alloc |-> al, plan |-> x.plan, free |-> x.kept # s.owned[a],
                     u |-> <<DAdd(IF many THEN lo ELSE x.u[1], de), DAdd(IF many THEN hi ELSE x.u[2], de)>>] : x \in plans}
                   : al \in Delegations(s, a, rest)}
         : t \in Search(s, a, 1, s.sc.k)}

(* Choosing: highest utility, ties go to the earlier kind.  The options that some rounding could make the choice *)
(* hint: a set of own pools that may be kept *)
Moves(s, a, hint) ==
  LET keep == KeepOption(s, a)
      dels == DelegateOptions(s, a)
      ops  == OperateOptions(s, a, hint)
      \* x comes first or ties in favour of x in any implementation
      Beats(x, y) == SurelyGe(x.u[1], y.u[2])
      Tops(x, y)  == SurelyLt(y.u[2], x.u[1])
  IN (IF (\A y \in dels : Tops(y, keep)) \/ (\A y \in ops : Tops(y, keep)) THEN {} ELSE {keep})
     \cup {x \in dels : ~Beats(keep, x) /\ ~(\A y \in ops : Tops(y, x))}
     \cup {x \in ops : ~Beats(keep, x) /\ ~(\A y \in dels : Beats(y, x))}
=============================================================================
