-------------------------------- MODULE Trace --------------------------------
(* Checks executions recorded from the code (harness/rec.py) against Staking, *)
(* Engine and Rounds.  One event is one activation of an agent (or the start  *)
(* or end of a round); it carries the complete change of the state.  The      *)
(* verdict is total: an event that the specification does not allow adds the  *)
(* failed clauses to bad and checking goes on from the observed state.        *)
EXTENDS Engine, Recorded, IOUtils

CONSTANTS TraceFiles,   \* each is checked on its own
          Judge       \* how often are the choices of agents checked, too (P08, P09, P10)? 0: never, m: one event in m

S == INSTANCE Staking WITH Zero <- Zero, Plus <- DAdd, Minus <- DSub,
       Dust <- LAMBDA x : DLt(x, Unit), Same <- SNear, AtMost <- LAMBDA x, y : DLe(x, y) \/ SNear(x, y)
R == INSTANCE Rounds

Logs == ReadAll(TraceFiles)

VARIABLES file,
          l,     \* next event
          s,     \* state of the staking system
          w,     \* bookkeeping of rounds
          bad,   \* failed clauses
          cov    \* what has been covered
vars == <<file, l, s, w, bad, cov>>
Log == Logs[file]
Judged == IF Judge = 0 THEN FALSE ELSE l % Judge = 0

---------------------------------------------------------------------------
(* Reading states *)

Has(r, f) == f \in DOMAIN r
Abs(i) == IF i < 0 THEN -i ELSE i
Ids(seq) == {seq[i] : i \in DOMAIN seq}

RdPool(p) == [own |-> p.own, pledge |-> p.pledge, stake |-> p.stake, cost |-> p.cost, mar |-> p.mar, priv |-> p.priv,
              pp |-> p.pp, des |-> p.des, dels |-> MapOf(p.dels)]
RdPools(seq) == MapOf([i \in DOMAIN seq |-> <<seq[i].id, RdPool(seq[i])>>])
RdPend(q) == IF Len(q) = 0 THEN << >>
             ELSE <<[alloc |-> MapOf(q[1].alloc),
                     plan |-> MapOf([i \in DOMAIN q[1].plan |-> <<q[1].plan[i].id, q[1].plan[i]>>])]>>
ZeroBased(seq, Op(_)) == MapOf([i \in DOMAIN seq |-> <<i - 1, Op(seq[i])>>])
Chg(f, seq, Op(_)) == MapOf([i \in DOMAIN seq |-> <<seq[i][1], Op(seq[i][2])>>]) @@ f

MaxId(S1) == FoldSet(LAMBDA i, acc : IF i > acc THEN i ELSE acc, 0, S1)
PlanIds(pend) == UNION {IF pend[a] = << >> THEN {} ELSE DOMAIN pend[a][1].plan : a \in DOMAIN pend}

RdInit(ev) ==
  LET t == ev.s
      owned == ZeroBased(t.owned, LAMBDA x : x)
  IN [pools |-> RdPools(t.pools), alloc |-> ZeroBased(t.alloc, MapOf), ownedSeq |-> owned,
      owned |-> [a \in DOMAIN owned |-> {Abs(i) : i \in Ids(owned[a])}],
      pend |-> ZeroBased(t.pend, RdPend), stake |-> ZeroBased(t.stake, LAMBDA x : x),
      cost |-> ZeroBased(t.cost, LAMBDA x : x), prof |-> ZeroBased(ev.prof, LAMBDA x : x),
      rk |-> t.rk, rkm |-> t.rkm, sc |-> t.sc, par |-> t.par, flag |-> ev.x.flag, top |-> 0]

Apply(t, ev) ==
  LET d == ev.d
      gone == IF Has(d, "closed") THEN Ids(d.closed) ELSE {}
      kept == IF gone = {} THEN t.pools ELSE TLCEval([i \in DOMAIN t.pools \ gone |-> t.pools[i]])
      pools == IF Has(d, "pools") THEN RdPools(d.pools) @@ kept ELSE kept
      oseq == IF Has(d, "owned") THEN Chg(t.ownedSeq, d.owned, LAMBDA x : x) ELSE t.ownedSeq
      pend == IF Has(d, "pend") THEN Chg(t.pend, d.pend, RdPend) ELSE t.pend
  IN TLCEval([t EXCEPT
        !.pools = pools,
        !.alloc = IF Has(d, "alloc") THEN Chg(@, d.alloc, MapOf) ELSE @,
        !.ownedSeq = oseq,
        !.owned = IF Has(d, "owned") THEN TLCEval([a \in DOMAIN oseq |-> {Abs(i) : i \in Ids(oseq[a])}]) ELSE @,
        !.pend = pend,
        !.stake = IF Has(d, "stake") THEN Chg(@, d.stake, LAMBDA x : x) ELSE @,
        !.cost = IF Has(d, "cost") THEN Chg(@, d.cost, LAMBDA x : x) ELSE @,
        !.rk = IF Has(d, "rk") THEN d.rk ELSE @,
        !.rkm = IF Has(d, "rkm") THEN d.rkm ELSE @,
        !.sc = IF Has(d, "sc") THEN d.sc ELSE @,
        !.par = IF Has(d, "par") THEN d.par ELSE @,
        !.flag = ev.flag,
        !.top = IF Has(d, "pools") \/ Has(d, "pend") THEN MaxId({@} \cup DOMAIN pools \cup PlanIds(pend)) ELSE @])

---------------------------------------------------------------------------
(* Clauses: a failed one is <<property, clause>> *)

If(c, prop, name) == IF c THEN {} ELSE {<<prop, name>>}

(* properties of single states *)
StateClauses(t) ==
  If(S!StakeInv(t), "P01", "stake of a pool is not its pledge plus its delegations")
  \cup If(S!OwnerInv(t) /\ \A a \in DOMAIN t.ownedSeq : \A i \in DOMAIN t.ownedSeq[a] : t.ownedSeq[a][i] > 0,
          "P02", "records of pool ownership disagree")
  \cup If(S!DelegationInv(t), "P02", "records of delegations disagree")
  \cup If(S!CommitInv(t, t.stake), "P03", "an agent commits more than its stake")
  \cup If(S!TotalInv(t, DSum(MapSeq(SetToSeq(DOMAIN t.stake), LAMBDA a : t.stake[a]))), "P03", "pools hold more than all stake")
  \cup If(S!PrivateInv(t), "P04", "a private pool holds stake of others")
  \cup If(ListsAll(t, t.rk), "P05", "the ranking does not list every open pool once")
  \cup If(ListsAll(t, t.rkm), "P05", "the myopic ranking does not list every open pool once")
  \cup If(EnoughPlaces(t, t.rk) /\ EnoughPlaces(t, t.rkm), "P05", "a ranking has less than k + 1 places")
  \cup If(ListsAll(t, t.rk) => RankOrdered(t), "P05", "the ranking is not ordered by desirability, potential profit, age")
  \cup If(ListsAll(t, t.rkm) => MyopicOrdered(t), "P05", "the myopic ranking is not ordered by present desirability, age")
  \cup If(\A i \in DOMAIN t.pools : LET p == t.pools[i] IN
            DNear(p.pp, Potential(t.sc, p.pledge, p.cost), RelTol, D("1e-13")), "P23", "a potential profit is out of date")
  \cup If(\A i \in DOMAIN t.pools : LET p == t.pools[i] IN UNear(p.des, Desirability(p.mar, p.pp)), "P23", "a desirability is out of date")
  \cup If(\A i \in DOMAIN t.pools : LET p == t.pools[i] IN DLe(Zero, p.mar) /\ DLe(p.mar, One), "P23", "a margin is not between 0 and 1")
  \cup If(LET owners == {t.pools[i].own : i \in DOMAIN t.pools}
               some == TLCEval([o \in owners |-> CHOOSE i \in DOMAIN t.pools : t.pools[i].own = o])
           IN \A i \in DOMAIN t.pools : LET p == t.pools[i]  q == t.pools[some[p.own]] IN UNear(p.pledge, q.pledge) /\ UNear(p.cost, q.cost),
           "P23", "pools of one operator differ")

WellFormed(t) ==
  /\ ListsAll(t, t.rk) /\ ListsAll(t, t.rkm) /\ EnoughPlaces(t, t.rk) /\ EnoughPlaces(t, t.rkm)
  /\ S!OwnerInv(t) /\ \A a \in DOMAIN t.alloc : DOMAIN t.alloc[a] \subseteq DOMAIN t.pools
  /\ \A a \in DOMAIN t.ownedSeq : \A i \in DOMAIN t.ownedSeq[a] : t.ownedSeq[a][i] > 0
  /\ \A i \in DOMAIN t.pools : DLt(Zero, t.pools[i].stake)

(* agreement up to rounding of what matters *)
SamePools(t, u, except) ==
  /\ DOMAIN t.pools \ except = DOMAIN u.pools \ except
  /\ \A i \in DOMAIN t.pools \ except : t.pools[i] = u.pools[i] \/ S!SamePool(t.pools[i], u.pools[i])
SameAllocs(t, u) == \A a \in DOMAIN t.alloc : t.alloc[a] = u.alloc[a] \/ S!SameFcn(t.alloc[a], u.alloc[a])
SamePlan(p, q) == /\ DOMAIN p = DOMAIN q
                  /\ \A i \in DOMAIN p : /\ UNear(p[i].pledge, q[i].pledge) /\ UNear(p[i].cost, q[i].cost)
                                         /\ UNear(p[i].mar, q[i].mar) /\ p[i].priv = q[i].priv
SamePends(t, u, except) ==
  \A a \in DOMAIN t.pend \ except :
    \/ t.pend[a] = u.pend[a]
    \/ /\ t.pend[a] # << >> /\ u.pend[a] # << >>
       /\ S!SameFcn(t.pend[a][1].alloc, u.pend[a][1].alloc) /\ SamePlan(t.pend[a][1].plan, u.pend[a][1].plan)
SameSystem(t, u) == SamePools(t, u, {}) /\ SameAllocs(t, u) /\ t.owned = u.owned

Unchanged(t, u) == /\ t.stake = u.stake /\ t.cost = u.cost
Fixed_(t, u) == If(t.stake = u.stake, "P03", "an agent's stake changed") \cup If(t.cost = u.cost, "P10", "an agent's cost changed")

(* ids: new pools have ids that were never used, known ones keep their owner *)
IdClauses(t, u) ==
  If(\A i \in DOMAIN u.pools \ DOMAIN t.pools : i > t.top \/ i \in PlanIds(t.pend), "P02", "a pool id is used again")
  \cup If(\A i \in (PlanIds(u.pend) \ PlanIds(t.pend)) \ DOMAIN t.pools : i > t.top, "P02", "a planned pool has a used id")
  \cup If(\A i \in DOMAIN u.pools \cap DOMAIN t.pools : u.pools[i].own = t.pools[i].own, "P02", "a pool changed its owner")

---------------------------------------------------------------------------
(* Decisions *)

(* does option o agree with the observed move m = [alloc, plan: id -> pool] of agent a? *)
SortedNew(t, a, plan) == SetToSortSeq(DOMAIN plan \ t.owned[a], LAMBDA x, y : x < y)
PoolAgrees(p, q, mar) == UNear(p.pledge, q.pledge) /\ UNear(p.cost, q.cost) /\ p.priv = q.priv /\ (mar => UNear(p.mar, q.mar))
SortMar(seq) == LET ix == DSortIdx(MapSeq(seq, LAMBDA x : <<x>>)) IN [i \in DOMAIN seq |-> seq[ix[i]]]
PlanAgrees(t, a, o, plan) ==
  LET new == SortedNew(t, a, plan)
      keptN == Len(SelectSeq(o.plan, LAMBDA p : ~p.new))
      kept == {o.plan[i].id : i \in 1..keptN}
  IN /\ Cardinality(DOMAIN plan) = Len(o.plan)
     /\ DOMAIN plan \cap t.owned[a] = kept
     /\ \A i \in 1..Len(o.plan) : PoolAgrees(o.plan[i], plan[IF i <= keptN THEN o.plan[i].id ELSE new[i - keptN]], i > keptN \/ ~o.free)
     /\ o.free => LET x == SortMar([i \in 1..keptN |-> o.plan[i].mar])
                      y == SortMar(MapSeq(SetToSeq(kept), LAMBDA id : plan[id].mar))
                  IN \A i \in 1..keptN : UNear(x[i], y[i])
Agrees(t, a, o, m) == PlanAgrees(t, a, o, m.plan) /\ S!SameFcn(o.alloc, m.alloc)

MoveKind(m) == IF DOMAIN m.plan = {} THEN "delegate" ELSE "operate"

DecisionClauses(t, a, kept, moved, m) ==
  \* kept: the observation is compatible with keeping the strategy; moved: ... with having made move m
  IF t.prof[a] = 2 THEN If(kept, "P08", "an abstainer acted")
  ELSE LET opts == Moves(t, a, IF moved THEN DOMAIN m.plan \cap t.owned[a] ELSE {})
           kinds == {o.kind : o \in opts}
           mk == MoveKind(m)
           hits == {o \in opts : o.kind = mk}
           invl == (IF moved THEN {mk} ELSE {}) \cup kinds
       IN IF kept /\ "keep" \in kinds THEN {}
          ELSE IF moved /\ hits # {}
          THEN IF \E o \in hits : Agrees(t, a, o, m) THEN {}
               ELSE IF \E o \in hits : PlanAgrees(t, a, o, m.plan) THEN {<<"P09", "a delegation does not follow the rule">>}
               ELSE {<<"P10", "an operator's plan does not follow the rules">>}
                    \cup If(\E o \in hits : S!SameFcn(o.alloc, m.alloc), "P09", "an operator delegates other than by the rule")
          ELSE {<<"P08", "the best option was not chosen">>}
               \cup If("operate" \notin invl, "P10", "a plan was adopted or dropped against the rules")
               \cup If("delegate" \notin invl, "P09", "a delegation was adopted or dropped against the rules")

PrivateClauses(t, a, plan) ==
  If(\A i \in DOMAIN plan : LET q == plan[i] IN
        \/ q.priv = IsPrivate(t.sc, q.pledge)
        \/ UNear(q.pledge, SatThr(t.sc, q.pledge)) /\ q.pledge # SatThr(t.sc, q.pledge),
     "P04", "a pool is not private exactly if its pledge saturates it")
TargetClauses(t, a, alloc) ==
  If(\A i \in DOMAIN alloc : i \in DOMAIN t.pools /\ (DLt(StakeTol, alloc[i]) => ~t.pools[i].priv), "P04", "delegates to a private pool")
  \cup If(\A i \in DOMAIN alloc : i \in DOMAIN t.pools => t.pools[i].own # a, "P09", "delegates to its own pool")

PlanOf(u, a) == TLCEval([i \in u.owned[a] \cap DOMAIN u.pools |-> u.pools[i]])

(* one agent decides and acts at once *)
ActClauses(t, u, a, scripted) ==
  LET same == SameSystem(t, u)
      m == [alloc |-> u.alloc[a], plan |-> PlanOf(u, a)]
      kept == same /\ u.flag = t.flag
      moved == ~u.flag
      want == S!Exec(S!Decide(t, a, <<m>>), a)
  IN (IF scripted \/ ~Judged \/ ~WellFormed(t) THEN {} ELSE DecisionClauses(t, a, kept, moved, m))
     \cup If(~same => ~u.flag, "P11", "the system changed although the agent kept its strategy")
     \cup If(~same => ~u.flag, "P13", "a move does not count as one")
     \cup If(SamePools(want, u, {}) /\ SameAllocs(want, u) /\ want.owned = u.owned, "P11", "executing a decision changed something else")
     \cup (IF same THEN {} ELSE PrivateClauses(t, a, m.plan) \cup TargetClauses(t, a, m.alloc))
     \cup If(\A b \in DOMAIN u.pend : u.pend[b] = << >>, "P12", "a decision was staged but not executed")

(* one agent decides *)
DecideClauses(t, u, a, scripted) ==
  LET q == u.pend[a]
      m == IF q = << >> THEN [alloc |-> << >>, plan |-> << >>] ELSE q[1]
  IN (IF scripted \/ ~Judged \/ ~WellFormed(t) THEN {} ELSE DecisionClauses(t, a, q = << >>, q # << >>, m))
     \cup If(SameSystem(t, u) /\ SamePends(t, u, {a}), "P11", "deciding changed the system")
     \cup If(SameSystem(t, u), "P12", "an agent acted when it was only to decide")
     \cup If(u.flag = t.flag, "P13", "deciding counts as a move")
     \cup (IF q = << >> THEN {} ELSE PrivateClauses(t, a, m.plan) \cup TargetClauses(t, a, m.alloc)
              \cup If(\A i \in DOMAIN m.plan : m.plan[i].own = a, "P02", "a planned pool has another owner"))

(* one agent executes what it decided *)
AdvanceClauses(t, u, a) ==
  LET want == S!Exec(t, a) IN
  If(SamePools(want, u, {}) /\ SameAllocs(want, u) /\ want.owned = u.owned /\ SamePends(want, u, {}),
     "P11", "executing a decision changed something else or not enough")
  \cup If(u.pend[a] = << >>, "P12", "an agent did not act on its decision")
  \cup If(u.flag = (t.flag /\ t.pend[a] = << >>), "P13", "a move does not count as one")

---------------------------------------------------------------------------
(* Rounds *)

At(seq, i) == IF i + 1 <= Len(seq) THEN seq[i + 1] ELSE seq[Len(seq)]
KValue(meta, ph) == IF meta.known THEN DDiv(DInt(At(meta.k, ph)), DSub(One, meta.inactive)) ELSE DInt(At(meta.k, ph))
LenMax(meta) == Max({Len(meta.k), Len(meta.a0), Len(meta.rel), Len(meta.abs), Len(meta.phi), Len(meta.maxit)})
Cfg(meta) == [iac |-> meta.iac, nphases |-> LenMax(meta), maxit |-> [ph \in 0..(LenMax(meta) - 1) |-> At(meta.maxit, ph)],
              changes |-> {ph \in 1..(LenMax(meta) - 1) : \E q \in {Len(meta.k), Len(meta.a0), Len(meta.rel), Len(meta.abs), Len(meta.phi), Len(meta.maxit)} : q > ph}]

ParamClauses(meta, ph, t) ==
  LET kv == KValue(meta, ph) IN
  If(t.sc.id = meta.scheme, "P14", "another reward scheme is in force")
  \cup If(t.sc.k = DFloor(kv) \/ t.sc.k = DFloor(DAdd(kv, D("1e-9"))), "P14", "k does not have the value of the phase")
  \cup If(UNear(t.sc.beta, DDiv(One, kv)), "P14", "the saturation threshold does not follow k")
  \cup If(t.sc.a0 = At(meta.a0, ph), "P14", "a0 does not have the value of the phase")
  \cup If(t.par.rel = At(meta.rel, ph) /\ t.par.abs = At(meta.abs, ph) /\ t.par.phi = At(meta.phi, ph) /\ t.par.maxit = At(meta.maxit, ph),
          "P14", "a parameter does not have the value of the phase")

Carried(t, u) ==
  /\ SamePools(t, u, {}) /\ SameAllocs(t, u) /\ t.owned = u.owned

(* the activations of a round, for each activation order *)
AllAgents == DOMAIN s.stake
Perm(seq) == Len(seq) = Cardinality(AllAgents) /\ {seq[i] : i \in DOMAIN seq} = AllAgents
Steps(acts) == MapSeq(SelectSeq(acts, LAMBDA x : x[1] = "step"), LAMBDA x : x[2])
RECURSIVE Groups(_, _)
Groups(acts, left) ==
  IF acts = << >> THEN left = {}
  ELSE LET g == IF Cardinality(left) < 5 THEN Cardinality(left) ELSE 5
           first == SubSeq(acts, 1, g)
           second == SubSeq(acts, g + 1, 2 * g)
           who(q) == {q[i][2] : i \in DOMAIN q}
       IN /\ g > 0 /\ Len(acts) >= 2 * g
          /\ \A i \in DOMAIN first : first[i][1] = "step" /\ second[i][1] = "advance"
          /\ Cardinality(who(first)) = g /\ who(first) \subseteq left /\ who(second) = who(first)
          /\ Groups(SubSeq(acts, 2 * g + 1, Len(acts)), left \ who(first))
Sorted(seq) == \A i \in 1..(Len(seq) - 1) : seq[i] < seq[i + 1]
ActivationOK(order, acts) ==
  LET n == Cardinality(AllAgents)
      who == MapSeq(acts, LAMBDA x : x[2])
  IN CASE order = "sequential" -> Perm(who) /\ Sorted(who) /\ \A i \in DOMAIN acts : acts[i][1] = "step"
       [] order = "random" -> Perm(who) /\ \A i \in DOMAIN acts : acts[i][1] = "step"
       [] order = "simultaneous" -> /\ Len(acts) = 2 * n /\ Perm(SubSeq(who, 1, n)) /\ Perm(SubSeq(who, n + 1, 2 * n))
                                    /\ \A i \in DOMAIN acts : acts[i][1] = IF i <= n THEN "step" ELSE "advance"
       [] order = "semisimultaneous" -> Groups(acts, AllAgents)

(* Fresh random orders, judged over many rounds (the bounds are more than six standard deviations wide): each agent comes
   before each other one in about half of the rounds, nobody has a fixed place, an order does not follow from the last one,
   and with groups of five every two agents are sometimes together and sometimes not *)
Place(q, a) == CHOOSE i \in DOMAIN q : q[i] = a
FreshOrders(orders, groups) ==
  LET m == Len(orders)
      n == Cardinality(AllAgents)
      pos == TLCEval([r \in 1..m |-> TLCEval([a \in AllAgents |-> Place(orders[r], a)])])
      Times(P(_)) == Cardinality({r \in 1..m : P(r)})
      Next_(r, a, b) == pos[r][b] = pos[r][a] + 1
      Sq(x) == x * x
      Follow(back) == \* neighbours that are neighbours in the next round again, on average one
        FoldSet(LAMBDA r, acc : acc + Cardinality({i \in 1..(n - 1) :
                  LET a == orders[r][i]  b == orders[r][i + 1] IN IF back THEN Next_(r + 1, b, a) ELSE Next_(r + 1, a, b)}),
                0, 1..(m - 1))
  IN /\ \A a, b \in AllAgents : a < b => Sq(2 * Times(LAMBDA r : pos[r][a] < pos[r][b]) - m) <= 44 * m
     /\ \A a \in AllAgents : \A i \in 1..n : Times(LAMBDA r : pos[r][a] = i) * n <= 4 * m
     /\ Follow(FALSE) <= 2 * m /\ Follow(TRUE) <= 2 * m
     /\ groups => \A a, b \in AllAgents : a < b =>
          LET c == Times(LAMBDA r : (pos[r][a] - 1) \div 5 = (pos[r][b] - 1) \div 5) IN c > 0 /\ 10 * c < 7 * m

XOf(x) == [steps |-> x.steps, rows |-> IF Len(x.rows) = 1 THEN x.rows[1] ELSE -1, idle |-> x.idle, phase |-> x.phase,
           eq |-> x.eq, piv |-> x.piv, running |-> x.running, conv |-> x.conv]

---------------------------------------------------------------------------
(* The trace as a behaviour *)

Tag(prop_clauses, run, at) == {<<c[1], c[2], run, at>> : c \in prop_clauses}
Count(f, tags) == [t \in tags |-> IF t \in DOMAIN f THEN f[t] + 1 ELSE 1] @@ f

Empty == [pools |-> << >>, alloc |-> << >>, owned |-> << >>, ownedSeq |-> << >>, pend |-> << >>, stake |-> << >>,
          cost |-> << >>, prof |-> << >>, rk |-> << >>, rkm |-> << >>, sc |-> << >>, par |-> << >>, flag |-> TRUE, top |-> 0]
Init == file \in TraceFiles /\ l = 1 /\ s = Empty /\ w = [run |-> -1, live |-> FALSE] /\ bad = {} /\ cov = << >>

Ev == Log[l]

Start ==
  /\ Ev.t = "init"
  /\ LET t == RdInit(Ev)
         cfg == Cfg(Ev.meta)
         x == XOf(Ev.x)
         f == If([x EXCEPT !.rows = 0] = R!Begin /\ Ev.x.nphases = cfg.nphases /\ Ev.x.iac = cfg.iac, "P13", "the run does not begin at the beginning")
              \cup ParamClauses(Ev.meta, 0, t)
              \cup If(DOMAIN t.pools = {} /\ \A a \in DOMAIN t.alloc : t.alloc[a] = << >> /\ t.owned[a] = {} /\ t.pend[a] = << >>, "P16", "the run does not begin without pools")
              \cup StateClauses(t)
     IN /\ s' = t
        /\ w' = [run |-> Ev.meta.run, live |-> TRUE, meta |-> Ev.meta, order |-> Ev.order, scripted |-> Ev.scripted, cfg |-> cfg,
                 x |-> [x EXCEPT !.rows = 0], acts |-> << >>, orders |-> << >>, in |-> FALSE]
        /\ bad' = bad \cup Tag(f, Ev.meta.run, l)
        /\ cov' = Count(cov, {"runs"})

Crash ==
  /\ Ev.t = "crash"
  /\ s' = s /\ w' = [w EXCEPT !.live = FALSE]
  /\ bad' = IF w.live \/ Ev.where = "start" \/ l = 1 \/ Log[l - 1].t # "crash" THEN bad \cup {<<"CRASH", Ev.err, w.run, l>>} ELSE bad
  /\ cov' = Count(cov, {"crashes"})

Dead == ~w.live /\ Ev.t \notin {"init", "crash"} /\ UNCHANGED <<s, w, bad, cov>>

RoundStart ==
  /\ w.live /\ Ev.t = "round"
  /\ LET u == Apply(s, Ev)
         f == If(SameSystem(s, u) /\ SamePends(s, u, {}) /\ s.rk = u.rk /\ s.rkm = u.rkm, "P11", "the system changed between rounds")
              \cup If(w.x.running, "P13", "a round after the end")
              \cup If(XOf(Ev.x) = w.x, "P13", "the state of the run changed between rounds")
              \cup If(Ev.flag, "P13", "a round does not start as an idle one")
              \cup Fixed_(s, u)
     IN /\ s' = u
        /\ w' = [w EXCEPT !.acts = << >>, !.in = TRUE]
        /\ bad' = bad \cup Tag(f, w.run, l)
        /\ cov' = Count(cov, {"rounds"})

Note(t, u, a, move) ==  \* coverage
  LET p == DOMAIN t.pools  q == DOMAIN u.pools IN
  {w.order}
  \cup (IF move THEN {IF u.owned[a] = {} THEN IF t.owned[a] = {} THEN "delegations" ELSE "operators that became delegators"
                      ELSE IF t.owned[a] = {} THEN "new operators" ELSE "operators that changed"} ELSE {"kept strategies"})
  \cup (IF q \ p # {} THEN {"pools opened"} ELSE {}) \cup (IF p \ q # {} THEN {"pools closed"} ELSE {})
  \cup (IF \E i \in p \ q : t.pools[i].dels # << >> THEN {"pools closed with delegators"} ELSE {})
  \cup (IF \E i \in p \cap q : ~t.pools[i].priv /\ u.pools[i].priv THEN {"pools turned private"} ELSE {})
  \cup (IF \E i \in p \cap q : ~t.pools[i].priv /\ u.pools[i].priv /\ t.pools[i].dels # << >> THEN {"pools turned private with delegators"} ELSE {})
  \cup (IF \E i \in p \cap q : t.pools[i].priv /\ ~u.pools[i].priv THEN {"private pools turned public"} ELSE {})
  \cup (IF Cardinality(u.owned[a]) > 1 THEN {"pool splitters"} ELSE {})
  \cup (IF Cardinality(u.owned[a]) < Cardinality(t.owned[a]) /\ u.owned[a] # {} THEN {"operators that kept some pools"} ELSE {})
  \cup (IF u.owned[a] # {} /\ u.alloc[a] # << >> THEN {"operators that also delegate"} ELSE {})
  \cup (IF Cardinality(DOMAIN u.alloc[a]) > 1 THEN {"delegations to several pools"} ELSE {})
  \cup (IF \E i \in DOMAIN u.alloc[a] \cap q : DLt(DAdd(SatThr(u.sc, u.pools[i].pledge), D("1e-9")), u.pools[i].stake) THEN {"oversaturated pools"} ELSE {})

Step ==
  /\ w.live /\ Ev.t = "step"
  /\ LET u == Apply(s, Ev)
         atonce == w.order \in {"random", "sequential"}
         quiet == u = s
         f == (IF atonce THEN ActClauses(s, u, Ev.a, w.scripted) ELSE DecideClauses(s, u, Ev.a, w.scripted))
              \cup Fixed_(s, u)
              \cup (IF quiet THEN {} ELSE IdClauses(s, u) \cup StateClauses(u))
              \cup If(s.sc = u.sc /\ s.par = u.par, "P14", "a parameter changed within a phase")
     IN /\ s' = u
        /\ w' = [w EXCEPT !.acts = Append(@, <<"step", Ev.a>>)]
        /\ bad' = bad \cup Tag(f, w.run, l)
        /\ cov' = Count(cov, {"decisions"} \cup (IF atonce THEN Note(s, u, Ev.a, ~quiet) ELSE IF u.pend[Ev.a] = << >> THEN {"kept strategies"} ELSE {}))

(* an agent is asked what it would decide now, with a certain threshold and cost; nothing comes of it *)
Probe ==
  /\ w.live /\ Ev.t = "probe"
  /\ LET u == Apply(s, Ev)
         q == RdPend(Ev.m)
         m == IF q = << >> THEN [alloc |-> << >>, plan |-> << >>] ELSE q[1]
         t == [s EXCEPT !.par.abs = Ev.abs, !.cost[Ev.a] = Ev.cost]
         f == (IF ~Judged \/ ~WellFormed(s) THEN {} ELSE DecisionClauses(t, Ev.a, q = << >>, q # << >>, m))
              \cup If(SameSystem(s, u) /\ SamePends(s, u, {}), "P11", "deciding changed the system")
              \cup If(u.flag = s.flag, "P13", "deciding counts as a move")
              \cup (IF q = << >> THEN {} ELSE PrivateClauses(s, Ev.a, m.plan) \cup TargetClauses(s, Ev.a, m.alloc)
                       \cup If(\A i \in DOMAIN m.plan : m.plan[i].own = Ev.a, "P02", "a planned pool has another owner")
                       \cup If(LET sum == DSum(MapSeq(SetToSeq(DOMAIN m.plan), LAMBDA i : m.plan[i].pledge)
                                             \o MapSeq(SetToSeq(DOMAIN m.alloc), LAMBDA i : m.alloc[i]))
                               IN DLe(sum, s.stake[Ev.a]) \/ SNear(sum, s.stake[Ev.a]), "P03", "an agent wants to commit more than its stake"))
              \cup Fixed_(s, u)
              \cup (IF u = s THEN {} ELSE StateClauses(u))
              \cup If(s.sc = u.sc /\ s.par = u.par, "P14", "a parameter changed within a phase")
     IN /\ s' = u
        /\ w' = w
        /\ bad' = bad \cup Tag(f, w.run, l)
        /\ cov' = Count(cov, {"probed decisions"} \cup (IF Ev.abs # s.par.abs THEN {"probe: with another threshold"} ELSE {})
              \cup (IF q = << >> THEN {"probe: keep"} ELSE IF DOMAIN m.plan = {} THEN {"probe: delegate"} ELSE {"probe: operate"})
              \cup (IF q # << >> /\ DOMAIN m.plan # {} /\ Cardinality(DOMAIN m.plan) < Cardinality(s.owned[Ev.a]) THEN {"probe: fewer pools"} ELSE {})
              \cup (IF q # << >> /\ m.alloc # << >> /\ DOMAIN m.plan # {} THEN {"probe: operate and delegate"} ELSE {}))

Advance ==
  /\ w.live /\ Ev.t = "advance"
  /\ LET u == Apply(s, Ev)
         f == AdvanceClauses(s, u, Ev.a) \cup Fixed_(s, u)
              \cup (IF u = s THEN {} ELSE IdClauses(s, u) \cup StateClauses(u))
              \cup If(s.sc = u.sc /\ s.par = u.par, "P14", "a parameter changed within a phase")
     IN /\ s' = u
        /\ w' = [w EXCEPT !.acts = Append(@, <<"advance", Ev.a>>)]
        /\ bad' = bad \cup Tag(f, w.run, l)
        /\ cov' = Count(cov, {"executions"} \cup (IF s.pend[Ev.a] # << >> THEN Note(s, u, Ev.a, TRUE) ELSE {}))

RoundEnd ==
  /\ w.live /\ Ev.t = "end"
  /\ LET u == Apply(s, Ev)
         want == R!AfterRound(w.x, s.flag, w.cfg)
         x == XOf(Ev.x)
         active == R!Activates(w.x, w.cfg)
         change == want.phase # w.x.phase
         f == If(IF active THEN ActivationOK(w.order, w.acts) ELSE w.acts = << >>, "P12", "agents were not activated once each in the configured order")
              \cup If([x EXCEPT !.rows = 0, !.phase = 0, !.piv = << >>, !.conv = FALSE] = [want EXCEPT !.rows = 0, !.phase = 0, !.piv = << >>, !.conv = FALSE],
                      "P13", "rounds, idle rounds, equilibria or the end are not as specified")
              \cup If(x.running \/ x.conv = want.conv, "P13", "convergence is reported wrongly")
              \cup If(x.phase = want.phase /\ x.piv = want.piv, "P14", "the phase did not change as specified")
              \cup If(x.rows = want.rows, "P17", "not exactly one data point per metric and round")
              \cup If(Carried(s, u) /\ SamePends(s, u, {}), IF change THEN "P14" ELSE "P11", "the system changed at the end of a round")
              \cup (IF change THEN StateClauses(u) \cup ParamClauses(w.meta, want.phase, u)
                                   \cup If(\A c \in StateClauses(u) : c[1] \notin {"P05", "P23"}, "P14", "profits or rankings do not reflect the new parameters")
                    ELSE If(s.sc = u.sc /\ s.par = u.par, "P14", "a parameter changed within a phase"))
              \cup Fixed_(s, u)
     IN /\ s' = u
        /\ w' = [w EXCEPT !.x = [x EXCEPT !.rows = IF @ = -1 THEN want.rows ELSE @], !.acts = << >>,
                          !.orders = IF active THEN Append(@, Steps(w.acts)) ELSE @]
        /\ bad' = bad \cup Tag(f, w.run, l)
        /\ cov' = Count(cov, (IF ~active THEN {"rounds at the limit"} ELSE IF s.flag THEN {"idle rounds"} ELSE {"active rounds"})
                              \cup (IF change THEN {"phase changes", "phase changes to phase " \o ToString(want.phase)} ELSE {}) \cup (IF x.conv THEN {"converged"} ELSE {})
                              \cup (IF change /\ DOMAIN u.pools # {} THEN {"phase changes with pools"} ELSE {}))

Done ==
  /\ w.live /\ Ev.t = "done"
  /\ LET u == Apply(s, Ev)
         shuffles == w.order \in {"random", "semisimultaneous"} /\ Cardinality(AllAgents) >= 7 /\ Len(w.orders) >= 4
         f == If(~Ev.x.running /\ ~w.x.running, "P13", "the run stopped before its end")
              \cup If(XOf(Ev.x) = w.x, "P13", "the state of the run changed after its end")
              \cup If(Ev.stated \in {"?", IF w.x.conv THEN "Yes" ELSE "No"}, "P13", "the end of the run is reported wrongly")
              \cup If(SameSystem(s, u), "P11", "the system changed after the end")
              \cup If(shuffles => \E i \in DOMAIN w.orders : w.orders[i] # w.orders[1], "P12", "the order of activation is not random")
              \cup If(w.order \in {"random", "semisimultaneous"} /\ Cardinality(AllAgents) \in 7..14 /\ Len(w.orders) >= 150
                        => FreshOrders(w.orders, w.order = "semisimultaneous"), "P12", "the order of activation is not random")
     IN /\ s' = u
        /\ w' = [w EXCEPT !.live = FALSE]
        /\ bad' = bad \cup Tag(f, w.run, l)
        /\ cov' = Count(cov, {"complete runs"} \cup (IF Len(w.orders) >= 150 THEN {"long runs"} ELSE {}))

(* the recording of a scripted behaviour ends here *)
Cut ==
  /\ w.live /\ Ev.t = "cut"
  /\ LET u == Apply(s, Ev)
         f == If(u = s, "P11", "the system changed although nobody acted")
     IN /\ s' = u
        /\ w' = [w EXCEPT !.live = FALSE]
        /\ bad' = bad \cup Tag(f, w.run, l)
        /\ cov' = Count(cov, {"complete runs"})

Report ==
  /\ l = Len(Log) + 1
  /\ PrintT("RESULT " \o ToJson([file |-> file, events |-> Len(Log), bad |-> SetToSeq(bad),
                                 cov |-> [i \in 1..Cardinality(DOMAIN cov) |-> <<SetToSeq(DOMAIN cov)[i], cov[SetToSeq(DOMAIN cov)[i]]>>]]))
  /\ UNCHANGED <<s, w, bad, cov>>

Next == /\ l <= Len(Log) + 1
        /\ l' = l + 1 /\ file' = file
        /\ \/ /\ l <= Len(Log)
              /\ Start \/ Crash \/ Dead \/ RoundStart \/ Step \/ Probe \/ Advance \/ RoundEnd \/ Done \/ Cut
           \/ Report
Spec == Init /\ [][Next]_vars
View == <<file, l>>
=============================================================================
