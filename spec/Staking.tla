------------------------------- MODULE Staking -------------------------------
(* The structure of the staking system: who runs which pools, who delegates  *)
(* what to whom, which moves are decided but not yet executed.               *)
(*                                                                           *)
(* Amounts of stake are abstract: MCStaking instantiates them with integers  *)
(* (exhaustive checking, generation of behaviours), Trace with IEEE doubles  *)
(* (checking of executions recorded from the code).                          *)
(*                                                                           *)
(* A state is a record with (at least) the fields                            *)
(*   pools : [id -> [own, pledge, stake, cost, mar, priv, dels: [agent->amt]]]*)
(*   alloc : [agent -> [id -> amount]]      the agent's delegations          *)
(*   owned : [agent -> set of ids]          the agent's own pools            *)
(*   pend  : [agent -> << >> or <<move>>]   a decision not yet executed      *)
(* and a move is [alloc : [id -> amount], plan : [id -> [pledge, cost, mar,  *)
(* priv]]]: the delegations and the pools that the agent will have.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Zero, Plus(_,_), Minus(_,_),
          Dust(_),        \* amounts too small to be recorded
          Same(_,_),      \* equality of amounts (up to rounding)
          AtMost(_,_)     \* order of amounts (up to rounding)

Drop(f, k) == IF k \in DOMAIN f THEN TLCEval([x \in DOMAIN f \ {k} |-> f[x]]) ELSE f
Get(f, k)  == IF k \in DOMAIN f THEN f[k] ELSE Zero

Sum(f) == FoldSet(LAMBDA x, acc : Plus(acc, f[x]), Zero, DOMAIN f)

---------------------------------------------------------------------------
(* One delegation of agent a to pool p becomes amt *)
SetDelegation(p, a, amt) ==
  [p EXCEPT !.stake = Plus(Minus(@, Get(p.dels, a)), amt),
            !.dels  = IF Dust(amt) THEN Drop(@, a) ELSE (a :> amt) @@ @]

(* All delegators of pool id get their stake back, also what is about to be delegated *)
Expel(s, id) ==
  [s EXCEPT !.pools[id].stake = Minus(@, Sum(s.pools[id].dels)),
            !.pools[id].dels  = << >>,
            !.alloc = TLCEval([a \in DOMAIN s.alloc |-> IF a \in DOMAIN s.pools[id].dels THEN Drop(s.alloc[a], id) ELSE s.alloc[a]]),
            !.pend  = TLCEval([a \in DOMAIN s.pend |-> LET q == s.pend[a] IN
                                  IF q = << >> THEN << >> ELSE <<[q[1] EXCEPT !.alloc = Drop(@, id)]>>])]

Close(id, s) == LET t == Expel(s, id) IN [t EXCEPT !.pools = Drop(@, id)]

(* The operator changes an open pool; what others delegate to it stays, unless it becomes private *)
Update(id, s, q) ==
  LET t == [s EXCEPT !.pools[id] = [@ EXCEPT !.stake = Plus(Minus(@, s.pools[id].pledge), q.pledge),
                                             !.pledge = q.pledge, !.cost = q.cost, !.mar = q.mar, !.priv = q.priv]]
  IN IF q.priv THEN Expel(t, id) ELSE t

Open(id, s, a, q) ==
  [s EXCEPT !.pools = (id :> [own |-> a, pledge |-> q.pledge, stake |-> q.pledge, cost |-> q.cost, mar |-> q.mar,
                              priv |-> q.priv, dels |-> << >>]) @@ @]

(* Agent a executes its pending move: redelegate, close, update, open -- in this order *)
Redelegate(s, a) ==
  LET new == s.pend[a][1].alloc
      old == s.alloc[a]
      One(id, t) == [t EXCEPT !.pools[id] = SetDelegation(@, a, Get(new, id))]
  IN FoldSet(One, s, (DOMAIN old \cup DOMAIN new) \cap DOMAIN s.pools)

Exec(s, a) ==
  IF s.pend[a] = << >> THEN s
  ELSE LET plan == s.pend[a][1].plan
           s1 == Redelegate(s, a)
           s2 == FoldSet(Close, s1, s.owned[a] \ DOMAIN plan)
           s3 == FoldSet(LAMBDA id, t : Update(id, t, plan[id]), s2, s.owned[a] \cap DOMAIN plan)
           s4 == [s3 EXCEPT !.alloc[a] = s3.pend[a][1].alloc, !.owned[a] = DOMAIN plan, !.pend[a] = << >>]
       IN FoldSet(LAMBDA id, t : Open(id, t, a, plan[id]), s4, DOMAIN plan \ s.owned[a])

Decide(s, a, move) == [s EXCEPT !.pend[a] = move]

---------------------------------------------------------------------------
(* Properties of states *)

(* P01 *)
PoolStakeOK(p) == /\ Same(p.stake, Plus(p.pledge, Sum(p.dels)))
                  /\ \A a \in DOMAIN p.dels : AtMost(Zero, p.dels[a])
StakeInv(s) == \A id \in DOMAIN s.pools : PoolStakeOK(s.pools[id])

(* P02 *)
OwnerInv(s) ==
  /\ \A a \in DOMAIN s.owned : \A id \in s.owned[a] : id \in DOMAIN s.pools /\ s.pools[id].own = a
  /\ \A id \in DOMAIN s.pools : LET o == s.pools[id].own IN o \in DOMAIN s.owned /\ id \in s.owned[o]
DelegationInv(s) ==
  /\ \A a \in DOMAIN s.alloc : \A id \in DOMAIN s.alloc[a] :
        \/ id \in DOMAIN s.pools /\ Same(s.alloc[a][id], Get(s.pools[id].dels, a))
        \/ id \notin DOMAIN s.pools /\ Same(s.alloc[a][id], Zero)
  /\ \A id \in DOMAIN s.pools : \A a \in DOMAIN s.pools[id].dels :
        a \in DOMAIN s.alloc /\ Same(Get(s.alloc[a], id), s.pools[id].dels[a])

(* P03 *)
Pledged(s, a)  == Sum([id \in s.owned[a] \cap DOMAIN s.pools |-> s.pools[id].pledge])
CommitInv(s, stake) ==
  \A a \in DOMAIN s.alloc : AtMost(Plus(Pledged(s, a), Sum(s.alloc[a])), stake[a])
TotalInv(s, total) == AtMost(Sum([id \in DOMAIN s.pools |-> s.pools[id].stake]), total)

(* P04 *)
PrivateInv(s) == \A id \in DOMAIN s.pools : s.pools[id].priv => \A a \in DOMAIN s.pools[id].dels : Same(s.pools[id].dels[a], Zero)

---------------------------------------------------------------------------
(* Agreement of two states (the outcome that is expected and the one that is observed) *)
SameFcn(f, g) == \A x \in DOMAIN f \cup DOMAIN g : Same(Get(f, x), Get(g, x))
SamePool(p, q) == /\ p.own = q.own /\ p.priv = q.priv
                  /\ Same(p.pledge, q.pledge) /\ Same(p.stake, q.stake) /\ Same(p.cost, q.cost) /\ Same(p.mar, q.mar)
                  /\ SameFcn(p.dels, q.dels)
=============================================================================
