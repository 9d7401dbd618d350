------------------------------ MODULE MCStaking ------------------------------
(* Staking with integer amounts and arbitrary moves: agents are activated in *)
(* groups, all members of a group decide before any of them acts (a group of *)
(* one is sequential activation).  An agent may decide any move that the     *)
(* rules allow, whether it is to its advantage or not.                       *)
(*                                                                           *)
(* MCStaking.cfg (exhaustive) checks the invariants of P01-P04, P11 and P12  *)
(* for small constants; with -simulate the behaviours are written as JSON    *)
(* and replayed on the code (harness/staking.py).                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization

CONSTANTS N,         \* agents 0..N-1
          Wealth,    \* <<stake of agent 0, ...>>
          Sat,       \* saturation threshold
          MaxId,     \* number of pools that may ever be opened
          MaxOwn,    \* pools per agent
          GroupSize, \* largest group
          Broken,    \* name of a deliberate defect ("" : none), to show that the invariants can fail
          Emit,      \* write behaviours?
          Depth      \* their length

Agent == 0..(N - 1)
W22 == <<2, 2>>
W32 == <<3, 2>>
W211 == <<2, 1, 1>>
W221 == <<2, 2, 1>>
W222 == <<2, 2, 2>>
W4321 == <<4, 3, 2, 1>>
W55443 == <<5, 5, 4, 4, 3>>
W33222 == <<3, 3, 2, 2, 2>>
W6222 == <<6, 2, 2, 2>>
W3221 == <<3, 2, 2, 1>>
W2211 == <<2, 2, 1, 1>>
W9543 == <<9, 5, 4, 3>>

S == INSTANCE Staking WITH Zero <- 0, Plus <- LAMBDA x, y : x + y, Minus <- LAMBDA x, y : x - y,
       Dust <- LAMBDA x : x = 0, Same <- LAMBDA x, y : x = y, AtMost <- LAMBDA x, y : x <= y

VARIABLES s,       \* the staking system
          nid,     \* the last pool id handed out
          todo,    \* members of the group that have not decided yet
          staged,  \* members of the group that have decided, but not acted yet
          hist     \* what has happened (only if Emit)
vars == <<s, nid, todo, staged, hist>>

Own(a) == Wealth[a + 1]
None == << >>

Init == /\ s = [pools |-> << >>, alloc |-> [a \in Agent |-> << >>], owned |-> [a \in Agent |-> {}], pend |-> [a \in Agent |-> None]]
        /\ nid = 0 /\ todo = {} /\ staged = {} /\ hist = << >>

Log(e, t) == hist' = IF Emit THEN Append(hist, [e |-> e, s |-> t]) ELSE hist

(* the moves that the rules allow agent a in state s *)
PoolOf(p) == [pledge |-> p, cost |-> 0, mar |-> 0, priv |-> p >= Sat]
Plans(a) ==
  {[i \in K \cup {nid + j : j \in 1..new} |-> PoolOf(p)] :
     K \in SUBSET s.owned[a], new \in 0..MaxOwn, p \in {q \in 1..Own(a) : q <= Sat}}
PlanOK(a, plan) ==
  /\ Cardinality(DOMAIN plan) <= MaxOwn
  /\ \A i \in DOMAIN plan : i <= MaxId
  /\ FoldSet(LAMBDA i, acc : acc + plan[i].pledge, 0, DOMAIN plan) <= Own(a)
Targets(a) == {i \in DOMAIN s.pools : s.pools[i].own # a /\ ~s.pools[i].priv}
RECURSIVE Allocs(_, _)
Allocs(T, amt) ==
  IF T = {} THEN {<< >>}
  ELSE LET i == CHOOSE i \in T : TRUE
       IN UNION {IF x = 0 THEN Allocs(T \ {i}, amt)
                 ELSE {(i :> x) @@ f : f \in Allocs(T \ {i}, amt - x)} : x \in 0..amt}
Left(a, plan) == Own(a) - FoldSet(LAMBDA i, acc : acc + plan[i].pledge, 0, DOMAIN plan)

Group ==
  /\ todo = {} /\ staged = {}
  /\ \E G \in SUBSET Agent :
       /\ G # {} /\ Cardinality(G) <= GroupSize
       /\ todo' = G
       /\ UNCHANGED <<s, nid, staged>>
       /\ Log([t |-> "group", who |-> SetToSeq(G)], s)

Keep(a) ==
  /\ a \in todo
  /\ todo' = todo \ {a} /\ staged' = staged \cup {a}
  /\ UNCHANGED <<s, nid>>
  /\ Log([t |-> "keep", a |-> a], s)

Pairs(f) == LET d == SetToSeq(DOMAIN f) IN [i \in 1..Len(d) |-> <<d[i], f[d[i]]>>]

Some(k, T) == IF Emit THEN RandomSubset(IF Cardinality(T) < k THEN Cardinality(T) ELSE k, T) ELSE T
Decide(a) ==
  /\ a \in todo
  /\ \E plan \in Some(3, {p \in Plans(a) : PlanOK(a, p)}) :
       \E al \in Some(2, Allocs(Some(3, Targets(a)), Left(a, plan))) :
            /\ s' = S!Decide(s, a, <<[alloc |-> al, plan |-> plan]>>)
            /\ nid' = nid + Cardinality(DOMAIN plan \ s.owned[a])
            /\ todo' = todo \ {a} /\ staged' = staged \cup {a}
            /\ Log([t |-> "decide", a |-> a, alloc |-> Pairs(al),
                    keep |-> SetToSeq(DOMAIN plan \cap s.owned[a]), new |-> SetToSortSeq(DOMAIN plan \ s.owned[a], LAMBDA x, y : x < y),
                    pledge |-> IF DOMAIN plan = {} THEN 0 ELSE plan[CHOOSE i \in DOMAIN plan : TRUE].pledge,
                    priv |-> IF DOMAIN plan = {} THEN FALSE ELSE plan[CHOOSE i \in DOMAIN plan : TRUE].priv], s')

(* deciding the same once more (in the code: the same pools and delegations, but for slightly different amounts) *)
Redo(a) ==
  /\ Emit /\ a \in todo
  /\ DOMAIN s.alloc[a] \subseteq Targets(a) /\ (s.owned[a] # {} \/ DOMAIN s.alloc[a] # {})
  /\ LET plan == [i \in s.owned[a] |-> PoolOf(s.pools[i].pledge)] IN
     /\ s' = S!Decide(s, a, <<[alloc |-> s.alloc[a], plan |-> plan]>>)
     /\ UNCHANGED nid
     /\ todo' = todo \ {a} /\ staged' = staged \cup {a}
     /\ Log([t |-> "decide", a |-> a, alloc |-> Pairs(s.alloc[a]), keep |-> SetToSeq(DOMAIN plan), new |-> << >>,
             pledge |-> IF DOMAIN plan = {} THEN 0 ELSE plan[CHOOSE i \in DOMAIN plan : TRUE].pledge,
             priv |-> IF DOMAIN plan = {} THEN FALSE ELSE plan[CHOOSE i \in DOMAIN plan : TRUE].priv], s')

(* deliberate defects, each close to one that the code had or might have *)
BrokenExec(a) ==
  CASE Broken = "" -> S!Exec(s, a)
    [] Broken = "stale update" ->    \* an updated pool replaces the present one with the stake at the time of the decision
         LET t == S!Exec(s, a) IN
         [t EXCEPT !.pools = [i \in DOMAIN t.pools |->
            IF i \in s.owned[a] /\ i \in DOMAIN t.pools /\ ~t.pools[i].priv THEN [t.pools[i] EXCEPT !.dels = << >>] ELSE t.pools[i]]]
    [] Broken = "keeps pending" ->   \* pending delegations to a closed or private pool stay
         LET t == S!Exec(s, a) IN [t EXCEPT !.pend = [b \in Agent |-> IF b = a THEN None ELSE s.pend[b]]]
    [] Broken = "private keeps" ->   \* a pool that turns private keeps its delegators
         LET t == S!Exec(s, a) IN
         [t EXCEPT !.pools = [i \in DOMAIN t.pools |->
            IF i \in s.owned[a] /\ t.pools[i].priv THEN [t.pools[i] EXCEPT !.dels = s.pools[i].dels] ELSE t.pools[i]]]
    [] Broken = "close keeps" ->     \* closing a pool does not return the delegators' stake
         LET t == S!Exec(s, a) IN [t EXCEPT !.alloc = [b \in Agent |-> IF b = a THEN t.alloc[b] ELSE s.alloc[b]]]

Act(a) ==
  /\ todo = {} /\ a \in staged
  /\ staged' = staged \ {a}
  /\ s' = IF s.pend[a] = None THEN s ELSE BrokenExec(a)
  /\ UNCHANGED <<nid, todo>>
  /\ Log([t |-> "act", a |-> a], s')

Room == Emit => Len(hist) < Depth - 1
Finish == /\ Emit /\ Len(hist) = Depth - 1
          /\ Log([t |-> "finish"], s)
          /\ UNCHANGED <<s, nid, todo, staged>>

Next == \/ Room /\ (Group \/ \E a \in Agent : Keep(a) \/ Redo(a) \/ Decide(a) \/ Act(a))
        \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Total == FoldSet(LAMBDA a, acc : acc + Own(a), 0, Agent)
P01 == S!StakeInv(s)
P02 == S!OwnerInv(s) /\ S!DelegationInv(s) /\ \A i \in DOMAIN s.pools : i <= nid
P03 == S!CommitInv(s, [a \in Agent |-> Own(a)]) /\ S!TotalInv(s, Total)
P04 == S!PrivateInv(s)
       /\ \A a \in Agent : s.pend[a] # None => \A i \in DOMAIN s.pend[a][1].alloc : i \in DOMAIN s.pools => ~s.pools[i].priv
PendOK == \A a \in Agent : s.pend[a] # None => \A i \in DOMAIN s.pend[a][1].alloc : i \in DOMAIN s.pools
(* P11: deciding changes nothing; acting changes only what concerns the agent or delegations to its pools *)
Frame == \A a \in Agent :
  (staged' = staged \ {a} /\ a \in staged) =>
     /\ \A i \in DOMAIN s.pools \cap DOMAIN s'.pools :
          /\ (s.pools[i].own # a => [s.pools[i] EXCEPT !.dels = [b \in DOMAIN @ \ {a} |-> @[b]], !.stake = 0]
                                    = [s'.pools[i] EXCEPT !.dels = [b \in DOMAIN @ \ {a} |-> @[b]], !.stake = 0])
     /\ \A i \in (DOMAIN s.pools \ DOMAIN s'.pools) : s.pools[i].own = a
     /\ \A b \in Agent \ {a} : \A i \in DOMAIN s.alloc[b] \ s.owned[a] : i \in DOMAIN s'.alloc[b] /\ s'.alloc[b][i] = s.alloc[b][i]
     /\ (s.pend[a] # None => s'.owned[a] = DOMAIN s.pend[a][1].plan /\ s'.alloc[a] = s.pend[a][1].alloc)
Quiet == \A a \in Agent : (todo' = todo \ {a} /\ a \in todo) =>
            s'.pools = s.pools /\ s'.alloc = s.alloc /\ s'.owned = s.owned
FrameProp == [][Frame /\ Quiet]_vars

(* ids are only ever handed out once: a pool keeps its owner *)
Ids == [][\A i \in DOMAIN s.pools \cap DOMAIN s'.pools : s.pools[i].own = s'.pools[i].own]_vars

View == <<s, nid, todo, staged>>

(* writing behaviours: the state as the recorder of the code sees it *)
OutPool(i, p) == [id |-> i, own |-> p.own, pledge |-> p.pledge, stake |-> p.stake, priv |-> p.priv, dels |-> Pairs(p.dels)]
OutState(t) == [pools |-> LET d == SetToSeq(DOMAIN t.pools) IN [i \in 1..Len(d) |-> OutPool(d[i], t.pools[d[i]])],
                alloc |-> [i \in 1..N |-> Pairs(t.alloc[i - 1])],
                owned |-> [i \in 1..N |-> SetToSeq(t.owned[i - 1])],
                pend  |-> [i \in 1..N |-> IF t.pend[i - 1] = None THEN << >>
                                          ELSE <<[alloc |-> Pairs(t.pend[i - 1][1].alloc),
                                                  plan |-> LET q == t.pend[i - 1][1].plan d == SetToSeq(DOMAIN q)
                                                           IN [j \in 1..Len(d) |-> <<d[j], q[d[j]].pledge, q[d[j]].priv>>]]>>]]
Written == (Emit /\ Len(hist) = Depth) =>
   PrintT("BEHAVIOUR " \o ToJson([i \in 1..Len(hist) |-> [e |-> hist[i].e, s |-> OutState(hist[i].s)]]))
=============================================================================
