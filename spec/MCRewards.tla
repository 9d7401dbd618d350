------------------------------ MODULE MCRewards ------------------------------
(* Epochs in which the stake of the system is spread over pools and rewards   *)
(* are paid, and pools whose profit is handed out to their members: the       *)
(* guarantees of P06 and P07 for the formulas of Engine, on a grid of stakes, *)
(* pledges, k and a0 for all reward schemes.  Each payment and each hand-out  *)
(* is also printed, to be compared with the code (harness/rewards.py).        *)
EXTENDS Engine, Json

CONSTANTS G,        \* the stake of the system is G units
          Ks, A0s,  \* values of k, of a0 (text)
          Broken,   \* a deliberate defect, or ""
          Emit

VARIABLES sc, rest, paid, last, pool
vars == <<sc, rest, paid, last, pool>>

Schemes == {[id |-> i, k |-> k, a0 |-> D(a), beta |-> DDiv(Pot, DInt(k))] : i \in 0..4, k \in Ks, a \in A0s}
U(n) == DDiv(DInt(n), DInt(G))
Pay(c, p, st) ==
  IF Broken = "no cap" THEN Reward([c EXCEPT !.beta = DMul(DInt(2), @)], p, st)
  ELSE IF Broken = "pledge adds" THEN DAdd(Reward(c, p, st), DMul(c.a0, p)) ELSE Reward(c, p, st)

Nothing == [stage |-> "none"]
Init == sc \in Schemes /\ rest = G /\ paid = Zero /\ last = <<G, G>> /\ pool = Nothing

(* the stake of the system is spread over pools, larger ones first *)
OpenPool == /\ pool = Nothing
            /\ \E st \in 1..G, pl \in 0..G :
                 /\ st <= rest /\ pl <= st /\ (st < last[1] \/ (st = last[1] /\ pl <= last[2]))
                 /\ rest' = rest - st /\ last' = <<st, pl>>
                 /\ paid' = DAdd(paid, Pay(sc, U(pl), U(st)))
                 /\ (Emit /\ paid = Zero) => PrintT("REWARD " \o ToJson([id |-> sc.id, k |-> sc.k, a0 |-> sc.a0, pledge |-> U(pl),
                                             stake |-> U(st), r |-> Reward(sc, U(pl), U(st)), thr |-> SatThr(sc, U(pl))]))
            /\ UNCHANGED <<sc, pool>>

(* a pool with the given margin and cost hands out its profit: the operator first, then one delegator after the other *)
Units == 6
Start == /\ paid = Zero /\ pool = Nothing /\ sc.id = 0 /\ sc.a0 = D("0.3")
         /\ \E m \in {"0", "0.05", "0.5", "1"}, c \in {"0", "0.01", "0.9"}, pl \in 0..Units :
              LET pledge == DDiv(DInt(pl), DInt(2 * Units))
                  profit == Profit(sc, pledge, DDiv(One, DInt(2)), D(c))
                  o == OperatorShare(D(m), profit, DDiv(DInt(pl), DInt(Units)))
              IN pool' = [stage |-> "delegators", mar |-> D(m), cost |-> D(c), pl |-> pl, left |-> Units - pl, profit |-> profit,
                          op |-> o, out |-> <<o>>, dels |-> << >>]
         /\ UNCHANGED <<sc, rest, paid, last>>
Delegator == /\ pool.stage = "delegators" /\ pool.left > 0
             /\ \E d \in 1..pool.left :
                  /\ Len(pool.dels) > 0 => d <= pool.dels[Len(pool.dels)]
                  /\ LET x == IF Broken = "operator skips margin" THEN DMul(DDiv(DInt(d), DInt(Units)), pool.profit)
                              ELSE DelegatorShare(pool.mar, pool.profit, DDiv(DInt(d), DInt(Units)))
                     IN pool' = [pool EXCEPT !.left = @ - d, !.dels = Append(@, d), !.out = Append(@, x)]
             /\ UNCHANGED <<sc, rest, paid, last>>
Finish == /\ pool.stage = "delegators" /\ pool.left = 0
          /\ Emit => PrintT("SPLIT " \o ToJson([k |-> sc.k, a0 |-> sc.a0, mar |-> pool.mar, cost |-> pool.cost, pl |-> pool.pl,
                            units |-> Units, dels |-> pool.dels, out |-> pool.out]))
          /\ pool' = [pool EXCEPT !.stage = "done"]
          /\ UNCHANGED <<sc, rest, paid, last>>
Next == OpenPool \/ Start \/ Delegator \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Slack == D("1e-12")
WithinPot == DLe(paid, DAdd(Pot, Slack))
(* for a fixed pledge, one more unit of stake pays more up to saturation and nothing beyond it *)
Monotone == (paid = Zero /\ pool = Nothing) => \A pl \in 0..G : \A st \in pl..(G - 1) :
   LET r1 == Pay(sc, U(pl), U(st)) r2 == Pay(sc, U(pl), U(st + 1)) IN
   /\ DLe(r1, DAdd(r2, Slack))
   /\ DLe(SatThr(sc, U(pl)), U(st)) => DNear(r1, r2, Slack, Slack)
NonNegative == DLe(DSub(Zero, Slack), paid)
Split == pool.stage = "done" =>
   /\ DNear(DSum(pool.out), pool.profit, Slack, Slack)
   /\ \A i \in 2..Len(pool.out) : DLe(Zero, pool.out[i])
   /\ DLe(pool.profit, Zero) => /\ pool.op = pool.profit
                                /\ \A i \in 2..Len(pool.out) : pool.out[i] = Zero
   /\ DLt(Zero, pool.profit) => \* proportional
        \A i \in 2..Len(pool.out) : DNear(DMul(pool.out[i], DInt(pool.dels[1])), DMul(pool.out[2], DInt(pool.dels[i - 1])), Slack, Slack)
=============================================================================
