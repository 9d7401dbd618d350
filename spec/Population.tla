----------------------------- MODULE Population -----------------------------
(* Initial states: which populations a configuration allows (P16).            *)
(* cfg = [n, src, shape, f, cmin, cmax, weights, values]: src is the source   *)
(* of the distribution of stake, values those of its file.                    *)
EXTENDS Engine

Near(x, y) == DNear(x, y, D("1e-9"), D("1e-15"))
Sum_(seq) == DSum(seq)
Active(cfg) == DSub(One, cfg.f)
SortedD(seq) == LET ix == DSortIdx([i \in DOMAIN seq |-> <<seq[i]>>]) IN TLCEval([i \in DOMAIN seq |-> seq[ix[i]]])
RelNear(x, y) == DNear(x, y, D("1e-9"), D("1e-13"))    \* the last stake absorbs the rounding errors of all

(* stakes are weights[i] / sum of weights of the active stake *)
ProportionalTo(cfg, stakes, weights) ==
  LET t == Sum_(weights) IN
  /\ Len(weights) = Len(stakes)
  /\ \A i \in DOMAIN stakes : RelNear(stakes[i], DMul(Active(cfg), DDiv(weights[i], t)))

(* stakes are a sample of the values of a file (without replacement if there are enough values) *)
CountNear(seq, x) == Cardinality({i \in DOMAIN seq : RelNear(seq[i], x)})
SampleOf(cfg, stakes, values) ==
  \E v \in {values[i] : i \in DOMAIN values} :
    LET scale == DDiv(stakes[1], v)
        ys == TLCEval([i \in DOMAIN values |-> DMul(values[i], scale)])
    IN \A i \in DOMAIN stakes : /\ CountNear(ys, stakes[i]) > 0
                                /\ Len(values) >= Len(stakes) => CountNear(stakes, stakes[i]) <= CountNear(ys, stakes[i])

(* Kolmogorov-Smirnov: the largest distance between the distribution of a large sample and F is at most 3 / sqrt(n) *)
Follows(xs, F(_)) ==
  LET q == SortedD(xs) n == Len(xs)
      eps == DDiv(DInt(3), DSqrt(DInt(n)))
  IN \A i \in 1..n : /\ DLe(DSub(F(q[i]), DDiv(DInt(i - 1), DInt(n))), eps)
                     /\ DLe(DSub(DDiv(DInt(i), DInt(n)), F(q[i])), eps)

Large == 500
StakesOK(cfg, stakes) ==
  CASE cfg.src = "flat" -> ProportionalTo(cfg, stakes, [i \in 1..cfg.n |-> One])
    [] cfg.src = "disparity" -> \* three agents share 30 %, the others the rest
         ProportionalTo(cfg, stakes, [i \in 1..cfg.n |-> IF i <= 3 THEN D("0.1") ELSE DDiv(D("0.7"), DInt(cfg.n - 3))])
    [] cfg.src = "file" -> IF Len(cfg.values) = cfg.n THEN ProportionalTo(cfg, stakes, cfg.values) ELSE SampleOf(cfg, stakes, cfg.values)
    [] cfg.src = "pareto" ->
         LET min == SortedD(stakes)[1]
             most == DDiv(One, cfg.shape)
         IN cfg.n >= Large => Follows(stakes, LAMBDA x : DSub(One, DPow(DDiv(min, x), cfg.shape)))

CostsOK(cfg, costs) ==
  /\ \A i \in DOMAIN costs : DLe(cfg.cmin, costs[i]) /\ DLe(costs[i], cfg.cmax)
  /\ (cfg.n >= Large /\ DLt(cfg.cmin, cfg.cmax)) =>
        Follows(costs, LAMBDA x : DDiv(DSub(x, cfg.cmin), DSub(cfg.cmax, cfg.cmin)))

ProfilesOK(cfg, profs) ==
  LET w == Sum_(cfg.weights)
      Count_(p) == Cardinality({i \in DOMAIN profs : profs[i] = p})
  IN /\ \A i \in DOMAIN profs : profs[i] \in 0..(Len(cfg.weights) - 1) /\ DLt(Zero, cfg.weights[profs[i] + 1])
     /\ \A p \in 0..(Len(cfg.weights) - 1) :
          LET q == DDiv(cfg.weights[p + 1], w)
              mean == DMul(DInt(cfg.n), q)
              dev == DSqrt(DMul(mean, DSub(One, q)))
          IN DLe(DAbs(DSub(DInt(Count_(p)), mean)), DAdd(One, DMul(D("5.5"), dev)))

If_(c, what) == IF c THEN {} ELSE {<<"P16", what>>}
PopulationClauses(cfg, o) ==
  If_(o.ids = [i \in 1..cfg.n |-> i - 1], "there are not exactly n agents")
  \cup If_(\A i \in DOMAIN o.stakes : DLt(Zero, o.stakes[i]), "an agent has no stake")
  \cup If_(DNear(Sum_(o.stakes), Active(cfg), D("1e-12"), D("1e-12")), "the stakes do not add up to the active fraction of the total stake")
  \cup If_(o.total = One, "the total stake is not one")
  \cup (IF Len(o.stakes) = cfg.n THEN If_(StakesOK(cfg, o.stakes), "stakes do not follow the configured distribution: " \o cfg.src) ELSE {})
  \cup If_(CostsOK(cfg, o.costs), "costs are not as configured")
  \cup If_(ProfilesOK(cfg, o.profs), "profiles do not occur as configured")
  \cup If_(o.pools = 0 /\ o.ranked = 0 /\ o.owned = 0 /\ o.delegated = 0 /\ o.pending = 0, "there are pools or strategies in place")
=============================================================================
