---------------------------- MODULE MCPopulation ----------------------------
(* All short stake files: the population that each leads to, for several      *)
(* numbers of agents and inactive fractions.  Normalisation keeps proportions *)
(* and leaves exactly the active stake.  Each file is printed, to be read by  *)
(* the code (harness/population.py).                                          *)
EXTENDS Population, Json
CONSTANTS MaxLen, MaxValue, Fs, Emit, Broken
VARIABLES file, n, f, stakes
vars == <<file, n, f, stakes>>
Init == file = << >> /\ n = 0 /\ f = Zero /\ stakes = << >>
Write == n = 0 /\ Len(file) < MaxLen /\ \E v \in 1..MaxValue : file' = Append(file, v) /\ UNCHANGED <<n, f, stakes>>
Vals == [i \in DOMAIN file |-> DInt(file[i])]
(* with as many agents as values, everybody gets one *)
Start == /\ n = 0 /\ Len(file) > 0
         /\ \E fr \in Fs :
              /\ f' = D(fr) /\ n' = Len(file)
              /\ LET t == DDiv(Sum_(Vals), DSub(One, D(fr)))
                     raw == [i \in DOMAIN file |-> DDiv(DInt(file[i]), t)]
                     err == DSub(DSub(One, IF Broken = "ignores inactive" THEN Zero ELSE D(fr)), Sum_(raw))
                 IN stakes' = [raw EXCEPT ![Len(file)] = DAdd(@, err)]
              /\ Emit => PrintT("FILE " \o ToJson([values |-> file, f |-> D(fr)]))
         /\ UNCHANGED file
Spec == Init /\ [][Write \/ Start]_vars
Cfg_ == [n |-> n, src |-> "file", f |-> f, values |-> Vals]
Proportional == n > 0 => StakesOK(Cfg_, stakes)
AddsUp == n > 0 => DNear(Sum_(stakes), Active(Cfg_), D("1e-12"), D("1e-12"))
EqualsStayEqual == n > 0 => \A i, j \in 1..n : file[i] = file[j] => RelNear(stakes[i], stakes[j])
SampleToo == n > 0 => SampleOf(Cfg_, stakes, Vals)
=============================================================================
