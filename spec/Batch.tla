------------------------------- MODULE Batch -------------------------------
(* What a batch run executes and reports (P19).                               *)
(* A batch e: params (name -> sequence of values), fixed (name -> value),     *)
(* iterations, seed0, period; solo: what each of its executions does on its   *)
(* own: vals (with seed) and series of texts per metric.                      *)
EXTENDS Outputs

If19(c, what) == IF c THEN {} ELSE {<<"P19", what>>}

(* all combinations of the values and the iterations *)
Combos(params) ==
  FoldLeft(LAMBDA acc, p : UNION {{(p :> params[p][i]) @@ c : c \in acc} : i \in DOMAIN params[p]}, {<< >>}, SetToSeq(DOMAIN params))
Executions(e) == UNION {{("seed" :> N(DInt(e.seed0 + i))) @@ c : c \in Combos(e.params)} : i \in 0..(e.iterations - 1)}

Rounds_(x) == Len(x.series[1])
(* the rounds that are reported of an execution with n recorded rounds *)
Steps(e, n) == {s \in 0..(n - 1) : s = n - 1 \/ (e.period > 0 /\ s % e.period = 0)}
At(x, s) == [m \in DOMAIN x.series |-> x.series[m][s + 1]]
Only(f, names) == [p \in names \cap DOMAIN f |-> f[p]]

FolderClauses(e) ==
  LET keys == DOMAIN e.params \cup {"seed"} IN
  If19(Len(e.folders) = Cardinality(Executions(e)), "not one folder per combination and iteration")
  \cup If19({Only(e.folders[i], keys) : i \in DOMAIN e.folders} = Executions(e), "the executions are not exactly the combinations with their seeds")
  \cup If19(\A i \in DOMAIN e.folders : \A p \in DOMAIN e.fixed : p \in DOMAIN e.folders[i] /\ e.folders[i][p] = e.fixed[p], "an execution does not have the fixed parameters")

RowsClauses(e) ==
  LET Of(x) == SelectSeq(e.rows, LAMBDA r : Only(r.vals, DOMAIN x.vals) = x.vals)
  IN If19(\A j \in DOMAIN e.solo :
            LET x == e.solo[j] rs == Of(x) want == Steps(e, Rounds_(x)) IN
            Len(rs) = Cardinality(want) /\ {rs[i].step : i \in DOMAIN rs} = want, "the results do not have exactly one row per execution and reported round")
     \cup If19(Len(e.rows) = FoldLeft(LAMBDA acc, x : acc + Cardinality(Steps(e, Rounds_(x))), 0, e.solo), "the results have other rows")
     \cup If19(\A j \in DOMAIN e.solo : LET rs == Of(e.solo[j]) IN
            \A i \in DOMAIN rs : rs[i].step \in 0..(Rounds_(e.solo[j]) - 1) => rs[i].metrics = At(e.solo[j], rs[i].step), "a row of the results does not have the metrics of its execution")
     \cup If19(\A j \in DOMAIN e.solo : LET rs == Of(e.solo[j]) IN Cardinality({rs[i].run : i \in DOMAIN rs}) <= 1, "rows of one execution have several run ids")
     \cup If19(Cardinality({e.rows[i].run : i \in DOMAIN e.rows}) = Len(e.solo), "executions share a run id")
     \cup If19(\A i \in DOMAIN e.rows : \A p \in DOMAIN e.fixed : e.rows[i].vals[p] = e.fixed[p], "a row of the results does not have the fixed parameters")

(* the aggregate file: a table of cells *)
Matches(c, v) == IF v.k = "number" THEN c.num /\ DEq(c.x, v.x) ELSE IF v.k = "text" THEN c.t = v.x ELSE TRUE
AggregateClauses(e) ==
  IF Len(e.agg) = 0 THEN If19(Cardinality(Executions(e)) = 0, "there is no aggregate file")
  ELSE
  LET head == Texts(e.agg[1])
      varied == {p \in DOMAIN e.params : Len(e.params[p]) > 1}
      Colm(name) == CHOOSE i \in DOMAIN head : head[i] = name
      wanted == varied \cup {e.metrics[i] : i \in DOMAIN e.metrics}
      complete == wanted \subseteq {head[i] : i \in DOMAIN head}
      rows == [i \in 1..(Len(e.agg) - 1) |-> e.agg[i + 1]]
      Describes(r, x) == /\ Len(r) = Len(head)
                         /\ \A p \in varied : Matches(r[Colm(p)], x.vals[p])
                         /\ "seed" \in {head[i] : i \in DOMAIN head} => Matches(r[Colm("seed")], x.vals["seed"])
                         /\ \A m \in DOMAIN e.metrics : r[Colm(e.metrics[m])].t = At(x, Rounds_(x) - 1)[m]
  IN If19(e.aggfiles = 1, "there is not exactly one aggregate file")
     \cup If19(complete, "the aggregate file lacks varied parameters or metrics")
     \cup If19(\A i \in DOMAIN rows : Texts(rows[i]) # head, "the header of the aggregate file is repeated")
     \cup If19(Len(rows) = Len(e.solo), "the aggregate file does not have one row per execution")
     \cup (IF ~complete THEN {} ELSE
           If19(\A j \in DOMAIN e.solo : \E i \in DOMAIN rows : Describes(rows[i], e.solo[j]), "an execution is not reported faithfully in the aggregate file")
           \cup If19(\A i \in DOMAIN rows : \E j \in DOMAIN e.solo : Describes(rows[i], e.solo[j]), "a row of the aggregate file describes no execution"))

BatchClauses(e) ==
  (IF {e.solo[j].vals : j \in DOMAIN e.solo} = Executions(e) THEN {} ELSE {<<"EVAL", "references are not the executions of the batch">>})
  \cup (IF e.hasfolders THEN FolderClauses(e) ELSE {})
  \cup (IF e.hasrows THEN RowsClauses(e) ELSE {})
  \cup AggregateClauses(e)
=============================================================================
