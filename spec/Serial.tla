------------------------------- MODULE Serial -------------------------------
(* Histories of executions in one working directory (P20), as sequences of    *)
(* events: <<"begin", p, 0>>, <<"got", p, n>> (p works in a folder of its own *)
(* under number n), <<"end", p, 0>>, <<"killed", p, n>> (n: the number of its *)
(* folder, 0 if it had none), <<"failed", p, 0>>.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

If20(c, what) == IF c THEN {} ELSE {<<"P20", what>>}
Nums(h, to) == {h[j][3] : j \in {i \in 1..to : h[i][1] \in {"got", "killed"}}} \ {0}
Top(S) == CHOOSE n \in S : \A m \in S : m <= n
At_(h, what, p) == CHOOSE i \in DOMAIN h : h[i][1] = what /\ h[i][2] = p
(* e.first: the number in the file before, e.history *)
SerialClauses(e) ==
  LET h == e.history
      Begun(i) == Cardinality({j \in 1..i : h[j][1] = "begin"})
      Before(p) == {e.first} \cup Nums(h, At_(h, "begin", p))
      Got == {i \in DOMAIN h : h[i][1] = "got"}
  IN If20(\A i \in Got : \A n \in Before(h[i][2]) : h[i][3] > n, "a serial number is not greater than those handed out before")
     \cup If20(\A i, j \in Got : i # j => h[i][3] # h[j][3], "two executions got the same serial number")
     \cup If20(\A i \in Got : h[i][3] <= e.first + Begun(i), "serial numbers are skipped")
     \cup If20(\A i \in DOMAIN h : h[i][1] # "failed", "an execution could not start")
     \cup If20(e.untouched, "an execution wrote into an existing folder")
     \cup If20(Len(e.folders) = Cardinality({e.folders[i] : i \in DOMAIN e.folders}) , "executions share a folder")
     \cup If20(e.complete, "the folder of an execution lacks files")
(* an execution whose folder exists already (its number was given, or the file with the numbers was lost) *)
ExistingClauses(e) == If20(e.untouched, "an execution wrote into an existing folder")
(* executions that end at the same time: the tracker *)
TrackerClauses20(e) ==
  (IF e.headers = 1 THEN {} ELSE {<<"P18", "the header of the tracker is repeated">>})
  \cup (IF e.rows = e.ended THEN {} ELSE {<<"P18", "the tracker does not have one row per execution">>})
=============================================================================
