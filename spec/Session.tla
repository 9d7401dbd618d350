------------------------------ MODULE Session ------------------------------
(* The interactive server (P22): messages from the page, the simulation that  *)
(* they are about, and the answers.                                           *)
(*                                                                            *)
(* A session's description: params (name -> [kind, lo, hi, v]; kind "fixed",  *)
(* "number" or "slider") and auto: does a changed parameter restart at once?  *)
(* Numbers are doubles.  A message: [m |-> "get_step" | "reset" |             *)
(* "submit_params" | "other", p |-> name, v |-> double, who |-> client]       *)
EXTENDS Doubles, Integers, Sequences, FiniteSets, TLC

Editable(d, p) == p \in DOMAIN d.params /\ d.params[p].kind # "fixed"
(* a slider stays between its ends *)
Settle(d, p, v) == LET x == d.params[p] IN
  IF x.kind # "slider" THEN v ELSE IF DLt(v, x.lo) THEN x.lo ELSE IF DLt(x.hi, v) THEN x.hi ELSE v

(* cur: the values shown; with: those of the current simulation, the id-th *)
Begin(d) == LET c == [p \in DOMAIN d.params |-> d.params[p].v] IN
  [cur |-> c, with |-> c, id |-> 1, steps |-> 0, running |-> TRUE]
Fresh(s) == [s EXCEPT !.with = s.cur, !.id = @ + 1, !.steps = 0, !.running = TRUE]
Submitted(d, s, m) == [s EXCEPT !.cur[m.p] = Settle(d, m.p, m.v)]

(* The state after a message.  ended: does the simulation end with this round? (Rounds.tla says when) *)
On(d, s, m, ended) ==
  CASE m.m = "get_step" -> IF s.running THEN [s EXCEPT !.steps = @ + 1, !.running = ~ended] ELSE s
    [] m.m = "reset" -> Fresh(s)
    [] m.m = "submit_params" /\ Editable(d, m.p) -> LET t == Submitted(d, s, m) IN IF d.auto THEN Fresh(t) ELSE t
    [] OTHER -> s
Answers(s, m) ==
  CASE m.m = "get_step" -> IF s.running THEN <<"viz_state">> ELSE <<"end">>
    [] m.m = "reset" -> <<"viz_state">>
    [] OTHER -> << >>

---------------------------------------------------------------------------
(* The charts of the latest recorded values (row: series -> <<value>>, or << >> as long as there are none). *)
(* line: the value; stacked: keys and values; bubble: the entries of all bubbles one after another           *)
RECURSIVE Flat(_, _)
Flat(b, i) == IF i > Len(b.x) THEN << >> ELSE <<b.x[i], b.y[i], b.r[i], b.pool[i], b.owner[i]>> \o Flat(b, i + 1)
Chart(c, row) ==
  CASE c.kind = "line" -> [i \in 1..Len(row) |-> row[i]]
    [] c.kind = "stacked" -> IF row = << >> THEN << << >>, << >> >> ELSE <<[i \in 1..Len(row[1]) |-> row[1][i][1]], [i \in 1..Len(row[1]) |-> row[1][i][2]]>>
    [] c.kind = "bubble" -> IF row = << >> THEN << >> ELSE Flat(row[1], 1)

---------------------------------------------------------------------------
(* A recorded session e: e.d, e.charts, e.told (values that the page was told when it opened), e.refs (for values of all  *)
(* parameters, the digests of a simulation with them after 0, 1, .. rounds), e.events: per message m what was observed:   *)
(* made (simulations created), id, steps, rows, running, digest, to (clients that were answered), answers, data, latest    *)
(* (recorded for the charts), cur.  The last round of a simulation may only record: Rounds.tla.                           *)
If_(c, what) == IF c THEN {} ELSE {<<"P22", what>>}
Ref(e, with) == {i \in DOMAIN e.refs : e.refs[i].with = with}
EventClauses(e, s, t, x) ==
  LET m == x.m
      kind == CASE m.m = "get_step" /\ s.running -> "a step request" [] m.m = "get_step" -> "a step request after the end"
                [] m.m = "reset" -> "a reset" [] m.m = "submit_params" /\ Editable(e.d, m.p) -> "a changed parameter"
                [] m.m = "submit_params" -> "a parameter that cannot be edited" [] OTHER -> "an unknown message"
  IN If_(x.err = "", kind \o " is not survived: " \o x.err)
     \cup If_(x.made = t.id - s.id, kind \o (IF t.id > s.id THEN " does not start exactly one new simulation" ELSE " starts another simulation"))
     \cup If_(x.id = t.id, kind \o (IF t.id > s.id THEN " leaves the old simulation in place" ELSE " replaces the simulation"))
     \cup If_(x.rows = t.steps, kind \o (IF t.steps > s.steps THEN " does not advance by exactly one round" ELSE " advances the simulation"))
     \cup If_(x.steps = t.steps \/ (~x.running /\ x.steps = t.steps - 1), kind \o ": another number of rounds is run than recorded")
     \cup If_(t.steps > s.steps \/ x.running = t.running, kind \o " ends or resumes the simulation")
     \cup If_(\A p \in DOMAIN t.cur : p \in DOMAIN x.cur /\ x.cur[p] = t.cur[p], kind \o ": a parameter has another value than the last submitted")
     \cup If_(\A i \in Ref(e, t.with) : t.steps < Len(e.refs[i].digests) => x.digest = e.refs[i].digests[t.steps + 1],
              kind \o ": the simulation is not that of the current parameters after as many rounds")
     \cup If_(x.answers = Answers(s, m), kind \o " is not answered as it should")
     \cup If_(\A i \in DOMAIN x.to : x.to[i] = m.who, kind \o " is answered to another page")
     \cup (IF x.answers # <<"viz_state">> THEN {} ELSE
       If_(Len(x.data) = Len(e.charts), "not exactly one entry per chart")
       \cup UNION {If_(x.data[i] = Chart(e.charts[i], x.latest[i]), "a chart does not show the latest recorded round: " \o e.charts[i].kind)
                   : i \in DOMAIN e.charts \cap DOMAIN x.data}
       \cup If_(t.steps > 0 => \A i \in DOMAIN e.charts : x.latest[i] # << >>, "a chart has no data although rounds were recorded"))
RECURSIVE Walk(_, _, _)
Walk(e, s, i) ==
  IF i > Len(e.events) THEN {}
  ELSE LET x == e.events[i]
           t == On(e.d, s, x.m, ~x.running)
       IN EventClauses(e, s, t, x) \cup Walk(e, t, i + 1)
SessionClauses(e) ==
  LET s == Begin(e.d) IN
  If_(\A i \in DOMAIN e.told : \A p \in DOMAIN s.cur : Editable(e.d, p) => (p \in DOMAIN e.told[i] /\ e.told[i][p] = s.cur[p]),
      "the page is told other parameter values")
  \cup If_(e.page \in {0, 200}, "the page cannot be shown")
  \cup Walk(e, s, 1)
=============================================================================
