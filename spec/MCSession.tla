------------------------------ MODULE MCSession ------------------------------
(* Sessions with the interactive server.  The behaviours are lists of         *)
(* messages, with the values that the specification then expects; they are    *)
(* sent to the real server (harness/session.py).                              *)
EXTENDS Session, Json, Randomization

CONSTANTS DescFile, \* a server: its parameters (with values to try), auto, opening (messages that come first)
          Clients, MaxMsgs, Rich, Broken, Emit
VARIABLES s,      \* state of the session
          log,    \* the messages
          seen    \* what each message led to
vars == <<s, log, seen>>

Desc == JsonDeserialize(DescFile)
Names_ == DOMAIN Desc.params
Texts(n) == IF n \in Names_ THEN {Desc.params[n].try[i] : i \in DOMAIN Desc.params[n].try} ELSE {D("1")}
Few(T) == IF Rich THEN RandomSubset(IF Cardinality(T) < 2 THEN Cardinality(T) ELSE 2, T) ELSE T
d == [params |-> Desc.params, auto |-> Desc.auto]
Auto == d.auto

Msg(m, p, v, w) == [m |-> m, p |-> p, v |-> v, who |-> w]
Plain(m, w) == Msg(m, "", D("0"), w)
Opening == [i \in DOMAIN Desc.opening |-> Msg(Desc.opening[i].m, Desc.opening[i].p, Desc.opening[i].v, 1)]
Opened == Len(log) >= Len(Opening)
Init == s = Begin(d) /\ log = << >> /\ seen = << >>

(* deliberate defects *)
OnB(m, ended) ==
  CASE Broken = "steps after the end" /\ m.m = "get_step" /\ ~s.running -> [s EXCEPT !.steps = @ + 1]
    [] Broken = "old values" /\ m.m = "submit_params" /\ Editable(d, m.p) -> [Submitted(d, Fresh(s), m) EXCEPT !.with = s.cur]
    [] Broken = "no restart" /\ m.m = "submit_params" /\ Editable(d, m.p) -> Submitted(d, s, m)
    [] Broken = "fixed edited" /\ m.m = "submit_params" /\ m.p \in Names_ /\ ~Editable(d, m.p) -> Fresh([s EXCEPT !.cur[m.p] = m.v])
    [] OTHER -> On(d, s, m, ended)

Send(m) ==
  /\ Len(log) < MaxMsgs
  /\ IF Opened THEN TRUE ELSE m = Opening[Len(log) + 1]
  /\ \E ended \in (IF m.m = "get_step" /\ s.running /\ ~Rich THEN BOOLEAN ELSE {FALSE}) :
       /\ s' = OnB(m, ended)
       /\ seen' = IF Emit THEN Append(seen, s'.with) ELSE <<m, s, Answers(s, m)>>
  /\ log' = Append(log, m)
Step == \E w \in Clients : Send(Plain("get_step", w))
(* simulations are long: a page that steps on asks for several rounds *)
Steps == /\ Rich /\ Opened /\ Len(log) + 4 <= MaxMsgs
         /\ \E c \in 2..4, w \in Clients : LET m == Plain("get_step", w) IN
              /\ log' = log \o [i \in 1..c |-> m]
              /\ seen' = seen \o [i \in 1..c |-> s.with]
              /\ s' = [s EXCEPT !.steps = @ + c]
Reset == \E w \in Clients : Send(Plain("reset", w))
Submit == \E w \in Clients : \E n \in Few({x \in Names_ : Editable(d, x)}) : \E t \in Few(Texts(n)) : Send(Msg("submit_params", n, t, w))
Fixed == \E w \in Clients : \E n \in Few(({x \in Names_ : ~Editable(d, x)}) \cup {"metrics", "nothing"}) : \E t \in Few(Texts(n)) : Send(Msg("submit_params", n, t, w))
Other == \E w \in Clients : Send(Plain("other", w))
Open_ == ~Opened /\ Send(Opening[Len(log) + 1])
Next == Open_ \/ Step \/ Steps \/ Reset \/ Submit \/ Fixed \/ Other
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Stated on the messages alone *)
Submits == {i \in DOMAIN log : log[i].m = "submit_params" /\ Editable(d, log[i].p)}
Restarts == {i \in DOMAIN log : log[i].m = "reset" \/ (Auto /\ i \in Submits)}
LastOf(T) == IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : j <= i
ValueAt(n, i) == LET T == {j \in Submits : j <= i /\ log[j].p = n} IN IF T = {} THEN d.params[n].v ELSE Settle(d, n, log[LastOf(T)].v)
Values == \A n \in Names_ : s.cur[n] = ValueAt(n, Len(log)) /\ s.with[n] = ValueAt(n, LastOf(Restarts))
Count_ == s.id = 1 + Cardinality(Restarts)
Rounds_ == s.steps <= Cardinality({i \in DOMAIN log : i > LastOf(Restarts) /\ log[i].m = "get_step"})
InRange == \A n \in Names_ : d.params[n].kind = "slider" => DLe(d.params[n].lo, s.cur[n]) /\ DLe(s.cur[n], d.params[n].hi)
StaysEnded == [][(~s.running /\ s'.id = s.id) => s'.steps = s.steps /\ ~s'.running]_vars
Counts == [][s'.steps \in {0, s.steps} \/ s'.steps = s.steps + 1]_vars
Written == (Emit /\ Len(log) = MaxMsgs) => PrintT("SESSION " \o ToJson([log |-> log, seen |-> seen]))
=============================================================================
