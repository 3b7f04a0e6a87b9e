------------------------------- MODULE Networks -------------------------------
(* The task networks of actors: made from factories, added, deleted and looked *)
(* up by name, running side by side.                                           *)
(*                                                                             *)
(* A factory has a kind and the durations of its tasks, which are numbered in  *)
(* order; 0 is its terminal task.  A network that was deleted is no longer     *)
(* known to its actor, but goes on running.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Err(e) == e.exc # ""
NetworksInit(cfg) == [t |-> 0, f |-> cfg.facs, nets |-> <<>>, err |-> "", kf |-> ""]

Loops(f) == f.kind \in {"loop", "sloop", "full"}
After(f, p) == IF p < Len(f.dur) THEN p + 1 ELSE IF Loops(f) THEN 1 ELSE 0

(* task p of a network begins at t; what begins is noted in out *)
Begin(s, n, p, t) ==
  IF p = 0 THEN [n EXCEPT !.pos = 0, !.end = -1]
  ELSE [n EXCEPT !.pos = p, !.end = t + s.f[n.fac].dur[p], !.out = Append(@, <<p, t>>)]
Next_(s, n, t) ==
  IF n.q # <<>> THEN Begin(s, [n EXCEPT !.q = Tail(@)], n.q[1], t)
  ELSE Begin(s, n, After(s.f[n.fac], n.pos), t)
RECURSIVE Adv(_, _, _)
Adv(s, n, t) == IF n.on /\ n.pos # 0 /\ n.end <= t THEN Adv(s, Next_(s, n, n.end), t) ELSE n
Start(s, n, p) ==
  LET m == [n EXCEPT !.on = TRUE] IN
  IF n.q # <<>> THEN Begin(s, [m EXCEPT !.q = Tail(@)], n.q[1], s.t) ELSE Begin(s, m, p, s.t)

Known(s, a, nm) == {o \in DOMAIN s.nets : s.nets[o].live /\ s.nets[o].act = a /\ s.nets[o].name = nm}
One(s, a, nm) == CHOOSE o \in Known(s, a, nm) : TRUE
Names(s, a) == {s.nets[o].name : o \in {o \in DOMAIN s.nets : s.nets[o].live /\ s.nets[o].act = a}}
Runs(n) == n.on
(* what is refused: <<cond, what>>, decided for every operation *)
Refused(s, e) ==
  LET K == Known(s, e.a, e.n) IN
  CASE e.op = "add" -> K # {}
    [] e.op \in {"delete", "start", "clearq"} -> e.op # "clearq" /\ K = {}
    [] e.op = "setq" -> K # {} /\ s.nets[One(s, e.a, e.n)].q # <<>>
    [] e.op = "interrupt" -> K = {} \/ ~s.nets[One(s, e.a, e.n)].on
    [] OTHER -> FALSE

Do(s, e) ==
  LET o == One(s, e.a, e.n) IN
  CASE e.op = "add" -> [s EXCEPT !.nets = Append(@, [act |-> e.a, name |-> e.n, fac |-> e.f, live |-> TRUE, on |-> FALSE, pos |-> 0, end |-> -1, q |-> <<>>, out |-> <<>>])]
    [] e.op = "delete" -> [s EXCEPT !.nets[o].live = FALSE]
    [] e.op = "start" -> [s EXCEPT !.nets[o] = Start(s, @, e.p)]
    [] e.op = "setq" -> [s EXCEPT !.nets[o].q = e.q]
    [] e.op = "clearq" -> [s EXCEPT !.nets[o].q = <<>>]
    [] e.op = "interrupt" -> [s EXCEPT !.nets[o] = Next_(s, @, s.t)]
    [] e.op = "tick" -> [s EXCEPT !.t = e.t, !.nets = [i \in DOMAIN @ |-> Adv(s, @[i], e.t)]]
    [] OTHER -> s

Act(s, e) ==
  IF e.op \in {"tick", "suggest"} THEN
    (IF Err(e) THEN Fail(s, IF e.op = "tick" THEN "running the networks failed" ELSE "a name was not suggested")
     ELSE IF e.op = "suggest" /\ e.r \in Names(s, e.a) THEN Fail(s, "the suggested name is in use")
     ELSE IF e.op = "suggest" /\ ~(e.n \in Names(s, e.a)) /\ e.r # e.n THEN Fail(s, "another name was suggested although the factory's is free")
     ELSE Do(s, e))
  ELSE IF Refused(s, e) THEN (IF Err(e) THEN s ELSE Fail(s, "should have been refused: " \o e.op))
  ELSE IF Err(e) THEN Fail(s, "failed although it is allowed: " \o e.op)
  ELSE Do(s, e)

(* after every operation everything an actor says about its networks is read *)
SaysRight(s, v) ==      \* v: what is said about one name of one actor
  LET K == Known(s, v.a, v.n) IN
  IF v.has # (K # {}) THEN "a network is known that was not added, or not known although it was"
  ELSE IF K = {} THEN (IF v.run # "ERR" THEN "there is a running task of an unknown network" ELSE "")
  ELSE LET n == s.nets[One(s, v.a, v.n)] IN
       IF v.q # n.q \/ v.nxt # (IF n.q = <<>> THEN -1 ELSE n.q[1]) THEN "a network's queue is wrong"
       ELSE IF v.run # (IF ~n.on THEN "NONE" ELSE IF n.pos = 0 THEN "END" ELSE ToString(n.pos)) THEN "the running task of a network is wrong"
       ELSE ""
NetworksStep(s0, e) ==
  LET s == [s0 EXCEPT !.nets = [i \in DOMAIN @ |-> [@[i] EXCEPT !.out = <<>>]]]
      t == Act(s, e)
  IN IF t.err # "" THEN t
     ELSE IF e.t # t.t THEN Fail(t, "the clock is wrong")
     ELSE IF Len(e.log) # Len(t.nets) \/ \E i \in DOMAIN t.nets : e.log[i] # t.nets[i].out THEN Fail(t, "the tasks of a network did not run in order and on time")
     ELSE IF \E i \in DOMAIN e.says : SaysRight(t, e.says[i]) # "" THEN Fail(t, LET i == CHOOSE j \in DOMAIN e.says : SaysRight(t, e.says[j]) # "" IN SaysRight(t, e.says[i]))
     ELSE IF \E a \in DOMAIN e.qs : {e.qs[a][i] : i \in DOMAIN e.qs[a]} # Names(t, a) \/ Len(e.qs[a]) # Cardinality(Names(t, a)) THEN Fail(t, "the queues of all networks are not those of the known networks")
     ELSE IF \E a \in DOMAIN e.rs : {e.rs[a][i] : i \in DOMAIN e.rs[a]} # {nm \in Names(t, a) : t.nets[One(t, a, nm)].on} THEN Fail(t, "the running tasks of all networks are not those of the running networks")
     ELSE t
=============================================================================
