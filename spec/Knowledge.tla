------------------------------ MODULE Knowledge ------------------------------
(* Actor knowledge: a write-once map per actor, through the actor or a task. *)
(* Values are numbers naming distinct Python objects; -1 is "nothing there"; *)
(* 0 is the object None.  Bulk forms are the single operations in order, up  *)
(* to the first one that fails.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(s, m) == [s EXCEPT !.err = m]
Err(e) == e.exc # ""
KnowledgeInit(cfg) == [k |-> cfg.init, ev |-> {}, done |-> {}, err |-> "", kf |-> ""]       \* k: actor -> name -> value

(* one single operation on actor a: <<ok, map>> *)
Set1(m, n, v, ow) == IF m[n] # -1 /\ ~ow THEN <<FALSE, m>> ELSE <<TRUE, [m EXCEPT ![n] = v]>>
Clr1(m, n) == IF m[n] = -1 THEN <<FALSE, m>> ELSE <<TRUE, [m EXCEPT ![n] = -1]>>
RECURSIVE SetN(_, _, _)
SetN(m, ps, ow) == IF ps = <<>> THEN <<TRUE, m>>
                   ELSE LET r == Set1(m, ps[1].n, ps[1].v, ow) IN IF r[1] THEN SetN(r[2], Tail(ps), ow) ELSE r
RECURSIVE ClrN(_, _)
ClrN(m, ns) == IF ns = <<>> THEN <<TRUE, m>> ELSE LET r == Clr1(m, ns[1]) IN IF r[1] THEN ClrN(r[2], Tail(ns)) ELSE r

Shown(v) == IF v = -1 THEN 0 ELSE v                                  \* a missing name reads as None
Put(s, a, r, e, what) ==
  IF r[1] = Err(e) THEN Fail(s, what \o IF Err(e) THEN " failed although it is allowed" ELSE " should have failed")
  ELSE [s EXCEPT !.k[a] = r[2]]

Op(s, e) ==
  LET m == s.k[e.a] IN
  CASE e.op = "set" -> Put(s, e.a, Set1(m, e.n, e.v, e.ow), e, "setting knowledge")
    [] e.op = "clear" -> Put(s, e.a, Clr1(m, e.n), e, "clearing knowledge")
    [] e.op = "get" -> IF (e.must /\ m[e.n] = -1) # Err(e) THEN Fail(s, "requiring knowledge: wrong outcome")
                       ELSE IF ~Err(e) /\ e.v # Shown(m[e.n]) THEN Fail(s, "knowledge was not returned unchanged") ELSE s
    [] e.op = "getclear" -> IF (m[e.n] = -1) # Err(e) THEN Fail(s, "getting and clearing knowledge: wrong outcome")
                            ELSE IF Err(e) THEN s
                            ELSE IF e.v # m[e.n] THEN Fail(s, "knowledge was not returned unchanged") ELSE [s EXCEPT !.k[e.a][e.n] = -1]
    [] e.op = "bset" -> Put(s, e.a, SetN(m, e.ps, e.ow), e, "setting knowledge in bulk")
    [] e.op = "bclear" -> Put(s, e.a, ClrN(m, e.ns), e, "clearing knowledge in bulk")
    [] e.op = "bget" -> IF (e.must /\ \E i \in DOMAIN e.ns : m[e.ns[i]] = -1) # Err(e) THEN Fail(s, "requiring knowledge in bulk: wrong outcome")
                        ELSE IF ~Err(e) /\ (Len(e.vs) # Cardinality({e.ns[i] : i \in DOMAIN e.ns}) \/ \E i \in DOMAIN e.ns : \A j \in DOMAIN e.vs : ~(e.vs[j].n = e.ns[i] /\ e.vs[j].v = Shown(m[e.ns[i]])))
                             THEN Fail(s, "knowledge in bulk was not returned unchanged") ELSE s
    [] e.op = "bgetclear" -> LET r == ClrN(m, e.ns) IN
                        IF r[1] = Err(e) THEN Fail(s, "getting and clearing knowledge in bulk: wrong outcome")
                        ELSE IF ~Err(e) /\ (Len(e.vs) # Len(e.ns) \/ \E i \in DOMAIN e.ns : \A j \in DOMAIN e.vs : ~(e.vs[j].n = e.ns[i] /\ e.vs[j].v = m[e.ns[i]]))
                             THEN Fail(s, "knowledge in bulk was not returned unchanged")
                        ELSE [s EXCEPT !.k[e.a] = r[2]]
    [] e.op = "kevent" -> LET r == Set1(m, e.n, e.v, FALSE) IN
                          IF r[1] = Err(e) THEN Fail(s, "creating a knowledge event: wrong outcome") ELSE IF Err(e) THEN s
                          ELSE [s EXCEPT !.k[e.a] = r[2], !.ev = @ \cup {e.v}]
    [] e.op = "ksucc" -> LET v == m[e.n] IN
                         IF (v \in s.ev \ s.done) = Err(e) THEN Fail(s, "succeeding a knowledge event: wrong outcome")
                         ELSE IF Err(e) THEN s
                         ELSE [s EXCEPT !.k[e.a][e.n] = -1, !.done = @ \cup {v}]
    [] e.op = "event" -> [s EXCEPT !.ev = @ \cup {e.v}]                        \* an event object made by the user
    [] OTHER -> Fail(s, "unknown operation " \o e.op)

(* after every operation all names of all actors are read *)
KnowledgeStep(s, e) ==
  LET t == Op(s, e) IN
  IF t.err # "" THEN t
  ELSE IF Err(e) /\ e.exc # "SimulationError" THEN Fail(t, "the wrong kind of error was raised: " \o e.exc)
  ELSE IF \E a \in DOMAIN t.k : \E n \in DOMAIN t.k[a] : e.all[a][n] # Shown(t.k[a][n])
  THEN Fail(t, IF Err(e) THEN "a failed operation changed knowledge" ELSE "an operation left the wrong knowledge: " \o e.op)
  ELSE IF \E a \in DOMAIN t.k : \E n \in DOMAIN t.k[a] : e.has[a][n] # (t.k[a][n] # -1) THEN Fail(t, "knowledge exists or is missing wrongly")
  ELSE IF \E i \in DOMAIN e.fired : ~(e.fired[i] \in t.done) THEN Fail(t, "a knowledge event fired that was not succeeded")
  ELSE IF \E v \in t.done : \A i \in DOMAIN e.fired : e.fired[i] # v THEN Fail(t, "a succeeded knowledge event did not fire")
  ELSE t
=============================================================================
