------------------------------- MODULE Comms --------------------------------
(* Messages between actors: point to point managers (kind "p") and managers   *)
(* that route along a network of links (kind "r").  A message on its way is   *)
(* tried ("try") until its next link is open or the tries are used up, then   *)
(* under way ("move") for the sending time.  Actors, stores, managers and     *)
(* messages are numbers; times are integers.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(X, m) == [X EXCEPT !.err = m]

CommsInit(cfg) ==
  [c |-> cfg, t |-> 0,
   m |-> [i \in DOMAIN cfg.mgrs |-> [down |-> FALSE, links |-> <<>>, nodes |-> <<>>, net |-> {}, ignore |-> cfg.mgrs[i].ignore, conn |-> cfg.mgrs[i].conn]],
   g |-> <<>>, err |-> "", kf |-> ""]

Tries(mg) == (mg.max + mg.rate - 1) \div mg.rate
(* the store of an actor for a manager: the connected one, or the one with the manager's mode; 0 if none *)
StoreFor(X, mi, a) ==
  LET conn == {i \in DOMAIN X.m[mi].conn : X.m[mi].conn[i][1] = a}
      mode == {s \in DOMAIN X.c.stores : X.c.stores[s].a = a /\ \E j \in DOMAIN X.c.stores[s].modes : X.c.stores[s].modes[j] = X.c.mgrs[mi].mode}
  IN IF conn # {} THEN X.m[mi].conn[CHOOSE i \in conn : \A j \in conn : j <= i][2]
     ELSE IF mode = {} THEN 0 ELSE CHOOSE s \in mode : \A r \in mode : s <= r
HasMode(X, mi, a) == \E s \in DOMAIN X.c.stores : X.c.stores[s].a = a /\ \E j \in DOMAIN X.c.stores[s].modes : X.c.stores[s].modes[j] = X.c.mgrs[mi].mode
In(q, v) == \E i \in DOMAIN q : q[i] = v
Blocked(M, a, b) == M.down \/ In(M.nodes, a) \/ In(M.nodes, b) \/ In(M.links, <<a, b>>)
RECURSIVE Drop1(_, _)
Drop1(q, v) == IF q = <<>> THEN <<>> ELSE IF q[1] = v THEN Tail(q) ELSE <<q[1]>> \o Drop1(Tail(q), v)

(* ---------------------------------------------------------------- routes *)
RECURSIVE Dist(_, _, _, _)
(* hops from the nodes of `front` to b along the edges that avoid `bad`; -1 if there is no way *)
Dist(E, front, b, n) ==
  IF b \in front THEN n
  ELSE LET nx == front \cup {e[2] : e \in {x \in E : x[1] \in front}} IN
       IF nx = front THEN -1 ELSE Dist(E, nx, b, n + 1)
Hops(M, a, b, bad) ==
  LET E == {e \in M.net : e[2] \notin bad /\ (e[1] = a \/ e[1] \notin bad)}
      d == Dist(E, {a}, b, 0)
  IN IF d <= 0 THEN {} ELSE {e[2] : e \in {x \in E : x[1] = a /\ (x[2] = b \/ Dist({y \in E : y[1] # a}, {x[2]}, b, 0) = d - 1)}}

(* ------------------------------------------------------ a message's way on *)
Log(G, t, a, b) == [G EXCEPT !.log = Append(@, <<t, a, b>>)]
Asked(e, G, t) == {h.hop : h \in {e.hops[i] : i \in {j \in DOMAIN e.hops : LET h == e.hops[j] IN h.m = G.m /\ h.t = t /\ h.a = G.cur /\ h.b = G.dst /\ {h.bad[k] : k \in DOMAIN h.bad} = G.bad}}}
Arrive(X, G, t) == [G EXCEPT !.st = "done", !.wake = t, !.at = StoreFor(X, G.m, G.dst)]
Err(G, t, m) == [G EXCEPT !.st = "bad", !.why = m, !.wake = t]
(* choose the next node *)
Next_(X, e, G, t) ==
  IF G.cur = G.dst THEN Arrive(X, Log(G, t, G.dst, G.dst), t)
  ELSE LET can == Hops(X.m[G.m], G.cur, G.dst, G.bad)
           did == IF e.pick = 0 THEN Asked(e, G, t) ELSE IF can = {} THEN {0} ELSE {CHOOSE h \in can : \A k \in can : e.pick * h <= e.pick * k}
       IN IF Cardinality(did) # 1 THEN Err(G, t, IF did = {} THEN "a message is not routed on" ELSE "the same situation led to different hops")
          ELSE LET h == CHOOSE x \in did : TRUE IN
               IF can = {} THEN IF h = 0 THEN [Log(G, t, G.cur, G.dst) EXCEPT !.st = "drop", !.wake = t] ELSE Err(G, t, "a hop was made where there is no path")
               ELSE IF h \in can THEN [G EXCEPT !.hop = h, !.n = 0, !.st = "try", !.wake = t]
               ELSE Err(G, t, IF h = 0 THEN "a message was dropped though there is a path" ELSE "the hop is not on a shortest path")
Turn(X, e, G) ==
  LET M == X.m[G.m]
      mg == X.c.mgrs[G.m]
      t == G.wake
  IN CASE G.st = "new" -> IF mg.kind = "r" THEN Next_(X, e, G, t) ELSE [G EXCEPT !.st = "try", !.hop = G.dst]
       [] G.st = "try" /\ Blocked(M, G.cur, G.hop) ->
            IF G.n < Tries(mg) THEN [Log(G, t, G.cur, G.hop) EXCEPT !.n = @ + 1, !.wake = @ + mg.rate]
            ELSE LET H == Log(G, t, G.cur, G.hop) IN
                 IF mg.kind = "p" THEN [H EXCEPT !.st = "drop"] ELSE Next_(X, e, [H EXCEPT !.bad = @ \cup {G.hop}], t)
       [] G.st = "try" -> LET H == IF mg.kind = "r" THEN Log(G, t, G.cur, G.hop) ELSE G IN [H EXCEPT !.st = "move", !.wake = @ + mg.send]
       [] G.st = "move" -> IF mg.kind = "p" THEN Arrive(X, Log(G, t, G.cur, G.dst), t)
                           ELSE Next_(X, e, [G EXCEPT !.cur = G.hop, !.bad = IF M.ignore THEN @ ELSE {}], t)
RECURSIVE Way(_, _, _, _)
Way(X, e, G, t) == IF G.st \in {"done", "drop", "bad"} \/ G.wake >= t THEN G ELSE Way(X, e, Turn(X, e, G), t)
Lost(G) == G.st = "done" /\ G.at = 0
Advance(X, e, t) ==
  LET g == [i \in DOMAIN X.g |-> Way(X, e, X.g[i], t)]
      lost == {g[i].wake : i \in {j \in DOMAIN g : Lost(g[j])}}
      bad == {i \in DOMAIN g : g[i].st = "bad"}
  IN IF bad # {} /\ ~(lost # {} /\ e.exc # "") THEN Fail(X, g[CHOOSE i \in bad : TRUE].why)
     ELSE IF lost # {} THEN IF e.exc = "SimulationError" THEN [X EXCEPT !.t = -1] ELSE Fail(X, "a message to an actor without a store for it raised no error")
     ELSE IF e.exc # "" THEN Fail(X, "the simulation failed: " \o e.exc)
     ELSE [X EXCEPT !.g = g, !.t = t]

(* --------------------------------------------------------------- checking *)
Stored(X, s) == {i \in DOMAIN X.g : X.g[i].st = "done" /\ X.g[i].at = s}
CheckStore(X, o, s) ==
  LET q == o[s]
      ids == {q[i].id : i \in DOMAIN q}
      Twin(i, j) == X.g[i].m = X.g[j].m /\ X.g[i].src = X.g[j].src /\ X.g[i].dst = X.g[j].dst /\ X.g[i].made = X.g[j].made
  IN IF Cardinality(ids) # Len(q) THEN "a message arrived twice"
     ELSE IF ids \ Stored(X, s) # {} THEN "a message is in a store it should not be in, or arrived too early"
     ELSE IF Stored(X, s) \ ids # {} THEN "a message did not arrive"
     ELSE IF \E i \in DOMAIN q : q[i].t \notin {-1, X.g[q[i].id].wake} THEN "a message arrived at another time"
     ELSE IF \E i, j \in DOMAIN q : i < j /\ X.g[q[i].id].wake > X.g[q[j].id].wake THEN "messages are not in the order of their arrival"
     ELSE IF \E i, j \in DOMAIN q : i < j /\ q[i].id > q[j].id /\ Twin(q[i].id, q[j].id) /\ X.g[q[i].id].wake = X.g[q[j].id].wake THEN "messages sent together were reordered"
     ELSE ""
CheckMsg(X, e, i) ==
  LET G == X.g[i]
      mg == X.c.mgrs[G.m]
      ts == e.sent[i]
  IN IF mg.debug /\ e.log[i] # G.log THEN "the log of a message's attempts is not what happened"
     ELSE IF ~mg.debug /\ e.log[i] # <<>> THEN "something was logged though logging is off"
     ELSE IF G.st = "done" THEN IF ts \in {G.wake, G.wake - mg.send} THEN "" ELSE "a message that arrived does not have its sending time"
     ELSE IF ts # -1 /\ G.st # "move" THEN "a message that was not sent has a sending time" ELSE ""
Check(X, e) ==
  IF X.err # "" \/ X.t = -1 THEN X
  ELSE LET bs == {CheckStore(X, e.st, s) : s \in DOMAIN X.c.stores} \ {""}
           bm == {CheckMsg(X, e, i) : i \in DOMAIN X.g} \ {""}
       IN IF e.now # X.t THEN Fail(X, "the clock is wrong")
          ELSE IF bs # {} THEN Fail(X, CHOOSE b \in bs : TRUE)
          ELSE IF bm # {} THEN Fail(X, CHOOSE b \in bm : TRUE)
          ELSE X

(* ------------------------------------------------------------- operations *)
Exp(X, e, want) == IF e.exc \in {want, "*"} THEN X ELSE Fail(X, IF e.exc = "" THEN "an operation that has to fail did not" ELSE "an operation failed: " \o e.exc)
Msg(e, t) == [m |-> e.m, src |-> e.a, dst |-> e.b, cur |-> e.a, hop |-> 0, n |-> 0, bad |-> {}, st |-> "new", wake |-> t, made |-> t, at |-> 0, log |-> <<>>, why |-> ""]
Step_(X, e) ==
  CASE e.op = "init" -> X
    [] e.op = "send" -> Exp([X EXCEPT !.g = Append(@, Msg(e, X.t))], e, "")
    [] e.op = "advance" -> Advance(X, e, X.t + e.v)
    [] e.op = "degrade" -> Exp([X EXCEPT !.m[e.m].down = e.on], e, "")
    [] e.op = "block" -> Exp([X EXCEPT !.m[e.m].links = Append(@, <<e.a, e.b>>)], e, "")
    [] e.op = "unblock" -> Exp([X EXCEPT !.m[e.m].links = Drop1(@, <<e.a, e.b>>)], e, "")
    [] e.op = "blocknode" -> Exp([X EXCEPT !.m[e.m].nodes = Append(@, e.a)], e, "")
    [] e.op = "unblocknode" -> Exp([X EXCEPT !.m[e.m].nodes = Drop1(@, e.a)], e, "")
    [] e.op = "clear" -> Exp([X EXCEPT !.m[e.m].nodes = <<>>, !.m[e.m].links = <<>>], e, "")
    [] e.op = "ignore" -> Exp([X EXCEPT !.m[e.m].ignore = e.on], e, "")
    [] e.op = "connect" -> IF X.c.mgrs[e.m].kind = "r" THEN Exp(X, e, "SimulationError") ELSE Exp([X EXCEPT !.m[e.m].conn = Append(@, <<e.a, e.s>>)], e, "")
    [] e.op = "edge" -> IF ~HasMode(X, e.m, e.a) \/ ~HasMode(X, e.m, e.b) THEN Exp(X, e, "SimulationError")
                        ELSE Exp([X EXCEPT !.m[e.m].net = @ \cup {<<e.a, e.b>>} \cup (IF e.two THEN {<<e.b, e.a>>} ELSE {})], e, "")
    [] e.op = "declare" -> Exp(X, e, e.want)
CommsStep(X, e) == IF X.t = -1 THEN X ELSE Check(Step_(X, e), e)
=============================================================================
