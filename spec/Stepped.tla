------------------------------ MODULE Stepped -------------------------------
(* Sensing by time steps: at every step each sensor is told which of the      *)
(* registered detectable entities have come into its range or left it since   *)
(* it was last told.  Lengths and times are integers in thousandths.          *)
EXTENDS Motion
SteppedInit(cfg) ==
  [t |-> 0, dt |-> cfg.dt, max |-> cfg.max, next |-> -1, ne |-> 0, busy |-> {},
   mv |-> [i \in DOMAIN cfg.movers |-> [p |-> cfg.movers[i].p, det |-> cfg.movers[i].det, has |-> cfg.movers[i].has, reg |-> FALSE, on |-> FALSE, wp |-> <<>>, sp |-> 1, t0 |-> 0]],
   se |-> <<>>,          \* [m, c, r, chk, kill, b]: m > 0 for a sensor that is a mover itself; b > 0: when told, it schedules something after b
   part |-> <<>>,        \* [m, rate, next]
   in |-> [i \in DOMAIN cfg.movers |-> <<>>], err |-> "", kf |-> ""]

Spot(X, m) == IF X.mv[m].on THEN At(X.mv[m].wp, (X.t - X.mv[m].t0) * X.mv[m].sp) ELSE X.mv[m].p
Centre(X, s) == IF X.se[s].m > 0 THEN Spot(X, X.se[s].m) ELSE X.se[s].c
Moves(X, m, s) == X.mv[m].on \/ X.mv[m].wp # <<>> \/ (X.se[s].m > 0 /\ (X.mv[X.se[s].m].on \/ X.mv[X.se[s].m].wp # <<>>))
(* where an entity is for a sensor: 1 inside, 2 outside, 0 too near the edge to tell *)
Sight(X, m, s) ==
  LET p == Spot(X, m)
      c == Centre(X, s)
      r == X.se[s].r
      q2 == Sum2(p, c, 0)
      far == \E i \in 1..3 : Abs(p[i] - c[i]) > r + 5
  IN IF X.se[s].m = m THEN 2
     ELSE IF X.se[s].chk THEN (IF Near(p[1], c[1]) THEN 0 ELSE IF p[1] > c[1] THEN 1 ELSE 2)
     ELSE IF far THEN 2
     ELSE IF ~Moves(X, m, s) THEN (IF q2 <= r * r THEN 1 ELSE 2)
     ELSE IF q2 < (r - 1) * (r - 1) THEN 1 ELSE IF q2 > (r + 1) * (r + 1) THEN 2 ELSE 0

(* one call; ms are the entities that are looked at *)
Tell(X, c, ms) ==
  LET m == X.mv[c.m] IN
  IF (c.k = 1) = X.in[c.m][c.s] THEN Fail(X, IF c.k = 1 THEN "a sensor is told of an entry twice" ELSE "a sensor is told of the exit of what it does not see")
  ELSE IF c.k = 1 /\ ~(c.m \in ms /\ m.reg /\ m.det /\ Sight(X, c.m, c.s) # 2) THEN Fail(X, "a sensor is told of an entry that does not happen then")
  ELSE IF c.k = 2 /\ m.det /\ ~(c.m \in ms /\ m.reg /\ Sight(X, c.m, c.s) # 1) THEN Fail(X, "a sensor is told of an exit that does not happen then")
  ELSE IF \E i \in 1..3 : Abs(c.p[i] - Spot(X, c.m)[i]) > Tol THEN Fail(X, "a sensor finds an entity somewhere else")
  ELSE [X EXCEPT !.in[c.m][c.s] = (c.k = 1), !.busy = IF X.se[c.s].b > 0 THEN @ \cup {X.t + X.se[c.s].b} ELSE @, !.mv[c.m].det = @ /\ ~(c.k = 1 /\ X.se[c.s].kill /\ m.has)]
RECURSIVE Tells(_, _, _)
Tells(X, cs, ms) == IF cs = <<>> \/ X.err # "" THEN X ELSE Tells(Tell(X, cs[1], ms), Tail(cs), ms)
(* after a look at the entities ms every sensor knows what it sees of them *)
Known(X, ms) ==
  IF X.err # "" THEN X
  ELSE IF \E m \in DOMAIN X.mv : ~X.mv[m].det /\ \E s \in DOMAIN X.se : X.in[m][s] THEN Fail(X, "a sensor is not told that an entity became undetectable")
  ELSE IF \E m \in ms : X.mv[m].reg /\ X.mv[m].det /\ \E s \in DOMAIN X.se : Sight(X, m, s) = 1 /\ ~X.in[m][s] THEN Fail(X, "a sensor is not told of an entry")
  ELSE IF \E m \in ms : X.mv[m].reg /\ X.mv[m].det /\ \E s \in DOMAIN X.se : Sight(X, m, s) = 2 /\ X.in[m][s] THEN Fail(X, "a sensor is not told of an exit")
  ELSE X
Look(X, cs, ms) == Known(Tells(X, cs, ms), ms)
Now(cs, t) == SelectSeq(cs, LAMBDA c : c.t = t)
Nexts(X) == (IF X.next >= 0 THEN {X.next} ELSE {}) \cup {X.part[i].next : i \in DOMAIN X.part}
RECURSIVE Adv(_, _, _)
(* the steps before time T *)
Adv(X, cs, T) ==
  IF X.err # "" THEN X
  ELSE IF Nexts(X) = {} \/ (\A n \in Nexts(X) : n >= T) THEN IF cs = <<>> THEN [X EXCEPT !.t = T] ELSE Fail(X, "a sensor is told something between steps")
  ELSE LET t == CHOOSE n \in Nexts(X) : \A q \in Nexts(X) : n <= q
           all == t = X.next
           ms == IF all THEN DOMAIN X.mv ELSE {X.part[i].m : i \in {j \in DOMAIN X.part : X.part[j].next = t}}
           g == Now(cs, t)
           Y == Look([X EXCEPT !.t = t], g, ms)
       IN IF g # SubSeq(cs, 1, Len(g)) THEN Fail(X, "a sensor is told something between steps")
          ELSE Adv([Y EXCEPT !.ne = IF all THEN 0 ELSE @, !.next = IF all THEN t + X.dt ELSE @, !.part = [i \in DOMAIN @ |-> [m |-> @[i].m, rate |-> @[i].rate, next |-> IF @[i].next = t THEN t + @[i].rate ELSE @[i].next]]], SubSeq(cs, Len(g) + 1, Len(cs)), T)
Max(S, x) == CHOOSE y \in S \cup {x} : \A z \in S \cup {x} : z <= y
(* everything that happens before the time lim (-1: everything); with nothing *)
(* else to happen for its number of steps on end the stepping ends            *)
RECURSIVE Drain(_, _, _)
Drain(X, cs, lim) ==
  IF X.err # "" THEN X
  ELSE IF X.next < 0 \/ (lim >= 0 /\ X.next >= lim)
       THEN IF cs # <<>> THEN Fail(X, "a sensor is told something between steps") ELSE [X EXCEPT !.t = Max({b \in X.busy : b > X.t /\ (lim < 0 \/ b < lim)}, X.t)]
  ELSE LET t == X.next
           g == Now(cs, t)
           Y == Look([X EXCEPT !.t = t], g, DOMAIN X.mv)
           none == \A b \in Y.busy : b <= t
           n == IF ~none THEN 0 ELSE Y.ne + 1
       IN IF g # SubSeq(cs, 1, Len(g)) THEN Fail(X, "a sensor is told something between steps")
          ELSE Drain([Y EXCEPT !.ne = n, !.next = IF n >= X.max THEN -1 ELSE t + X.dt], SubSeq(cs, Len(g) + 1, Len(cs)), lim)
Quiet(X, e) == IF e.calls = <<>> THEN X ELSE Fail(X, "a sensor is told something without a reason")
Running(X) == IF X.next < 0 THEN [X EXCEPT !.next = X.t + X.dt, !.ne = 0] ELSE X
DoStep(X, e) ==
  CASE e.op = "init" -> X
    [] e.op = "advance" -> Adv(X, e.calls, X.t + e.v)
    [] e.op = "drain" ->    \* with nothing else to happen the stepping ends after its number of steps
         Drain(X, e.calls, e.lim)
    [] e.op = "run" -> Quiet(Running(X), e)
    [] e.op = "particular" -> Quiet([X EXCEPT !.part = Append(@, [m |-> e.m, rate |-> e.rate, next |-> X.t + e.rate])], e)
    [] e.op = "register" -> Quiet([X EXCEPT !.mv[e.m].reg = TRUE], e)
    [] e.op = "place" -> Quiet([X EXCEPT !.mv[e.m].p = e.p], e)
    [] e.op = "radius" -> Quiet([X EXCEPT !.se[e.s].r = e.r], e)
    [] e.op = "sensor" -> Quiet([X EXCEPT !.se = Append(@, [m |-> e.m, c |-> e.c, r |-> e.r, chk |-> e.chk, kill |-> e.kill, b |-> e.b]), !.in = [m \in DOMAIN @ |-> Append(@[m], FALSE)]], e)
    [] e.op = "start" -> Quiet(Running([X EXCEPT !.mv[e.m].on = TRUE, !.mv[e.m].reg = TRUE, !.mv[e.m].wp = Points(X.mv[e.m].p, e.legs), !.mv[e.m].sp = e.sp, !.mv[e.m].t0 = X.t]), e)
    [] e.op = "stop" -> Quiet([X EXCEPT !.mv[e.m].p = Spot(X, e.m), !.mv[e.m].on = FALSE, !.mv[e.m].reg = FALSE], e)
    [] e.op = "detect" -> IF \E i \in DOMAIN e.calls : e.calls[i].t # X.t THEN Fail(X, "the clock is wrong")
                          ELSE Look([X EXCEPT !.mv[e.m].det = e.on], e.calls, IF e.on THEN {e.m} ELSE {})
SteppedStep(X, e) == IF X.err # "" THEN X
                     ELSE LET Y == DoStep(X, e) IN
                          IF Y.err # "" THEN Y ELSE IF e.exc # "" THEN Fail(Y, "an operation failed: " \o e.exc) ELSE IF e.now # Y.t THEN Fail(Y, "the clock is wrong") ELSE Y
=============================================================================
