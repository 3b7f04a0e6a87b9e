------------------------------- MODULE Motion -------------------------------
(* Sensors with fixed ranges and movers on straight legs parallel to the axes *)
(* (the driver may turn the whole world).  Lengths and times are integers in  *)
(* thousandths.  From a path the specification works out when each sensor has *)
(* to be told what, and the calls made to the sensors are matched with that.  *)
(* A touch of the edge at one instant may or may not be told (both calls or    *)
(* neither); so may a crossing at the very moment the motion ends.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fail(X, m) == [X EXCEPT !.err = m]
Tol == 4
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Abs(a) == IF a < 0 THEN -a ELSE a

MotionInit(cfg) ==
  [t |-> 0, rot |-> cfg.rot,
   mv |-> [i \in DOMAIN cfg.movers |-> [p |-> cfg.movers[i].p, det |-> cfg.movers[i].det, has |-> cfg.movers[i].has, on |-> FALSE, seen |-> FALSE, wp |-> <<>>, sp |-> 1, t0 |-> 0, gt |-> -1]],
   se |-> <<>>,          \* [c, r, kill, look]
   pend |-> [i \in DOMAIN cfg.movers |-> <<>>],   \* per mover and sensor: events [t, k, opt] still to be told
   in |-> [i \in DOMAIN cfg.movers |-> <<>>],     \* per mover and sensor: told of it and not of its leaving
   open |-> FALSE, err |-> "", kf |-> ""]

(* --------------------------------------------------------------- geometry *)
RECURSIVE Sq(_, _, _)
Sq(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Sq(n, m, hi) ELSE Sq(n, lo, m)
ISqrt(n) == Sq(n, 0, 46340)
Axis(p, q) == IF p[1] # q[1] THEN 1 ELSE IF p[2] # q[2] THEN 2 ELSE 3
Sum2(p, c, k) == (IF k = 1 THEN 0 ELSE (p[1] - c[1]) * (p[1] - c[1])) + (IF k = 2 THEN 0 ELSE (p[2] - c[2]) * (p[2] - c[2])) + (IF k = 3 THEN 0 ELSE (p[3] - c[3]) * (p[3] - c[3]))
Far(p, c, r, k) == \E i \in 1..3 : i # k /\ Abs(p[i] - c[i]) > r
(* the part of a leg inside a sensor's range: <<>> or <<[lo, hi, rlo, rhi]>> in lengths from the leg's start; rlo and rhi are where the whole line would cross *)
LegIn(p, q, s) ==
  LET k == Axis(p, q)
      L == Abs(q[k] - p[k])
      g == IF q[k] > p[k] THEN 1 ELSE -1
      w2 == s.r * s.r - Sum2(p, s.c, k)
      w == ISqrt(w2)
      ca == (s.c[k] - p[k]) * g
      lo == IF ca - w > 0 THEN ca - w ELSE 0
      hi == IF ca + w < L THEN ca + w ELSE L
  IN IF Far(p, s.c, s.r, k) THEN <<>>
     ELSE IF w2 < 0 THEN <<>>
     ELSE IF lo > hi + Tol THEN <<>> ELSE IF lo > hi THEN <<[lo |-> hi, hi |-> hi, rlo |-> ca - w, rhi |-> ca + w, L |-> L]>>
     ELSE <<[lo |-> lo, hi |-> hi, rlo |-> ca - w, rhi |-> ca + w, L |-> L]>>
RECURSIVE Parts(_, _, _)
(* all parts along a path, in lengths from its start *)
Parts(wp, s, d) ==
  IF Len(wp) < 2 THEN <<>>
  ELSE LET a == LegIn(wp[1], wp[2], s)
           k == Axis(wp[1], wp[2])
       IN (IF a = <<>> THEN <<>> ELSE <<[lo |-> a[1].lo + d, hi |-> a[1].hi + d, rlo |-> a[1].rlo + d, rhi |-> a[1].rhi + d, end |-> a[1].L + d]>>)
          \o Parts(Tail(wp), s, d + Abs(wp[2][k] - wp[1][k]))
RECURSIVE Length(_)
Length(wp) == IF Len(wp) < 2 THEN 0 ELSE LET k == Axis(wp[1], wp[2]) IN Abs(wp[2][k] - wp[1][k]) + Length(Tail(wp))
(* parts that meet at a waypoint are one, unless that waypoint is on the edge: then the sensor may be told of leaving and entering there *)
RECURSIVE Join(_)
Join(q) ==
  IF Len(q) < 2 THEN q
  ELSE LET a == q[1]
           b == q[2]
       IN IF b.lo - a.hi <= Tol /\ Near(a.hi, a.end)
          THEN Join(<<[lo |-> a.lo, hi |-> b.hi, rlo |-> a.rlo, rhi |-> b.rhi, end |-> b.end, cut |-> a.cut \cup b.cut \cup (IF Near(a.rhi, a.end) \/ Near(a.rlo, a.end) THEN {a.hi} ELSE {})]>> \o SubSeq(q, 3, Len(q)))
          ELSE <<a>> \o Join(Tail(q))
Cut(q) == [i \in DOMAIN q |-> [lo |-> q[i].lo, hi |-> q[i].hi, rlo |-> q[i].rlo, rhi |-> q[i].rhi, end |-> q[i].end, cut |-> {}]]
Visits(wp, s) == Join(Cut(Parts(wp, s, 0)))
RECURSIVE At(_, _)
At(wp, d) == IF Len(wp) < 2 THEN wp[1]
             ELSE LET k == Axis(wp[1], wp[2])
                      L == Abs(wp[2][k] - wp[1][k])
                  IN IF d > L THEN At(Tail(wp), d - L) ELSE [wp[1] EXCEPT ![k] = IF wp[2][k] > wp[1][k] THEN @ + d ELSE @ - d]

RECURSIVE Points(_, _)
(* the points of a path: from p along legs [k, d] *)
Points(p, legs) == IF legs = <<>> THEN <<p>> ELSE <<p>> \o Points([p EXCEPT ![legs[1].k] = @ + legs[1].d], Tail(legs))

(* ------------------------------------------------------------ expectations *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
RECURSIVE Cuts(_, _)
Cuts(q, f) == IF q = <<>> THEN <<>> ELSE <<[t |-> f[q[1]], k |-> 2, opt |-> TRUE, fr |-> FALSE], [t |-> f[q[1]], k |-> 1, opt |-> TRUE, fr |-> FALSE]>> \o Cuts(Tail(q), f)
(* what a sensor has to be told about a path from now on: m the mover's data, in: whether it knows of the mover *)
RECURSIVE Exp_(_, _, _, _, _)
Exp_(q, m, now, in, L) ==
  IF q = <<>> THEN <<>>
  ELSE LET v == q[1]
           d0 == (now - m.t0) * m.sp
           T(d) == m.t0 + (d \div m.sp)
           tiny == v.hi - (IF v.lo > d0 THEN v.lo ELSE d0) <= Tol
           first == v.lo <= d0 + Tol
           skip == first /\ in                                    \* it knows already
           ends == Near(v.hi, L) /\ v.rhi > L + Tol                 \* stays inside at the end
           edge == Near(v.hi, L) /\ ~ends
           enter == IF skip THEN <<>> ELSE <<[t |-> IF first THEN now ELSE T(v.lo), k |-> 1, opt |-> tiny, fr |-> FALSE]>>
           leave == IF ends THEN <<>> ELSE <<[t |-> T(v.hi), k |-> 2, opt |-> edge \/ (tiny /\ ~skip), fr |-> FALSE]>>
           cs == Sorted({c \in v.cut : c > d0 + Tol /\ c > v.lo + Tol /\ c < v.hi - Tol})
       IN IF v.hi < d0 - Tol THEN Exp_(Tail(q), m, now, in, L)
          ELSE enter \o Cuts(cs, [c \in v.cut |-> T(c)]) \o leave \o Exp_(Tail(q), m, now, FALSE, L)
Expect(m, s, now, in) == IF ~m.on \/ ~m.seen THEN <<>> ELSE Exp_(Visits(m.wp, s), m, now, in, Length(m.wp))
OnEdge(m, s) == \E v \in {Visits(m.wp, s)[i] : i \in DOMAIN Visits(m.wp, s)} : v.lo <= Tol /\ (Near(v.rlo, 0) \/ Near(v.rhi, 0))

Place(m, t) == IF m.on THEN At(m.wp, (t - m.t0) * m.sp) ELSE m.p

(* ---------------------------------------------------------------- matching *)
(* the next of the events q that a call [t, k] can be: skips optional ones, in pairs; the rest after it, or <<FALSE>> *)
RECURSIVE Take(_, _)
Take(q, c) ==
  IF q = <<>> THEN [ok |-> FALSE, q |-> <<>>]
  ELSE IF q[1].k = c.k /\ Near(q[1].t, c.t) THEN [ok |-> TRUE, q |-> IF Len(q) > 1 /\ q[1].opt /\ q[2].opt THEN <<[q[2] EXCEPT !.opt = q[2].fr]>> \o SubSeq(q, 3, Len(q)) ELSE Tail(q)]
  ELSE IF q[1].opt THEN Take(IF Len(q) > 1 /\ q[2].opt THEN SubSeq(q, 3, Len(q)) ELSE Tail(q), c)
  ELSE [ok |-> FALSE, q |-> q]
(* events that are past are dropped if they are optional; the first that is not is what has been missed *)
RECURSIVE Missed(_, _)
Missed(q, t) == IF q = <<>> \/ q[1].t >= t - Tol THEN [bad |-> FALSE, q |-> q]
                ELSE IF q[1].opt THEN Missed(IF Len(q) > 1 /\ q[2].opt THEN SubSeq(q, 3, Len(q)) ELSE Tail(q), t)
                ELSE [bad |-> TRUE, q |-> q]
Gone(X, m, t) ==   \* the mover cannot be detected any more
  [X EXCEPT !.mv[m].det = FALSE, !.mv[m].seen = FALSE, !.mv[m].gt = t,
            !.pend[m] = [s \in DOMAIN @ |-> IF X.in[m][s] THEN <<[t |-> t, k |-> 2, opt |-> FALSE, fr |-> FALSE]>> ELSE <<>>]]
RECURSIVE Calls(_, _)
Calls(X, cs) ==
  IF cs = <<>> \/ X.err # "" THEN X
  ELSE LET c == cs[1]
           r == Take(X.pend[c.m][c.s], c)
           Y == [X EXCEPT !.pend[c.m][c.s] = r.q, !.in[c.m][c.s] = (c.k = 1)]
       IN IF (c.k = 1) = X.in[c.m][c.s] THEN Fail(X, IF c.k = 1 THEN "a sensor is told of an entry twice" ELSE "a sensor is told of the exit of what it does not see")
          ELSE IF ~r.ok THEN Fail(X, IF c.k = 1 THEN "a sensor is told of an entry that does not happen then" ELSE "a sensor is told of an exit that does not happen then")
          ELSE IF X.se[c.s].look /\ \E i \in 1..3 : Abs(c.p[i] - Place(X.mv[c.m], c.t)[i]) > 2 * Tol THEN Fail(X, "a sensor finds a mover somewhere else")
          ELSE Calls(IF c.k = 1 /\ X.se[c.s].kill /\ Y.mv[c.m].det THEN Gone(Y, c.m, c.t) ELSE Y, Tail(cs))
Settle(X, t) ==   \* all that lies before t has been told
  IF X.err # "" THEN X
  ELSE LET miss == {p \in UNION {{<<m, s>> : s \in DOMAIN X.pend[m]} : m \in DOMAIN X.pend} : Missed(X.pend[p[1]][p[2]], t).bad} IN
       IF miss # {} THEN Fail(X, IF \E p \in miss : X.in[p[1]][p[2]] THEN "a sensor is not told of an exit" ELSE "a sensor is not told of an entry")
       ELSE [X EXCEPT !.pend = [m \in DOMAIN @ |-> [s \in DOMAIN @[m] |-> Missed(@[m][s], t).q]]]

(* --------------------------------------------------------------- operations *)
Loose(q, t) == [i \in DOMAIN SelectSeq(q, LAMBDA v : v.t <= t + Tol) |-> [SelectSeq(q, LAMBDA v : v.t <= t + Tol)[i] EXCEPT !.opt = TRUE, !.fr = TRUE]]
Stop(X, m) == [X EXCEPT !.mv[m].p = At(X.mv[m].wp, (X.t - X.mv[m].t0) * X.mv[m].sp), !.mv[m].on = FALSE, !.mv[m].seen = FALSE,
                        !.pend[m] = [s \in DOMAIN @ |-> IF X.mv[m].seen THEN Loose(@[s], X.t) ELSE @[s]]]
Step_(X, e) ==
  CASE e.op = "init" -> X
    [] e.op = "advance" -> [Settle(Calls(X, e.calls), X.t + e.v) EXCEPT !.t = @ + e.v]
    [] e.op = "start" ->
         LET m == [X.mv[e.m] EXCEPT !.on = TRUE, !.seen = X.mv[e.m].det /\ X.mv[e.m].has, !.wp = Points(X.mv[e.m].p, e.legs), !.sp = e.sp, !.t0 = X.t]
         IN Calls([X EXCEPT !.mv[e.m] = m, !.open = @ \/ (X.rot # 0 /\ m.seen /\ \E s \in DOMAIN X.se : X.in[e.m][s] /\ OnEdge(m, X.se[s])),
                      !.pend[e.m] = [s \in DOMAIN X.se |-> Expect(m, X.se[s], X.t, X.in[e.m][s])]], e.calls)
    [] e.op = "stop" -> Calls(Stop(X, e.m), e.calls)
    [] e.op = "detect" ->
         IF e.on THEN Calls([X EXCEPT !.mv[e.m].det = TRUE, !.open = @ \/ (~X.mv[e.m].det /\ X.mv[e.m].gt = X.t /\ X.mv[e.m].wp # <<>>)], e.calls)
         ELSE LET Y == Calls(Gone(X, e.m, X.t), e.calls) IN
              IF Y.err = "" /\ \E s \in DOMAIN Y.in[e.m] : Y.in[e.m][s] THEN Fail(Y, "a sensor is not told that a mover became undetectable") ELSE Y
    [] e.op = "sensor" ->
         LET s == [c |-> e.c, r |-> e.r, kill |-> e.kill, look |-> e.look] IN
         Calls([X EXCEPT !.se = Append(@, s), !.in = [m \in DOMAIN @ |-> Append(@[m], FALSE)],
                         !.pend = [m \in DOMAIN @ |-> Append(@[m], LET q == Expect(X.mv[m], s, X.t, FALSE)
                                                                      over == X.mv[m].on /\ (X.t - X.mv[m].t0) * X.mv[m].sp >= Length(X.mv[m].wp) - Tol
                                                                  IN IF over THEN Loose(q, X.t) ELSE q)]], e.calls)
MotionStep(X, e) == IF X.open \/ X.err # "" THEN X
                    ELSE LET Y == Step_(X, e) IN
                         IF Y.err # "" THEN Y ELSE IF e.exc # "" THEN Fail(Y, "an operation failed: " \o e.exc) ELSE IF e.now # Y.t THEN Fail(Y, "the clock is wrong") ELSE Y
=============================================================================
