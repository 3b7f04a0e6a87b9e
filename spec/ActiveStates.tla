---------------------------- MODULE ActiveStates ----------------------------
(* States of actors: plain, linear, shared linear, location and list states, *)
(* mimic states, and the histories they record.                              *)
(*                                                                           *)
(* Times are in quarters (of 1/q), rates in quarters per time unit, so       *)
(* numbers are in 1/16q; a value is a sequence of integers (<<n>> for numbers, <<x, y, *)
(* z>> in units of 1/120 for locations, the items for lists).  A location    *)
(* path is a sequence of legs with an integer length; speeds are in halves.  *)
(* Tasks are numbers; 0 is no task object at all (None).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MarkA == <<0, 0, 0, 0, 1>>
MarkD == <<0, 0, 0, 0, 2>>
None_ == <<-1, <<>>>>
Fail(X, m) == [X EXCEPT !.err = m]
I(X) == DOMAIN X.c
Loc(X, i) == X.c[i].k \in {"cart", "geo"}
Lin(X, i) == X.c[i].k \in {"lin", "shared"}

ActiveStatesInit(cfg) ==
  LET n == DOMAIN cfg.st
      z == [i \in n |-> <<>>]
  IN [t |-> 0, c |-> cfg.st, q |-> cfg.q,
      v |-> [i \in n |-> cfg.st[i].v0],       \* value when last set ...
      at |-> [i \in n |-> 0],                 \* ... and when that was
      own |-> [i \in n |-> {}],               \* <<task, rate>> pairs that have it active
      path |-> z, sp |-> [i \in n |-> 1], p0 |-> z, pt |-> [i \in n |-> 0],
      mim |-> [i \in n |-> 0], mt |-> [i \in n |-> -1],
      last |-> [i \in n |-> None_], flast |-> [i \in n |-> None_],
      out |-> z, fout |-> z,
      err |-> "", kf |-> ""]

(* ------------------------------------------------------------- histories *)
Fn(X, i, v) == IF X.c[i].k = "list" THEN <<Len(v)>> ELSE <<(v[1] \div (16 * X.q)) % 3>>
Mark(X, i, m) == IF ~X.c[i].rec THEN X ELSE [X EXCEPT !.out[i] = Append(@, <<X.t, m>>), !.last[i] = <<X.t, m>>]
Rec(X, i, v) ==
  IF ~X.c[i].rec THEN X
  ELSE LET e == <<X.t, v>>
           X1 == IF X.c[i].dup \/ X.last[i] # e THEN [X EXCEPT !.out[i] = Append(@, e), !.last[i] = e] ELSE X
           f == <<X.t, Fn(X, i, v)>>
       IN IF X.c[i].fn /\ (X.c[i].dup \/ X.flast[i] # f) THEN [X1 EXCEPT !.fout[i] = Append(@, f), !.flast[i] = f] ELSE X1
(* every state that mimics i shows the change, and those that mimic them *)
RECURSIVE Shown(_, _, _, _)
Shown(X, i, v, m) ==
  IF m > Len(X.c) THEN X
  ELSE Shown(IF X.mim[m] = i THEN Shown(Rec(X, m, v), m, v, 1) ELSE X, i, v, m + 1)
Set(X, i, v) == Shown(Rec([X EXCEPT !.v[i] = v, !.at[i] = X.t], i, v), i, v, 1)

(* ---------------------------------------------------------------- values *)
RECURSIVE SumR(_)
SumR(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumR(S \ {x})
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE p[1].len + Total(Tail(p))
(* distances gone in eighths: speed in halves times quarters of time *)
Gone(X, i) == X.sp[i] * (X.t - X.pt[i])
Beyond(X, i) == X.own[i] # {} /\ Loc(X, i) /\ X.t > X.pt[i] /\ Gone(X, i) > 8 * X.q * Total(X.path[i])
RECURSIVE Along(_, _, _, _)
Along(p, from, d, u) ==
  IF p = <<>> THEN from
  ELSE IF d > u * p[1].len THEN Along(Tail(p), p[1].to, d - u * p[1].len, u)
  ELSE IF p[1].len = 0 THEN from
  ELSE [k \in 1..3 |-> from[k] + ((p[1].to[k] - from[k]) * d) \div (u * p[1].len)]
RECURSIVE Val(_, _)
Val(X, i) ==
  IF X.mim[i] # 0 THEN Val(X, X.mim[i])
  ELSE IF X.own[i] = {} THEN X.v[i]
  ELSE IF Lin(X, i) THEN <<X.v[i][1] + SumR(X.own[i]) * (X.t - X.at[i])>>
  ELSE IF X.t = X.pt[i] THEN X.v[i] ELSE Along(X.path[i], X.p0[i], Gone(X, i), 8 * X.q)
RECURSIVE Bad(_, _)
Bad(X, i) == IF X.mim[i] # 0 THEN Bad(X, X.mim[i]) ELSE Beyond(X, i)

(* reading an active or mimicking state updates it *)
RECURSIVE Read(_, _)
Read(X, i) ==
  IF X.mim[i] # 0 THEN LET Y == Read(X, X.mim[i]) IN Set(Y, i, Val(Y, X.mim[i]))
  ELSE IF X.own[i] = {} THEN X
  ELSE IF Loc(X, i) /\ X.t = X.pt[i] THEN Rec(X, i, X.v[i])
  ELSE Set(X, i, Val(X, i))

(* ------------------------------------------------------------ operations *)
Tasks(X, i) == {r[1] : r \in X.own[i]}
CanAct(X, i, k) == IF X.c[i].k = "shared" THEN k \notin Tasks(X, i) ELSE X.own[i] = {}
LegsOK(X, i, from, p) == p = <<>> \/
  LET RECURSIVE G(_, _)
      G(f, q) == q = <<>> \/
        LET d == [k \in 1..3 |-> (q[1].to[k] - f[k]) \div (120 * X.q)]
        IN (IF X.c[i].k = "geo" THEN q[1].len = (IF d[1] < 0 THEN -d[1] ELSE d[1]) + (IF d[2] < 0 THEN -d[2] ELSE d[2])
            ELSE q[1].len * q[1].len = d[1] * d[1] + d[2] * d[2] + d[3] * d[3]) /\ G(q[1].to, Tail(q))
  IN G(from, p)
Act(X, i, k, e) ==
  LET Y == IF Loc(X, i)
           THEN Rec([X EXCEPT !.own[i] = {<<k, 0>>}, !.path[i] = e.path, !.sp[i] = e.rate, !.p0[i] = X.v[i], !.pt[i] = X.t], i, X.v[i])
           ELSE [Set(X, i, Val(X, i)) EXCEPT !.own[i] = @ \cup {<<k, e.rate>>}]
  IN Mark(Y, i, MarkA)
Deact(X, i, k) ==
  LET Y == [Read(X, i) EXCEPT !.own[i] = {r \in @ : r[1] # k}]
  IN IF Y.own[i] = {} THEN Mark(Y, i, MarkD) ELSE Y
RECURSIVE DeactAll(_, _, _, _)
DeactAll(X, a, k, i) ==
  IF i > Len(X.c) THEN X
  ELSE DeactAll(IF X.c[i].a = a /\ k \in Tasks(X, i) THEN Deact(X, i, k) ELSE X, a, k, i + 1)
Unmimic(X, i) == [Read(X, i) EXCEPT !.mim[i] = 0, !.mt[i] = -1]
RECURSIVE UnmimicAll(_, _, _, _)
UnmimicAll(X, a, k, i) ==
  IF i > Len(X.c) THEN X
  ELSE UnmimicAll(IF X.c[i].a = a /\ X.mim[i] # 0 /\ X.mt[i] = k THEN Unmimic(X, i) ELSE X, a, k, i + 1)
RECURSIVE InitRec(_, _)
InitRec(X, i) == IF i > Len(X.c) THEN X ELSE InitRec(Rec(X, i, X.v[i]), i + 1)

(* the waypoints still ahead: those at a greater distance, and possibly the one just reached *)
RECURSIVE Ahead(_, _, _)
Ahead(p, d, u) == IF p = <<>> THEN {<<>>}
                  ELSE IF d > u * p[1].len THEN Ahead(Tail(p), d - u * p[1].len, u)
                  ELSE IF d = u * p[1].len THEN {p} \cup Ahead(Tail(p), 0, u)
                  ELSE {p}
Ends(p) == [k \in DOMAIN p |-> p[k].to]

Kind(c) == IF c.k \in {"cart", "geo"} THEN "loc" \o c.k ELSE IF c.k = "list" THEN "list" ELSE "num"
Ok(e) == e.exc = ""
Step_(X, e) ==
  LET i == e.s
      want == "" IN
  CASE e.op = "init" -> InitRec(X, 1)
    [] e.op = "tick" -> IF e.t < X.t THEN Fail(X, "time went back") ELSE [X EXCEPT !.t = e.t]
    [] e.op = "read" ->
         IF Bad(X, i) THEN (IF Ok(e) THEN Fail(X, "reading a location beyond its last waypoint did not fail") ELSE X)
         ELSE IF ~Ok(e) THEN Fail(X, "reading a state failed")
         ELSE IF e.v # Val(X, i) THEN Fail(X, IF X.mim[i] # 0 THEN "a mimicking state does not read as its source"
                                              ELSE IF X.own[i] = {} THEN "a state that is not active changed by itself"
                                              ELSE IF Loc(X, i) THEN "a moving location is not where it should be"
                                              ELSE "an active state does not read as its value plus rate times time")
         ELSE Read(X, i)
    [] e.op = "set" -> IF ~Ok(e) THEN Fail(X, "setting a state failed") ELSE Set(X, i, e.v)
    [] e.op = "mut" -> [X EXCEPT !.v[i] = Append(@, e.v[1])]
    [] e.op = "record" -> IF Bad(X, i) THEN (IF Ok(e) THEN Fail(X, "recording a location beyond its last waypoint did not fail") ELSE X)
                          ELSE IF ~Ok(e) THEN Fail(X, "recording a state failed")
                          ELSE Rec(Read(X, i), i, Val(X, i))
    [] e.op = "act" ->
         IF CanAct(X, i, e.k) # Ok(e) THEN Fail(X, IF Ok(e) THEN "a state was activated that another task has active, or twice by the same task"
                                                   ELSE "activating a state failed")
         ELSE IF ~Ok(e) THEN X
         ELSE IF Loc(X, i) /\ ~LegsOK(X, i, X.v[i], e.path) THEN Fail(X, "the driver made a bad path")
         ELSE Act(X, i, e.k, e)
    [] e.op = "deact" ->
         IF (e.k \in Tasks(X, i)) /\ Beyond(X, i) THEN (IF Ok(e) THEN Fail(X, "stopping beyond the last waypoint did not fail") ELSE X)
         ELSE IF (e.k \in Tasks(X, i)) # Ok(e) THEN Fail(X, IF Ok(e) THEN "a task deactivated a state that it had not activated" ELSE "deactivating a state failed")
         ELSE IF ~Ok(e) THEN X ELSE Deact(X, i, e.k)
    [] e.op = "deactall" ->
         IF ~Ok(e) THEN (IF \E j \in I(X) : X.c[j].a = e.a /\ e.k \in Tasks(X, j) /\ Beyond(X, j) THEN [X EXCEPT !.out = e.h, !.fout = e.fh] ELSE Fail(X, "deactivating a task's states failed"))
         ELSE DeactAll(X, e.a, e.k, 1)
    [] e.op = "mimic" ->
         LET allowed == X.mim[i] = 0 /\ Kind(X.c[i]) = Kind(X.c[e.src]) IN
         IF Bad(X, e.src) THEN (IF Ok(e) THEN Fail(X, "mimicking beyond the last waypoint did not fail") ELSE X)
         ELSE IF allowed # Ok(e) THEN Fail(X, IF Ok(e) THEN "a state mimics two sources, or one of another type" ELSE "starting to mimic failed")
         ELSE IF Ok(e) THEN [Read(X, e.src) EXCEPT !.mim[i] = e.src, !.mt[i] = e.k]
         ELSE IF X.mim[i] # 0 THEN X ELSE Read(X, e.src)
    [] e.op = "mimkv" -> IF Ok(e) THEN Fail(X, "a keyed state mimics or is mimicked") ELSE X
    [] e.op = "unmimic" ->
         LET allowed == X.mim[i] # 0 /\ X.mt[i] = e.k IN
         IF allowed /\ Bad(X, i) THEN (IF Ok(e) THEN Fail(X, "a mimic of a location beyond its last waypoint stopped without an error") ELSE X)
         ELSE IF allowed # Ok(e) THEN Fail(X, IF Ok(e) THEN "a task ended a mimicking that it had not started" ELSE "ending a mimicking failed")
         ELSE IF Ok(e) THEN Unmimic(X, i) ELSE X
    [] e.op = "unmimicall" -> IF ~Ok(e) THEN (IF \E j \in I(X) : X.c[j].a = e.a /\ X.mim[j] # 0 /\ X.mt[j] = e.k /\ Bad(X, j) THEN [X EXCEPT !.out = e.h, !.fout = e.fh] ELSE Fail(X, "ending a task's mimicking failed")) ELSE UnmimicAll(X, e.a, e.k, 1)
    [] e.op = "wp" ->
         IF ~Ok(e) THEN (IF Beyond(X, i) THEN X ELSE Fail(X, "asking for the remaining waypoints failed"))
         ELSE IF Beyond(X, i) THEN Fail(X, "waypoints remain beyond the last one")
         ELSE IF ~(\E p \in Ahead(X.path[i], Gone(X, i), 8 * X.q) : e.wps = Ends(p)) THEN Fail(X, "the remaining waypoints are wrong")
         ELSE X
    [] OTHER -> Fail(X, "unknown operation " \o e.op)

(* An active or mimicking state refreshes itself when it is needed, and how   *)
(* often within one operation is nobody's business: one that records          *)
(* duplicates may have more of the same entries, never fewer.                 *)
RECURSIVE Squeeze(_, _)
Squeeze(h, prev) == IF h = <<>> THEN <<>> ELSE IF h[1] = prev THEN Squeeze(Tail(h), prev) ELSE <<h[1]>> \o Squeeze(Tail(h), h[1])
Refreshing(X, i) == X.c[i].dup /\ (X.mim[i] # 0 \/ X.own[i] # {})
Agrees(h, want, prev, free) == h = want \/ (free /\ Len(h) >= Len(want) /\ want # <<>> /\ Squeeze(h, prev) = Squeeze(want, prev))

ActiveStatesStep(X0, e) ==
  LET X == [X0 EXCEPT !.out = [i \in I(X0) |-> <<>>], !.fout = [i \in I(X0) |-> <<>>]]
      Y == Step_(X, e)
  IN IF Y.err # "" THEN Y
     ELSE IF e.t # Y.t THEN Fail(Y, "the clock is wrong")
     ELSE IF \E i \in I(X) : ~Agrees(e.h[i], Y.out[i], X.last[i], Refreshing(X, i) \/ Refreshing(Y, i))
     THEN Fail(Y, LET i == CHOOSE j \in I(X) : ~Agrees(e.h[j], Y.out[j], X.last[j], Refreshing(X, j) \/ Refreshing(Y, j)) IN
                  IF ~X.c[i].rec THEN "a state that does not record has a history"
                  ELSE IF ~Ok(e) THEN "a failed operation changed a history"
                  ELSE IF Y.mim[i] # 0 \/ X.mim[i] # 0 THEN "the history of a mimicking state is wrong"
                  ELSE IF Len(e.h[i]) > Len(Y.out[i]) THEN "a history has an entry too many"
                  ELSE IF Len(e.h[i]) < Len(Y.out[i]) THEN "a history lacks an entry"
                  ELSE "a history entry is wrong")
     ELSE IF \E i \in I(X) : ~Agrees(e.fh[i], Y.fout[i], X.flast[i], Refreshing(X, i) \/ Refreshing(Y, i)) THEN Fail(Y, "the history of a recording function is wrong")
     ELSE Y
=============================================================================
