------------------------------ MODULE SteppedMC -----------------------------
(* A mover and a fixed thing on a line, with a fixed sensor and one carried   *)
(* by the mover; every call that is due is made, in the order of the sensors. *)
EXTENDS Stepped, Json
CONSTANTS Depth, Gen
VARIABLES s, hist

P(x) == <<x * 1000, 0, 0>>
Confs == {[dt |-> dt, max |-> 2, movers |-> <<[p |-> P(0), det |-> TRUE, has |-> TRUE], [p |-> P(5), det |-> TRUE, has |-> FALSE]>>] : dt \in {1000, 1500}}
Legs == { <<[k |-> 1, d |-> 8000]>>, <<[k |-> 1, d |-> 6000], [k |-> 1, d |-> -9000]>> }
Ops == {[op |-> "start", m |-> 1, legs |-> l, sp |-> sp] : l \in Legs, sp \in {1, 2}}
    \cup {[op |-> "stop", m |-> 1], [op |-> "run"], [op |-> "drain", lim |-> -1], [op |-> "particular", m |-> 1, rate |-> 500]}
    \cup {[op |-> "register", m |-> m] : m \in {1, 2}}
    \cup {[op |-> "detect", m |-> 1, on |-> b] : b \in BOOLEAN}
    \cup {[op |-> "place", m |-> 2, p |-> P(x)] : x \in {2, 12}}
    \cup {[op |-> "sensor", m |-> m, c |-> P(4), r |-> 2250, kill |-> kl, chk |-> FALSE, b |-> 0] : m \in {0, 1}, kl \in BOOLEAN}
    \cup {[op |-> "advance", v |-> v] : v \in {500, 2000}}
EndT(m) == m.t0 + (Length(m.wp) \div m.sp)
Useful(o) == CASE o.op = "start" -> ~s.mv[1].on
               [] o.op = "stop" -> s.mv[1].on
               [] o.op = "run" -> s.next < 0
               [] o.op = "register" -> ~s.mv[o.m].reg
               [] o.op = "place" -> s.mv[2].p # o.p
               [] o.op = "particular" -> s.part = <<>>
               [] o.op = "drain" -> ~s.mv[1].on /\ s.part = <<>> /\ s.next >= 0
               [] o.op = "detect" -> s.mv[1].det # o.on
               [] o.op = "sensor" -> Len(s.se) < 2 /\ \A i \in DOMAIN s.se : s.se[i].m # o.m
               [] o.op = "advance" -> ~s.mv[1].on \/ s.t + o.v <= EndT(s.mv[1])
(* the calls of one look at the entities ms, sensor by sensor *)
All(X) == [n \in 1..Len(X.se) * Len(X.mv) |-> <<((n - 1) \div Len(X.mv)) + 1, ((n - 1) % Len(X.mv)) + 1>>]
RECURSIVE Due(_, _, _)
Due(X, ms, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET m == q[1][2]
           i == q[1][1]
           c(k) == [t |-> X.t, s |-> i, m |-> m, k |-> k, p |-> Spot(X, m)]
           k == IF ~X.mv[m].det THEN (IF X.in[m][i] THEN 2 ELSE 0)
                ELSE IF m \notin ms \/ ~X.mv[m].reg THEN 0 ELSE IF Sight(X, m, i) = 1 /\ ~X.in[m][i] THEN 1 ELSE IF Sight(X, m, i) = 2 /\ X.in[m][i] THEN 2 ELSE 0
           Y == IF k = 0 THEN X ELSE Tell(X, c(k), ms)
           again == k = 1 /\ X.se[i].kill /\ X.mv[m].has
       IN IF k = 0 THEN Due(X, ms, Tail(q)) ELSE <<c(k)>> \o Due(Y, ms, IF again THEN All(Y) ELSE Tail(q))
RECURSIVE Steps(_, _)
Steps(X, T) ==
  IF Nexts(X) = {} \/ (\A n \in Nexts(X) : n >= T) THEN <<>>
  ELSE LET t == CHOOSE n \in Nexts(X) : \A q \in Nexts(X) : n <= q
           ms == IF t = X.next THEN DOMAIN X.mv ELSE {X.part[i].m : i \in {j \in DOMAIN X.part : X.part[j].next = t}}
           g == Due([X EXCEPT !.t = t], ms, All(X))
       IN g \o Steps(Adv(X, g, t + 1), T)
Calls_(o) == CASE o.op = "advance" -> Steps(s, s.t + o.v)
               [] o.op = "drain" -> Steps(s, s.next + (s.max - 1) * s.dt + 1)
               [] o.op = "detect" -> Due([s EXCEPT !.mv[1].det = o.on], IF o.on THEN {1} ELSE {}, All(s))
               [] OTHER -> <<>>
MCInit == \E c \in Confs : s = SteppedInit(c) /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Useful(o) /\ s' = DoStep(s, o @@ [calls |-> Calls_(o), exc |-> "", now |-> 0]) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist), Last>>

NoErr == s.err = ""
(* nothing sees what cannot be detected, and nothing sees itself *)
Unseen == \A m \in DOMAIN s.mv : \A i \in DOMAIN s.se : s.in[m][i] => s.mv[m].det /\ s.se[i].m # m
Kill == \A m \in DOMAIN s.mv : \A i \in DOMAIN s.se : s.se[i].kill /\ s.mv[m].has => ~s.in[m][i]
(* what is seen changes only by a step or a change of detectability *)
Frame == [][(\E i \in DOMAIN s.se : \E m \in DOMAIN s.mv : s'.in[m][i] # s.in[m][i]) => hist'[Len(hist')].op \in {"advance", "drain", "detect"}]_<<s, hist>>
(* a step that is due happens: the next one is never in the past *)
Ahead == \A n \in Nexts(s) : n >= s.t
(* without steps nothing is seen of what does not become detectable *)
Steppy == (s.next < 0 /\ s.part = <<>> /\ \A i \in DOMAIN hist : hist[i].op \notin {"detect", "run", "start", "drain"}) => \A m \in DOMAIN s.mv : \A i \in DOMAIN s.se : ~s.in[m][i]
PrintProg == (Gen /\ Len(hist) = Depth) =>
   PrintT("PROGRAM " \o ToJson([rot |-> 0, u |-> 1, w |-> 1, dt |-> s.dt, max |-> s.max, debug |-> (s.t = 500),
                                movers |-> <<[kind |-> "mover", p |-> P(0), det |-> TRUE, has |-> TRUE], [kind |-> "thing", p |-> P(5), det |-> TRUE, has |-> FALSE]>>, ops |-> hist]))
=============================================================================
