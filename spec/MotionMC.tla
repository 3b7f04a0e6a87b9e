------------------------------ MODULE MotionMC ------------------------------
(* One or two movers on a line, sensors on it; every due call is made.        *)
EXTENDS Motion, Json
CONSTANTS Depth, Gen
VARIABLES s, hist, d0

P(x) == <<x * 1000, 0, 0>>
Confs == {[rot |-> 0, movers |-> <<[p |-> P(0), det |-> d, has |-> TRUE]>>] : d \in BOOLEAN}
Legs == { <<[k |-> 1, d |-> 8000]>>, <<[k |-> 1, d |-> 6000], [k |-> 1, d |-> -9000]>>, <<[k |-> 1, d |-> -4000], [k |-> 1, d |-> 7000]>>, <<[k |-> 1, d |-> 3000], [k |-> 2, d |-> 4000]>> }
Ops == {[op |-> "start", m |-> 1, legs |-> l, sp |-> sp] : l \in Legs, sp \in {1, 2}}
    \cup {[op |-> "stop", m |-> 1]}
    \cup {[op |-> "detect", m |-> 1, on |-> b] : b \in BOOLEAN}
    \cup {[op |-> "sensor", c |-> P(c), r |-> r, kill |-> kl, look |-> FALSE] : c \in {2, 5}, r \in {1250, 2750}, kl \in BOOLEAN}
    \cup {[op |-> "advance", v |-> v] : v \in {500, 1500, 3000}}
EndT(m) == m.t0 + (Length(m.wp) \div m.sp)
Useful(o) == CASE o.op = "start" -> ~s.mv[1].on
               [] o.op = "stop" -> s.mv[1].on
               [] o.op = "detect" -> s.mv[1].det # o.on
               [] o.op = "sensor" -> Len(s.se) < 2
               [] o.op = "advance" -> ~s.mv[1].on \/ s.t + o.v <= EndT(s.mv[1])
(* all the calls due before t, in order of time *)
Due(X, t) == UNION {{<<m, i>> : i \in {j \in DOMAIN X.pend[m] : X.pend[m][j] # <<>> /\ X.pend[m][j][1].t < t}} : m \in DOMAIN X.pend}
RECURSIVE Run(_, _)
Run(X, t) == IF Due(X, t) = {} \/ X.err # "" THEN X
             ELSE LET c == CHOOSE a \in Due(X, t) : \A b \in Due(X, t) : X.pend[a[1]][a[2]][1].t <= X.pend[b[1]][b[2]][1].t
                      q == X.pend[c[1]][c[2]][1]
                  IN IF q.opt THEN Run([X EXCEPT !.pend[c[1]][c[2]] = IF Len(@) > 1 /\ @[2].opt THEN SubSeq(@, 3, Len(@)) ELSE Tail(@)], t)
                     ELSE Run(Calls(X, <<[t |-> q.t, s |-> c[2], m |-> c[1], k |-> q.k, p |-> Place(X.mv[c[1]], q.t)]>>), t)
(* a mover made undetectable is told of at once *)
Auto(o) == LET e == o @@ [calls |-> <<>>, exc |-> ""] IN
           CASE o.op = "advance" -> [Run(s, s.t + o.v) EXCEPT !.t = @ + o.v]
             [] o.op = "detect" /\ ~o.on -> Run(Gone(s, 1, s.t), s.t + 1)
             [] OTHER -> Step_(s, e)
MCInit == \E c \in Confs : s = MotionInit(c) /\ hist = <<>> /\ d0 = c.movers[1].det
MCNext == Len(hist) < Depth /\ \E o \in Ops : Useful(o) /\ s' = Auto(o) /\ hist' = Append(hist, o) /\ UNCHANGED d0
MCSpec == MCInit /\ [][MCNext]_<<s, hist, d0>>
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
MCView == IF Gen THEN <<s, hist, d0>> ELSE <<s, Len(hist), Last>>

NoErr == s.err = ""
Dist2(p, c) == (p[1] - c[1]) * (p[1] - c[1]) + (p[2] - c[2]) * (p[2] - c[2]) + (p[3] - c[3]) * (p[3] - c[3])
(* after time has passed, a sensor has been told of exactly the movers on their way that are within its range *)
Told == Last = "advance" => \A m \in DOMAIN s.mv : s.mv[m].on /\ s.mv[m].seen =>
          \A i \in DOMAIN s.se : LET d == Dist2(Place(s.mv[m], s.t), s.se[i].c)
                                     r == s.se[i].r
                                 IN /\ d < (r - 10) * (r - 10) => s.in[m][i]
                                    /\ d > (r + 10) * (r + 10) => ~s.in[m][i]
(* nothing sees what cannot be detected *)
Unseen == \A m \in DOMAIN s.mv : ~s.mv[m].det => \A i \in DOMAIN s.se : ~s.in[m][i]
(* what is told next is an entry by the sensors that do not see it, and entries and exits alternate, in order of time *)
Order == \A m \in DOMAIN s.mv : \A i \in DOMAIN s.se : LET q == s.pend[m][i] IN
           /\ q # <<>> => q[1].k = (IF s.in[m][i] THEN 2 ELSE 1)
           /\ \A j \in 1..Len(q) - 1 : q[j].k # q[j + 1].k /\ q[j].t <= q[j + 1].t
(* what it leaves it leaves at the edge, and it enters there or is inside to begin with *)
Edges == \A m \in DOMAIN s.mv : s.mv[m].on /\ s.mv[m].seen => \A i \in DOMAIN s.se : \A j \in DOMAIN s.pend[m][i] :
           LET q == s.pend[m][i][j]
               d == Dist2(Place(s.mv[m], q.t), s.se[i].c)
               r == s.se[i].r
           IN d <= (r + 10) * (r + 10) /\ (q.k = 2 \/ q.t > s.t + Tol => d >= (r - 10) * (r - 10))
(* a sensor that ends what it sees never keeps it *)
Kill == \A m \in DOMAIN s.mv : \A i \in DOMAIN s.se : s.se[i].kill => (Last = "advance" => ~s.in[m][i])
PrintProg == (Gen /\ Len(hist) = Depth) =>
   PrintT("PROGRAM " \o ToJson([rot |-> 0, u |-> 1, w |-> 1, unit |-> "nmi", lon |-> 0, debug |-> (s.t = 500), movers |-> <<[p |-> P(0), det |-> d0, has |-> TRUE]>>, ops |-> hist]))
=============================================================================
