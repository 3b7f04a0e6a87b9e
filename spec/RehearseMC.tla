----------------------------- MODULE RehearseMC -----------------------------
(* Small worlds for Rehearse: a rehearsal leaves the real actor and all the   *)
(* clones as they are, and says what really running the plan will give.       *)
EXTENDS Rehearse, Json
CONSTANTS Depth, Gen
VARIABLES s, hist

Wt(t) == [k |-> "wait", t |-> t, r |-> t]
V(k, v) == [k |-> k, v |-> v]
N(k, n, v) == [k |-> k, n |-> n, v |-> v]
L(k, t) == [k |-> k, t |-> t, ms |-> <<>>]
M(k, ms) == [k |-> k, t |-> 0, ms |-> ms]
Mu(m) == [k |-> "multi", m |-> m, gv |-> FALSE]
T(k, t) == [k |-> k, t |-> t, v |-> 5]
Pr(a, d, b, c, s0, s1, s3) == [A |-> a, D |-> d, B |-> b, C |-> c, S0 |-> s0, S1 |-> s1, S2 |-> <<>>, S3 |-> s3, Z |-> <<[k |-> "kev", t |-> 6]>>]
Progs == <<
  Pr(<<V("addx", 1), Wt(2), N("usef", "g", 0)>>, <<V("addx", 2), [k |-> "q", q |-> <<"C">>]>>, <<N("act", "f", 2), Wt(4), [k |-> "deact"]>>, <<T("ev", 2), N("ks", "k1", 3)>>,
     <<N("act", "f", 1), Wt(2), [k |-> "deact"], V("addx", 1)>>, <<N("ks", "k2", 4), N("act", "f", 3), T("get", 2)>>, <<N("dset", "a", 5)>>),
  Pr(<<N("act", "f", 1), Mu(M("any", <<L("w", 4), M("all", <<L("e", 2), L("w", 6)>>)>>)), [k |-> "deact"], V("note", 1)>>, <<[k |-> "ifx", v |-> 2, t |-> 1], V("addx", 2), N("dset", "b", 1)>>,
     <<N("ks", "k1", 1), [k |-> "reh", n |-> "S0"], T("get", 4)>>, <<[k |-> "routine", ts |-> <<2, 4>>], N("dset", "p", 2)>>,
     <<V("addx", 3), Wt(2), N("setf", "f", 2)>>, <<V("addx", 1), N("kme", "k2", 0), Wt(1)>>, <<V("addx", 1), N("setf", "f", 4)>>),
  Pr(<<[k |-> "put", v |-> 4, r |-> 0], [k |-> "hold", t |-> 0, v |-> 1], N("setf", "f", 3)>>, <<[k |-> "q", q |-> <<"B", "C">>]>>, <<N("act", "f", -1), [k |-> "kev", t |-> 2], N("usef", "g", 0), [k |-> "deact"]>>,
     <<V("now", 0), [k |-> "cget", t |-> 2, v |-> 1], V("addx", 1)>>, <<Wt(2), N("ks", "k2", 1)>>, <<[k |-> "windowed", t |-> 3, v |-> 0], [k |-> "put", v |-> 2, r |-> 1], [k |-> "fail", e |-> "RuntimeError", how |-> "raise"]>>,
     <<N("kc", "k1", 0)>>) >>
Links(d) == [A |-> [default |-> d, allowed |-> <<"D", "B", "C", "Z">>], D |-> [default |-> "B", allowed |-> <<"B", "C">>], B |-> [default |-> "Z", allowed |-> <<"C", "Z">>],
             C |-> [default |-> "Z", allowed |-> <<"Z", "A">>], Z |-> [default |-> "", allowed |-> <<"A">>]]
Confs == {[x0 |-> 1, f0 |-> 2, l0 |-> <<>>, d0 |-> 0, p0 |-> 1, s0 |-> <<>>, c0 |-> 3, progs |-> Progs[i], links |-> Links(d), groups |-> 0, mons |-> 0, bk |-> 0] : i \in DOMAIN Progs, d \in {"D", "B"}}
Kn == {<<>>, [k2 |-> 5]}
E0(o, a) == [op |-> o, a |-> a, v |-> 2, know |-> <<>>, kg |-> FALSE]
Ops == {E0("advance", 0), E0("sput", 0), E0("sput", 1), E0("tick", 1), [E0("start", 0) EXCEPT !.op = "start"] @@ [n |-> "A"],
        E0("do", 0) @@ [act |-> V("addx", 2)], E0("do", 1) @@ [act |-> N("setf", "f", 1)], E0("do", 0) @@ [act |-> N("dset", "b", 2)],
        E0("clone", 1) @@ [x |-> None_, y |-> None_, badinit |-> FALSE]}
    \cup {[E0("clone", 0) EXCEPT !.know = k] @@ [x |-> None_, y |-> None_, badinit |-> FALSE] : k \in Kn}
    \cup {[E0("rehearse", 0) EXCEPT !.know = k] @@ [n |-> n] : k \in Kn, n \in {"A", "S0", "S1", "S3"}}
    \cup {E0("continue", 1) @@ [n |-> n] : n \in {"B", "S0", "S1"}}
    \cup {[E0("network", 0) EXCEPT !.know = <<>>] @@ [list |-> l, end |-> z] : l \in {<<"A">>, <<"D", "C">>, <<"B", "A">>}, z \in {"", "Z"}}
On(X, o) == o.a + 1 \in DOMAIN X.a /\ (o.op = "start" => ~X.run.on /\ X.a[1].t = 0) /\ (o.op = "sput" => Len(X.a[o.a + 1].s) < 2) /\ (o.op \in {"clone", "rehearse", "network"} => Len(X.a) < 3)
Do(X, o) == Step_(X, [o EXCEPT !.a = @ + 1] @@ [exc |-> "*", own |-> 1000 * (Len(hist) + 1), ents |-> <<>>])
MCInit == \E c \in Confs : s = [RehearseInit(c) EXCEPT !.a[1] = Begin(@)] /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E o \in Ops : On(s, o) /\ s' = Do(s, o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<s, hist>>
MCView == IF Gen THEN <<s, hist>> ELSE <<s, Len(hist)>>

NoErr == s.err = ""
(* what running the path for real gives, from a real actor that runs nothing *)
Real(X) == Upto([X EXCEPT !.run = [on |-> TRUE, name |-> "A", left |-> X.c.progs["A"], wake |-> X.a[1].t, n |-> 1]], X.a[1].t + 100)
Same(P, Q) == P.x = Q.x /\ P.hx = Q.hx /\ P.hr = Q.hr /\ P.lin = Q.lin /\ P.d = Q.d /\ P.hd = Q.hd /\ P.q = Q.q /\ P.nt = Q.nt /\ P.mu = Q.mu /\ P.know = Q.know
Predicts == (~s.run.on /\ s.a[1].q = <<>>) =>
   LET Y == Real(s)
       r == Path(s, Clone(ReadF(s, s.a[1]), s.a[1].t, <<>>, None_), <<"A">>, 1, "", "Z", -1)
   IN r.st = "" /\ Y.run.name = "Z" /\ Same(r.a, Y.a[1]) /\ r.a.bx = Y.a[1].bx
(* the returned clone's clock is the sum of what the steps take; it never lies before the real one's *)
Clocks == \A i \in DOMAIN s.a : i > 1 => s.a[i].t >= 0 /\ (s.a[i].hx # <<>> => s.a[i].hx[Len(s.a[i].hx)][1] <= s.a[i].t)
OnlyOne == [][LET o == hist'[Len(hist')] IN
               \A i \in DOMAIN s.a :
                 /\ (i # o.a + 1 /\ ~(i = 1 /\ o.op = "advance")) => s'.a[i] = s.a[i]
                 /\ (i = o.a + 1 /\ o.op \in {"clone", "rehearse", "network"}) => s'.a[i] = ReadF(s, s.a[i]) /\ s'.run = s.run]_<<s, hist>>
(* rehearsing twice gives the same *)
Twice == \A n \in {"A", "B", "C"} : LET r == Through(s, Clone(s.a[1], s.a[1].t, <<>>, None_), s.c.progs[n], 0)
                                        q == Through(s, Clone(ReadF(s, s.a[1]), s.a[1].t, <<>>, None_), s.c.progs[n], 0) IN
                                    s.a[1].lin.f.rs = <<>> /\ s.a[1].lin.p.rs = <<>> => r = q
PrintProg == (Gen /\ Len(hist) = Depth) =>
   PrintT("PROGRAM " \o ToJson([x0 |-> 1, f0 |-> 2, d0 |-> 0, p0 |-> 1, c0 |-> 3, bk |-> 0, given |-> (Len(s.a) = 1), skip |-> (s.a[1].x = 1), progs |-> s.c.progs, links |-> s.c.links, ops |-> hist]))
=============================================================================
