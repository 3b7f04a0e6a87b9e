------------------------------ MODULE ContCont ------------------------------
(***************************************************************************)
(* Continuous container.  Requests add a constant rate (negative for a     *)
(* get) from their start to their end; the level is the integral of the    *)
(* rates.  At every instant first the requests that are due end, and the   *)
(* driver's starts and cancels take effect; then, if the level is at a     *)
(* bound and the remaining net rate still pushes against it, the requests  *)
(* that push are ended and, if so configured, an error is raised.          *)
(* Where several changes fall into the instant in which the bound is       *)
(* reached, the code may end the pushing requests at an intermediate point *)
(* of the instant; there the specification allows both outcomes and takes  *)
(* the recorded one.                                                       *)
(*                                                                         *)
(* cfg: [cap, init, errE, errF, mon];  inf is encoded as duration -1.      *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, SequencesExt, TLC

K == 1000                               \* resolution of recorded values

CcInit(cfg) == [ cap |-> R(cfg.cap), errE |-> cfg.errE, errF |-> cfg.errF, mon |-> cfg.mon,
                 now |-> R(0), level |-> R(cfg.init), users |-> <<>>, dead |-> FALSE,
                 marks |-> << <<R(0), R(cfg.init)>> >>,
                 hits |-> 0, frac |-> FALSE, err |-> "", kf |-> "" ]

Running(u) == u.how = "run"
RECURSIVE SumRate(_)
SumRate(us) == IF us = <<>> THEN 0 ELSE (IF Running(us[1]) THEN us[1].rate ELSE 0) + SumRate(Tail(us))
Net(s) == SumRate(s.users)
Inf == <<-1, 1>>
IsInf(t) == t[1] < 0

(* time at which the level meets the bound it is heading for; Inf if never *)
HitTime(s) ==
  LET r == Net(s) IN
  IF r > 0 THEN RAdd(s.now, RDivI(RSub(s.cap, s.level), r))
  ELSE IF r < 0 THEN RAdd(s.now, RDivI(s.level, -r))
  ELSE Inf

EndTimes(s) == {s.users[i].end : i \in {j \in DOMAIN s.users : Running(s.users[j]) /\ ~IsInf(s.users[j].end)}}
NextInstant(s) ==
  LET c == EndTimes(s) \cup (IF IsInf(HitTime(s)) THEN {} ELSE {HitTime(s)})
  IN IF c = {} THEN Inf ELSE CHOOSE x \in c : \A y \in c : RLe(x, y)

Move(s, t) == LET l == RAdd(s.level, <<(RSub(t, s.now)[1] * Net(s)), RSub(t, s.now)[2]>>)
              IN [s EXCEPT !.level = Norm(l[1], l[2]), !.now = t, !.frac = @ \/ t[2] # 1]

AtEmpty(s) == s.level[1] = 0
AtFull(s) == REq(s.level, s.cap)

SetUsers(s, P(_), how) ==
  [s EXCEPT !.users = [i \in DOMAIN s.users |-> IF P(s.users[i]) THEN [s.users[i] EXCEPT !.how = how, !.at = s.now] ELSE s.users[i]]]

Mark(s) == [s EXCEPT !.marks = Append(@, <<s.now, s.level>>)]

(* did the recording say that user u ended at this instant? *)
EndedHere(s, e, uid) == \E i \in DOMAIN e.ends : e.ends[i][1] = uid /\ RNear(s.now, e.ends[i][2], K)

(* one instant: batch is the driver's list of starts and cancels at this instant *)
Instant(s0, batch, e) ==
  LET starts == SelectSeq(batch, LAMBDA o : o.op = "start")
      cancels == {batch[i].uid : i \in {j \in DOMAIN batch : batch[j].op = "cancel"}}
      s1 == [s0 EXCEPT !.users = @ \o [i \in DOMAIN starts |->
               [uid |-> starts[i].uid, rate |-> starts[i].rate, how |-> "run", at |-> R(0), st |-> s0.now, may |-> FALSE,
                end |-> IF starts[i].dur = -1 THEN Inf ELSE RAdd(s0.now, R(starts[i].dur))]]]
      due(u) == Running(u) /\ ~IsInf(u.end) /\ REq(u.end, s0.now)
      canc(u) == Running(u) /\ u.uid \in cancels
      dir == IF AtEmpty(s0) THEN -1 ELSE IF AtFull(s0) THEN 1 ELSE 0
      pushing(u) == Running(u) /\ dir * u.rate > 0
      changes == \E i \in DOMAIN s1.users : due(s1.users[i]) \/ canc(s1.users[i])
      s2 == SetUsers(SetUsers(s1, canc, "cancel"), due, "natural")
      must == dir # 0 /\ Net(s2) * dir > 0
      s2m == IF dir # 0 /\ (changes \/ Len(starts) > 0)
             THEN [s2 EXCEPT !.users = [i \in DOMAIN s2.users |->
                      [s2.users[i] EXCEPT !.may = @ \/ (pushing(s1.users[i]) /\ ~Running(s2.users[i]))]]]
             ELSE s2
      errOn == IF dir = -1 THEN s0.errE ELSE s0.errF
      exc == IF dir = -1 THEN "ContainerEmptyError" ELSE "ContainerFullError"
      errHere == e.exc # "" /\ RNear(s0.now, e.exct, K)
      mayErr == dir # 0 /\ errOn /\ \E i \in DOMAIN s1.users : pushing(s1.users[i])
      s3 == IF must THEN [SetUsers(s2m, pushing, "limit") EXCEPT !.hits = @ + 1]
            ELSE IF dir # 0 /\ (changes \/ Len(starts) > 0)
                 THEN SetUsers(s2m, LAMBDA u : pushing(u) /\ EndedHere(s0, e, u.uid), "limit")
                 ELSE s2m
  IN IF s0.dead \/ s0.err # "" THEN s0
     ELSE IF errHere THEN
        IF e.exc # exc THEN [s3 EXCEPT !.err = "wrong error raised: " \o e.exc, !.dead = TRUE]
        ELSE IF ~mayErr THEN [s3 EXCEPT !.err = "error raised although the bound was not reached or errors are off", !.dead = TRUE]
        ELSE [s3 EXCEPT !.dead = TRUE]
     ELSE IF must /\ errOn THEN [s3 EXCEPT !.err = "the bound was reached and no error was raised", !.dead = TRUE]
     ELSE Mark(s3)

RECURSIVE Sim(_, _, _)
Sim(s, target, e) ==
  LET t == NextInstant(s) IN
  IF s.dead \/ s.err # "" THEN s
  ELSE IF IsInf(t) \/ RLe(target, t) THEN Move(s, target)
  ELSE LET m == Instant(Move(s, t), <<>>, e)
       IN IF REq(m.now, s.now) /\ m.users = s.users /\ ~m.dead /\ m.err = "" THEN [m EXCEPT !.err = "model stuck"]
          ELSE Sim(m, target, e)

CcApply(s, e) == Instant(Sim(s, RAdd(s.now, R(e.dt)), e), e.batch, e)

InfI == -1000000
Pred(t, i) == IF IsInf(t) THEN i = InfI ELSE RNear(t, i, K)
TimeTo(s, tgt, extra) ==
  LET r == Net(s) + extra
      d == RSub(R(tgt), s.level)
  IN IF d[1] = 0 THEN R(0) ELSE IF r = 0 \/ d[1] * r < 0 THEN Inf ELSE RDivI(d, r)
(* after an instant that is no whole number, binary rounding may put the level beside an exact value *)
PredTo(s, tgt, extra, i) ==
  \/ Pred(TimeTo(s, tgt, extra), i)
  \/ s.frac /\ REq(R(tgt), s.level) /\ i = InfI
TimeDone(s, extra) ==
  LET r == Net(s) + extra IN
  IF r > 0 THEN RDivI(RSub(s.cap, s.level), r) ELSE IF r < 0 THEN RDivI(s.level, -r) ELSE Inf

UserOk(u, e) ==
  LET o == e.users[u.uid]
      ended == {i \in DOMAIN e.ends : e.ends[i][1] = u.uid}
  IN IF Running(u) THEN o.alive /\ o.cb = 0 /\ ended = {}
     ELSE /\ ~o.alive
          /\ \E i \in ended : RNear(u.at, e.ends[i][2], K)
          /\ Cardinality(ended) = 1
          /\ IF u.may THEN o.cb \in {0, 1} ELSE o.cb = (IF u.how = "limit" THEN 1 ELSE 0)

CcStep(s, e) ==
  LET n == CcApply(s, e) IN
  CASE n.err # "" -> n
    [] n.dead -> IF e.exc = "" THEN [n EXCEPT !.err = "no error where one is due"] ELSE n
    [] e.exc # "" -> [n EXCEPT !.err = "unexpected error " \o e.exc]
    [] ~RNear(n.level, e.level, K) -> [n EXCEPT !.err = "level differs from the integral of the rates"]
    [] e.rate # Net(n) -> [n EXCEPT !.err = "net rate differs from the active requests"]
    [] \E i \in DOMAIN n.users : ~UserOk(n.users[i], e) -> [n EXCEPT !.err = "a request ended at the wrong time or its end was not notified as documented"]
    [] \E i \in DOMAIN e.preds : ~PredTo(n, e.preds[i].level, e.preds[i].extra, e.preds[i].t) -> [n EXCEPT !.err = "predicted time to a level is wrong"]
    [] ~Pred(TimeDone(n, e.dextra), e.done) -> [n EXCEPT !.err = "predicted time until full or empty is wrong"]
    [] n.mon /\ \E i \in DOMAIN e.rec : ~\E j \in DOMAIN n.marks : RNear(n.marks[j][1], e.rec[i][1], K) /\ RNear(n.marks[j][2], e.rec[i][2], K)
         -> [n EXCEPT !.err = "record: a recorded level is not the level at that time"]
    [] n.mon /\ \E u \in DOMAIN n.users : ~Running(n.users[u]) /\ ~\E i \in DOMAIN e.rec : RNear(n.users[u].at, e.rec[i][1], K)
         -> [n EXCEPT !.err = "record: no entry at the time a request ended"]
    [] n.mon /\ \E u \in DOMAIN n.users : ~\E i \in DOMAIN e.rec : RNear(n.users[u].st, e.rec[i][1], K)
         -> [n EXCEPT !.err = "record: no entry at the time a request started"]
    [] n.mon /\ \E i \in 1..(Len(e.rec) - 1) : e.rec[i][1] > e.rec[i + 1][1] -> [n EXCEPT !.err = "record: not in time order"]
    [] OTHER -> n

CcInv(s) == ~s.dead => RLe(R(0), s.level) /\ RLe(s.level, s.cap)
=============================================================================
