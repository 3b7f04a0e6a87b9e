------------------------------ MODULE Reserve -------------------------------
(***************************************************************************)
(* Reservable container.  cfg: [init, cap, mon].  `res` is the sequence of *)
(* outstanding reservations [who, q, exp] in the order they were made; exp *)
(* is the absolute time at which the reservation returns to the available  *)
(* amount, -1 if it does not expire.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RvInit(cfg) == [ content |-> cfg.init, cap |-> cfg.cap, mon |-> cfg.mon, now |-> 0, res |-> <<>>,
                 taken |-> 0, added |-> 0, rec |-> << <<0, cfg.init>> >>, ok |-> TRUE, amt |-> 0,
                 over |-> FALSE, err |-> "", kf |-> "" ]

SumQ(r) == FoldLeft(LAMBDA a, x : a + x.q, 0, r)
Avail(s) == s.content - SumQ(s.res)
Who(s) == [i \in DOMAIN s.res |-> s.res[i].who]
At(s, w) == {i \in DOMAIN s.res : s.res[i].who = w}
Drop(r, i) == SubSeq(r, 1, i - 1) \o SubSeq(r, i + 1, Len(r))
Rec_(s) == IF s.content = s.rec[Len(s.rec)][2] THEN s ELSE [s EXCEPT !.rec = Append(@, <<s.now, s.content>>)]
Ok(s, b, a) == [s EXCEPT !.ok = b, !.amt = a]

(* everything due strictly before (or, settled, at) time t has expired *)
Expire(s, t, incl) ==
  [s EXCEPT !.res = SelectSeq(@, LAMBDA x : x.exp = -1 \/ (IF incl THEN x.exp > t ELSE x.exp >= t))]

RvApply(s, o) ==
  CASE o.op = "reserve" ->
         IF Avail(s) < o.q \/ At(s, o.who) # {} THEN Ok(s, FALSE, 0)
         ELSE Ok([s EXCEPT !.res = Append(@, [who |-> o.who, q |-> o.q,
                                               exp |-> IF o.exp = -1 THEN -1 ELSE s.now + o.exp])], TRUE, 0)
    [] o.op = "cancel" ->
         IF At(s, o.who) = {} THEN Ok(s, FALSE, 0)
         ELSE Ok([s EXCEPT !.res = Drop(@, CHOOSE i \in At(s, o.who) : TRUE)], TRUE, 0)
    [] o.op = "take" ->
         IF At(s, o.who) = {} THEN Ok(s, FALSE, 0)
         ELSE LET i == CHOOSE i \in At(s, o.who) : TRUE
                  q == s.res[i].q
              IN Ok(Rec_([s EXCEPT !.res = Drop(@, i), !.content = @ - q, !.taken = @ + q]), TRUE, q)
    [] o.op = "put" ->
         IF s.content + o.q > s.cap /\ ~o.incr THEN Ok(s, FALSE, 0)
         ELSE Ok(Rec_([s EXCEPT !.content = @ + o.q, !.added = @ + o.q, !.over = @ \/ o.incr]), TRUE, 0)
    [] o.op = "settle" -> Ok(Expire(s, s.now, TRUE), TRUE, 0)
    [] o.op = "advance" -> Ok([Expire(s, s.now + o.dt, FALSE) EXCEPT !.now = @ + o.dt], TRUE, 0)
    [] OTHER -> [s EXCEPT !.err = "unknown operation"]

RvCollapse(r) ==
  FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][2] = x[2] THEN a ELSE Append(a, x), <<>>, r)

RvStep(s, e) ==
  LET n == RvApply(s, e) IN
  CASE n.err # "" -> n
    [] e.ok # n.ok -> [n EXCEPT !.err = "outcome of " \o e.op \o ": granted or refused wrongly"]
    [] e.amt # n.amt -> [n EXCEPT !.err = "amount handed over differs from the reserved amount"]
    [] e.avail # Avail(n) -> [n EXCEPT !.err = "available amount differs from content minus outstanding reservations"]
    [] e.remaining # Avail(n) -> [n EXCEPT !.err = "remaining amount differs from content minus outstanding reservations"]
    [] e.queued # Who(n) -> [n EXCEPT !.err = "outstanding reservations differ"]
    [] n.mon /\ RvCollapse(e.rec) # n.rec -> [n EXCEPT !.err = "record: recorded quantities differ from the true content"]
    [] OTHER -> n

RvInv(s, init) == /\ Avail(s) >= 0
                  /\ s.content = init + s.added - s.taken
                  /\ (~s.over => s.content <= s.cap)
                  /\ \A i, j \in DOMAIN s.res : s.res[i].who = s.res[j].who => i = j
=============================================================================
